// U04: type_info_of over generated programs.
#include "sys.h"
#include "debug.h"
#include "mangle_gen.h"
#include "progs.h"
using mg::TP;
using mg::Type;

struct Ty { TP tp; bool obj, local; };

static TP node(Type::K k) { auto t = std::make_shared<Type>(); t->kind = k; return t; }
static TP builtin(char c) { TP t = node(Type::Builtin); t->code = c; return t; }
static mg::Comp ident(std::string const& s) { mg::Comp c; c.id = s; return c; }
static TP add_cv(TP t, std::string const& q)
{
  if (t->kind == Type::Array)
  {
    TP a = std::make_shared<Type>(*t);
    a->inner = add_cv(t->inner, q);
    return a;
  }
  if (t->kind == Type::Ref || t->kind == Type::Func)
    return t;
  std::string all = q;
  TP in = t;
  if (t->kind == Type::CV)
  {
    all += t->cv;
    in = t->inner;
  }
  TP r = node(Type::CV);
  for (char c : std::string("rVK"))
    if (all.find(c) != all.npos)
      r->cv += c;
  r->inner = in;
  return r;
}
// What typeid sees.
static TP strip(TP t)
{
  if (t->kind == Type::Ref)
    return strip(t->inner);
  if (t->kind == Type::CV)
    return t->inner;
  if (t->kind == Type::Array)
  {
    TP a = std::make_shared<Type>(*t);
    a->inner = strip(t->inner);
    return a;
  }
  return t;
}
static TP bare(TP t) { return t->kind == Type::CV ? t->inner : t; }

static char const* const head = R"CPP(#include "sys.h"
#include "debug.h"
#include <libcwd/type_info.h>
#include <libcwd/demangle.h>
#include <typeinfo>
#include <type_traits>
#include <utility>
#include <memory>
#include <cstdio>
#include <cstring>
#include <string>
static void bad(int k, char const* what, std::string got, std::string want) { printf("BAD %d %s: %s instead of %s\n", k, what, got.c_str(), want.c_str()); }
static void eq(int k, char const* what, std::string got, std::string want) { if (got != want) bad(k, what, got, want); }
template<class T> concept HasSize = std::is_object_v<T> && requires { sizeof(T); };
template<class T> constexpr size_t pointee() {
  using P = std::remove_cv_t<T>;
  if constexpr (std::is_pointer_v<P>) { if constexpr (HasSize<std::remove_pointer_t<P>>) return sizeof(std::remove_pointer_t<P>); else return 0; }
  else return 0; }
template<class T> void all(int k, libcwd::TypeInfo const& a, char const* dem, char const* man) {
  eq(k, "demangled_name", a.demangled_name(), dem);
  eq(k, "name", a.name(), man);
  eq(k, "size", std::to_string(a.size()), std::to_string(sizeof(T)));
  eq(k, "ref_size", std::to_string(a.ref_size()), std::to_string(pointee<T>()));
  std::string again; libcwd::demangle_type(a.name(), again);
  eq(k, "demangled name()", again, dem);
  if (&a == &libcwd::unknown_type_info_c) bad(k, "identity", "unknown", "known");
}
template<class T> void exact(int k, char const* dem, char const* man) {
  libcwd::TypeInfo const& a = libcwd::type_info_of<T>();
  all<T>(k, a, dem, man);
  if (&a != &libcwd::type_info_of<T>()) bad(k, "identity", "another object", "the same");
}
alignas(64) static char room[1 << 16];
template<class T> void expr(int k, char const* dem, char const* man) {
  using R = std::remove_reference_t<T>;
  R& x = *reinterpret_cast<R*>(room);
  libcwd::TypeInfo const& a = libcwd::type_info_of(x);
  all<std::remove_cv_t<R>>(k, a, dem, man);
  eq(k, "typeid", a.name(), typeid(x).name());
  if (&a != &libcwd::type_info_of(x)) bad(k, "identity", "another object", "the same");
}
static void unknown() {
  libcwd::TypeInfo const& u = libcwd::unknown_type_info_c;
  eq(-1, "unknown", u.demangled_name(), "<unknown type>");
  if (u.name() || u.size() || u.ref_size()) bad(-1, "unknown", "something", "nothing");
}
)CPP";

int main(int argc, char** argv)
{
  pbt::Config cfg;
  cfg.property = "U04";
  cfg.rule = "generated programs, each with a dozen class templates, classes, enums (namespaces, nested, local, anonymous, incomplete; "
             "identifiers that look like pieces of a mangling) and some 100 types built from them, queried by type and by expression in "
             "random order with repetitions; expected spelling and mangling from an independent printer and mangler, sizes from the "
             "compiler. Non-trivial: every program (it has at least 20 compound types)";
  cfg.quick_cases = 64;
  cfg.thorough_cases = 4000;
  cfg.case_timeout = 100;
  cfg.body = [](pbt::Case& c) {
    std::string prog = head, run;
    std::vector<Ty> ty;
    std::vector<int> objs;        // Complete object types without top level cv that are no arrays.
    std::set<std::string> used;
    auto fresh = [&]() {
      for (;;)
      {
        std::string n;
        if (c.chance(1, 2))
        {
          static char const* const nasty[] = {"S_", "XS_", "S0_", "XS1_", "SS_", "XS", "S", "A3_", "E", "K", "R", "IS_E", "St", "Sa", "T_", "X_", "SZ_", "PS0_", "libcwd_type_info_exact_", "_", "A_", "A10_S", "SA_"};
          n = c.pick(nasty);
        }
        else
          n = std::string(1, "ABCXYZ"[c.draw(5)]) + std::to_string(c.draw(99));
        if (n == "_")
          n = "q_";
        while (used.count(n))
          n += "Sz_"[c.draw(2)];
        used.insert(n);
        return n;
      }
    };
    bool is_enum = false;
    std::vector<int> classes;
    auto define = [&](TP tp, bool obj, std::string const& cpp, bool local = false) {
      std::string a = "T" + std::to_string(ty.size()) + "q";
      (local ? run : prog) += "using " + a + " = " + cpp + ";\n";
      ty.push_back({tp, obj, local});
      if (obj)
        objs.push_back(ty.size() - 1);
      if (obj && tp->kind == Type::Named && !is_enum)
        classes.push_back(ty.size() - 1);
      return (int)ty.size() - 1;
    };
    auto alias = [&](int i) { return "T" + std::to_string(i) + "q"; };
    auto body = [&]() { return " { char m[" + std::to_string(1 + c.draw(300)) + "]; }"; };
    // Declarations.
    struct Tpl { std::vector<mg::Comp> path; std::string cpp; int kind; }; // kind: 0 one type, 1 two types, 2 type and int, 3 long, 4 bool, 5 char
    std::vector<Tpl> tpls;
    bool anon_used = false;
    int nd = 6 + c.draw(10);
    for (int k = 0; k < nd; ++k)
    {
      std::vector<mg::Comp> path;
      std::string pre, post, cpp = "::";
      int depth = c.weighted({4, 3, 2});
      bool anon = false;
      for (int d = 0; d < depth; ++d)
      {
        if (d == 0 && c.chance(1, 6) && !anon_used)
        {
          mg::Comp a;
          a.kind = mg::Comp::Anon;
          path.push_back(a);
          pre += "namespace { ";
          post += " }";
          anon = anon_used = true;
          continue;
        }
        std::string n = fresh();
        pre += "namespace " + n + " { ";
        post += " }";
        cpp += n + "::";
        path.push_back(ident(n));
      }
      std::string n = fresh();
      path.push_back(ident(n));
      auto named = [&](std::vector<mg::Comp> p) {
        TP t = node(Type::Named);
        t->name = std::make_shared<mg::Name>();
        t->name->comps = p;
        return t;
      };
      switch (c.weighted({4, 2, 1, 1, 5, 2}))
      {
        case 0: prog += pre + "struct " + n + body() + ";" + post + "\n"; define(named(path), true, cpp + n); break;
        case 1:
        {
          std::string in = fresh();
          prog += pre + "struct " + n + " { struct " + in + body() + "; char z[" + std::to_string(1 + c.draw(9)) + "]; };" + post + "\n";
          define(named(path), true, cpp + n);
          path.push_back(ident(in));
          define(named(path), true, cpp + n + "::" + in);
          break;
        }
        case 2: prog += pre + "struct " + n + ";" + post + "\n"; define(named(path), false, cpp + n); break;
        case 3: prog += pre + (c.coin() ? "enum " : "enum class ") + n + " : " + (c.coin() ? "char" : "long") + " { };" + post + "\n"; is_enum = true; define(named(path), true, cpp + n); is_enum = false; break;
        case 4:
        {
          static char const* const params[] = {"class A", "class A, class B", "class A, int N", "class A, long N", "bool N, class A", "class A, char N"};
          int kind = c.draw(5);
          prog += pre + "template<" + params[kind] + "> struct " + n + body() + ";" + post + "\n";
          tpls.push_back({path, cpp + n, kind});
          break;
        }
        case 5:
        {
          if (anon) { prog += pre + "union " + n + body() + ";" + post + "\n"; define(named(path), true, cpp + n); break; }
          std::string in = fresh();
          prog += pre + "template<class A> struct " + n + " { template<class B> struct " + in + body() + "; };" + post + "\n";
          tpls.push_back({path, cpp + n + "|" + in, 9});
          break;
        }
      }
    }
    int nloc = c.draw(2);
    for (int k = 0; k < nloc; ++k)
    {
      std::string n = fresh();
      run += "struct " + n + body() + ";\n";
      TP t = node(Type::Named);
      t->name = std::make_shared<mg::Name>();
      t->name->comps = {ident(n)};
      auto e = std::make_shared<mg::Encoding>();
      e->kind = mg::Encoding::Function;
      e->name = std::make_shared<mg::Name>();
      e->name->comps = {ident("run")};
      e->params = {builtin('i')};
      t->name->local = e;
      define(t, true, n, true);
    }
    for (char b : std::string("icdmbaxwefhs"))
      if (c.coin() || b == 'i')
        define(builtin(b), true, mg::builtin_text(b));
    int vd = define(builtin('v'), false, "void");
    // Combinations.
    auto any = [&]() { return (int)c.draw(ty.size() - 1); };
    auto recent = [&]() { return c.coin() ? any() : (int)(ty.size() - 1 - c.draw(std::min<size_t>(ty.size() - 1, 12))); };
    auto obj = [&]() { return objs[c.chance(1, 2) ? c.draw(objs.size() - 1) : objs.size() - 1 - c.draw(std::min<size_t>(objs.size() - 1, 8))]; };
    int n = 30 + c.small(0, 70);
    for (int k = 0; k < n; ++k)
    {
      int i = recent();
      Ty b = ty[i];
      bool loc = b.local;
      TP core = bare(b.tp);
      switch (c.weighted({6, 3, 4, 2, 4, 2, 2, 7}))
      {
        case 0:
          if (b.tp->kind == Type::Ref) continue;
          { TP t = node(Type::Ptr); t->inner = b.tp; define(t, true, alias(i) + "*", loc); }
          break;
        case 1:
          if (b.tp->kind == Type::Ref || core->code == 'v') continue;
          { TP t = node(Type::Ref); t->inner = b.tp; define(t, false, alias(i) + "&", loc); }
          break;
        case 2:
        {
          if (b.tp->kind == Type::Ref || b.tp->kind == Type::Func) continue;
          int q = c.draw(2);
          define(add_cv(b.tp, q == 0 ? "K" : q == 1 ? "V" : "VK"), false, alias(i) + (q == 0 ? " const" : q == 1 ? " volatile" : " const volatile"), loc);
          break;
        }
        case 3:
        {
          // Array of an object type or of an array of known size.
          bool okarr = core->kind == Type::Array && core->dim != "";
          if (!okarr && std::find(objs.begin(), objs.end(), i) == objs.end()) continue;
          TP t = node(Type::Array);
          bool unbounded = c.chance(1, 6);
          t->dim = unbounded ? "" : std::to_string(1 + c.draw(12));
          t->inner = b.tp;
          if (okarr && unbounded) continue;
          define(t, false, alias(i) + "[" + t->dim + "]", loc);
          break;
        }
        case 4:
        {
          // Function type; mostly a pointer to it.
          int r = c.chance(1, 3) ? vd : obj();
          TP t = node(Type::Func);
          t->inner = ty[r].tp;
          loc = ty[r].local;
          std::string cpp = alias(r) + "(";
          int np = c.small(0, 5);
          if (c.chance(1, 10)) np = 20 + c.draw(40);
          for (int p = 0; p < np; ++p)
          {
            int a = obj();
            // Also references.
            if (c.chance(1, 4))
            {
              int x = any();
              if (ty[x].tp->kind == Type::Ref)
                a = x;
            }
            t->params.push_back(ty[a].tp);
            cpp += (p ? ", " : "") + alias(a);
            loc = loc || ty[a].local;
          }
          if (np && c.chance(1, 8))
          {
            t->params.push_back(builtin('z'));
            cpp += ", ...";
          }
          cpp += ")";
          int f = define(t, false, cpp, loc);
          if (c.chance(2, 3))
          {
            TP p = node(Type::Ptr);
            p->inner = t;
            define(p, true, alias(f) + "*", loc);
          }
          break;
        }
        case 5:
        case 6:
        {
          // Pointer to member of a class.
          if (classes.empty()) continue;
          int k2 = classes[c.draw(classes.size() - 1)];
          loc = loc || ty[k2].local;
          TP t;
          std::string cpp;
          if (b.tp->kind == Type::Func)
          {
            t = node(Type::MemFun);
            t->inner = b.tp->inner;
            t->params = b.tp->params;
            int q = c.draw(2);
            t->cv = q == 0 ? "" : q == 1 ? "K" : "VK";
            cpp = q ? std::string("memf<") + alias(k2) + ", " + alias(i) + ">::" + (q == 1 ? "k" : "vk") : "mem<" + alias(k2) + ", " + alias(i) + ">";
          }
          else
          {
            if (b.tp->kind == Type::Ref || core->code == 'v' || core->dim == "0") continue;
            t = node(Type::MemPtr);
            t->inner = b.tp;
            cpp = "mem<" + alias(k2) + ", " + alias(i) + ">";
          }
          t->cls = ty[k2].tp;
          define(t, true, cpp, loc);
          break;
        }
        case 7:
        {
          if (tpls.empty()) continue;
          Tpl const& tp = tpls[c.draw(tpls.size() - 1)];
          auto ty_arg = [&](int x) { mg::Arg a; a.kind = mg::Arg::Ty; a.type = ty[x].tp; return a; };
          auto lit = [&](char code, std::string v) { mg::Arg a; a.kind = mg::Arg::Lit; a.type = builtin(code); a.value = v; return a; };
          TP t = node(Type::Named);
          t->name = std::make_shared<mg::Name>();
          t->name->comps = tp.path;
          mg::Comp& last = t->name->comps.back();
          last.hasargs = true;
          std::string cpp;
          int j = any();
          switch (tp.kind)
          {
            case 0: last.args = {ty_arg(i)}; cpp = tp.cpp + "<" + alias(i) + ">"; break;
            case 1: last.args = {ty_arg(i), ty_arg(j)}; cpp = tp.cpp + "<" + alias(i) + ", " + alias(j) + ">"; loc = loc || ty[j].local; break;
            case 2: case 3: case 5:
            {
              int v = tp.kind == 5 ? c.range(0, 127) : c.range(-70000, 70000);
              last.args = {ty_arg(i), lit("??il?c"[tp.kind], v < 0 ? "n" + std::to_string(-v) : std::to_string(v))};
              cpp = tp.cpp + "<" + alias(i) + ", " + (tp.kind == 5 ? "(char)" : "") + std::to_string(v) + ">";
              break;
            }
            case 4: { bool v = c.coin(); last.args = {lit('b', v ? "1" : "0"), ty_arg(i)}; cpp = tp.cpp + "<" + (v ? "true, " : "false, ") + alias(i) + ">"; break; }
            case 9:
            {
              size_t bar = tp.cpp.find('|');
              last.args = {ty_arg(i)};
              mg::Comp in = ident(tp.cpp.substr(bar + 1));
              in.hasargs = true;
              in.args = {ty_arg(j)};
              t->name->comps.push_back(in);
              cpp = tp.cpp.substr(0, bar) + "<" + alias(i) + ">::template " + in.id + "<" + alias(j) + ">";
              loc = loc || ty[j].local;
              break;
            }
          }
          define(t, true, cpp, loc);
          break;
        }
      }
    }
    // Queries. (Types whose manglings get enormous are left out.)
    struct Q { std::string line; };
    std::vector<std::string> qs;
    mg::Printer pr;
    std::string cal;
    int compound = 0;
    std::vector<std::string> names;
    for (size_t i = 0; i < ty.size(); ++i)
    {
      TP t = ty[i].tp, core = bare(t);
      TP target = core->kind == Type::Ref ? bare(core->inner) : core;
      bool sized = target->kind != Type::Func && target->kind != Type::Builtin || target->kind == Type::Builtin && target->code != 'v';
      if (target->kind == Type::Array && target->dim == "")
        sized = false;
      if (target->kind == Type::Named && !ty[i].obj)
      {
        // A qualified or referenced class: it may be incomplete.
        bool found = false;
        for (int o : objs)
          found = found || mg::mangle_type(ty[o].tp) == mg::mangle_type(target);
        sized = found;
      }
      if (!sized)
        continue;
      std::string man = mg::mangle_type(t), dem = pr.type(t);
      if (man.size() > 3000 || dem.size() > 6000)
        continue;
      if (t->kind != Type::Builtin && (t->kind != Type::Named || man.find('I') != man.npos))
        ++compound;
      TP s = strip(t);
      std::string sman = mg::mangle_type(s), sdem = pr.type(s);
      names.push_back(dem);
      int reps = 1 + (c.chance(1, 8) ? 1 : 0);
      for (int r = 0; r < reps; ++r)
      {
        qs.push_back("  exact<" + alias(i) + ">(" + std::to_string(i) + ", " + pbt::quote(dem) + ", " + pbt::quote(man) + ");\n");
        if (c.chance(1, 2))
          qs.push_back("  expr<" + alias(i) + ">(" + std::to_string(i) + ", " + pbt::quote(sdem) + ", " + pbt::quote(sman) + ");\n");
      }
    }
    for (size_t i = qs.size(); i > 1; --i)
      std::swap(qs[i - 1], qs[c.draw(i - 1)]);
    for (auto& q : qs)
      run += q;
    // A local alias is needed for types made of local classes, so everything that was not written to prog is in run().
    size_t at = prog.find("alignas(64)");
    prog.insert(at, "template<class C, class M> using mem = M C::*;\n"
                    "template<class C, class F> struct memf;\n"
                    "template<class C, class R, class... P> struct memf<C, R(P...)> { using k = R (C::*)(P...) const; using vk = R (C::*)(P...) const volatile; };\n"
                    "template<class C, class R, class... P> struct memf<C, R(P..., ...)> { using k = R (C::*)(P..., ...) const; using vk = R (C::*)(P..., ...) const volatile; };\n");
    prog += "void run(int) {\n" + run + "}\nint main() { unknown(); run(0); unknown(); printf(\"DONE\\n\"); }\n";
    c.note(prog.substr(strlen(head)));
    progs::TempDir dir;
    progs::write_file(dir.path + "/t.cpp", prog);
    auto cr = progs::run(progs::cat({{"g++", "-O0"}, progs::flags(), {"t.cpp", "-o", "t"}, progs::link_flags()}), dir.path, 90);
    if (cr.timed_out)
      c.discard();
    if (!cr.ok())
    {
      if (getenv("U04_DEV"))
        c.fail("dev-compile", cr.err.substr(0, 3000));
      c.label("program rejected by the compiler");
      // A change in the library that makes it fail to compile is not noticed here, so see that the prelude still compiles.
      static int ok = -1;
      if (ok < 0)
      {
        progs::write_file(dir.path + "/p.cpp", std::string(head) + "int main() { unknown(); exact<int const&>(0, \"int const&\", \"RKi\"); expr<int*>(1, \"int*\", \"Pi\"); }\n");
        ok = progs::run(progs::cat({{"g++", "-O0"}, progs::flags(), {"p.cpp", "-o", "p"}, progs::link_flags()}), dir.path, 60).ok();
      }
      c.check(ok == 1, "compile", "a simple program that uses type_info_of does not compile");
      c.discard();
    }
    auto r = progs::run({dir.path + "/t"}, dir.path, 20);
    if (r.out.find("BAD") != std::string::npos)
      c.fail("wrong", r.out.substr(r.out.find("BAD"), 3000));
    c.check(r.ok() && r.out.find("DONE") != std::string::npos, "crash", "the program ended with " + r.describe() + ": " + r.out.substr(0, 500) + r.err.substr(0, 1500));
    c.label("queries: " + std::to_string(qs.size() / 50 * 50) + "+");
    if (nloc) c.label("local classes");
    if (anon_used) c.label("anonymous namespace");
    if (compound >= 20)
      c.nontrivial(prog);
  };
  return pbt::Runner(cfg).main(argc, argv);
}
