// L01: generated programs that look up the addresses of their own calls.
#include "progs.h"
#include <elfutils/libdw.h>
#include <fcntl.h>
#include <unistd.h>
using pbt::Case;
using pbt::quote;

static std::string probe_dir;
static char const* const probe_source = R"CPP(#include "sys.h"
#include "debug.h"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <random>
#include <set>
#include <string>
#include <vector>
#include <link.h>
#include <sys/mman.h>
static bool after_main;
static std::map<int, std::set<char const*>>& found() { static auto* m = new std::map<int, std::set<char const*>>; return *m; }
// The address as in the object file.
static uintptr_t offset(char const* pc)
{
  std::pair<uintptr_t, uintptr_t> a((uintptr_t)pc, 0);
  dl_iterate_phdr([](dl_phdr_info* i, size_t, void* p) {
    auto& a = *static_cast<std::pair<uintptr_t, uintptr_t>*>(p);
    for (int k = 0; k < i->dlpi_phnum; ++k)
      if (i->dlpi_phdr[k].p_type == PT_LOAD && i->dlpi_addr + i->dlpi_phdr[k].p_vaddr <= a.first && a.first - i->dlpi_addr - i->dlpi_phdr[k].p_vaddr < i->dlpi_phdr[k].p_memsz)
        a.second = a.first - i->dlpi_addr;
    return 0;
  }, &a);
  return a.second;
}
static void show(char const* tag, int id, char const* pc)
{
  libcwd::Location l(pc);
  std::ostringstream path;
  if (l.is_known()) l.print_filepath_on(path);
  printf("%s\t%d\t%d\t%u\t%s\t%s\t%s\t%s\t%s\t%#lx\n", tag, id, (int)l.is_known(), l.is_known() ? l.line() : 0, l.is_known() ? l.file().c_str() : "-",
      l.is_known() ? path.str().c_str() : "-", l.mangled_function_name(), l.object_file() ? l.object_file()->filepath() : "-", libcwd::pc_mangled_function_name(pc), (unsigned long)offset(pc));
}
extern "C" __attribute__((noinline)) void probe(int id)
{
  char const* pc = (char const*)__builtin_return_address(0) + libcwd::builtin_return_address_offset;
  auto& s = found()[id];
  if (!s.count(pc) && s.size() > 8) return;
  s.insert(pc);
  show(after_main ? "now" : "early", id, pc);
}
extern "C" void probe_start()
{
  after_main = true;
  Debug(main_reached());
}
// Look everything up again, and any other address.
extern "C" void probe_end(int seed)
{
  std::mt19937_64 g(seed);
  struct S { std::string name; uintptr_t b, e; bool x; };
  std::vector<S> segs;
  dl_iterate_phdr([](dl_phdr_info* i, size_t, void* p) {
    for (int k = 0; k < i->dlpi_phnum; ++k)
      if (i->dlpi_phdr[k].p_type == PT_LOAD && i->dlpi_phdr[k].p_memsz)
        static_cast<std::vector<S>*>(p)->push_back({i->dlpi_name, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz, (i->dlpi_phdr[k].p_flags & PF_X) != 0});
    return 0;
  }, &segs);
  for (int n = 0; n < 1000; ++n)
  {
    uintptr_t a;
    switch (g() % 5)
    {
      case 0: a = g(); break;
      case 1: { S& s = segs[g() % segs.size()]; a = s.b + g() % (s.e - s.b); break; }
      case 2: { S& s = segs[g() % segs.size()]; uintptr_t k[] = {s.b, s.b - 1, s.e, s.e - 1}; a = k[g() % 4]; break; }
      case 3: a = (uintptr_t)malloc(g() % 100); break;
      default: { auto i = found().begin(); std::advance(i, g() % found().size()); a = (uintptr_t)*i->second.begin() + g() % 64 - 32; break; }
    }
    libcwd::Location l((void*)a);
    S const* in = nullptr;
    for (auto& s : segs) if (s.b <= a && a < s.e) in = &s;
    bool ok = in ? l.object_file() && (in->name.empty() || in->name == l.object_file()->filepath())
                 : !l.object_file() && !l.is_known() && l.unknown_pc() == (void*)a && !strcmp(l.mangled_function_name(), "<unknown function>");
    if (!ok) printf("bad\t%p in %s: %s %s\n", (void*)a, in ? in->name.c_str() : "nothing", l.object_file() ? l.object_file()->filepath() : "-", l.mangled_function_name());
    if (in && in->x) show("any", 0, (char const*)a);
  }
  auto copy = found();
  for (auto& [id, s] : copy)
    for (char const* pc : s) show("end", id, pc);
  printf("done\n");
}
)CPP";

// What another reader of the debug information finds, the innermost inlined function first.
struct Frame { std::string function, file; std::string line; };
static std::vector<std::vector<Frame>> second_opinion(std::vector<std::pair<std::string, std::string>> const& q, std::string const& dir)
{
  std::string in;
  for (auto& [f, a] : q) in += "\"" + f + "\" " + a + "\n";
  progs::write_file(dir + "/q", in);
  auto r = progs::run({"bash", "-c", "llvm-symbolizer --functions=linkage --inlines --no-demangle < q"}, dir, 60);
  std::vector<std::vector<Frame>> res;
  std::istringstream is(r.out);
  std::vector<std::string> ls;
  std::string l;
  while (std::getline(is, l))
  {
    if (!l.empty()) { ls.push_back(l); continue; }
    res.emplace_back();
    for (size_t i = 0; i + 1 < ls.size(); i += 2)
    {
      size_t c2 = ls[i + 1].rfind(':'), c1 = ls[i + 1].rfind(':', c2 - 1);
      if (c2 == std::string::npos || c1 == std::string::npos) continue;
      res.back().push_back({ls[i], ls[i + 1].substr(0, c1), ls[i + 1].substr(c1 + 1, c2 - c1 - 1)});
    }
    ls.clear();
  }
  res.resize(q.size());
  return res;
}
// The library that libcwd reads debug information with, used directly. Where two sequences of a line table
// touch it can find the line of the wrong one.
// A library that was compiled by clang takes, for code without a line, the line of what comes next in the same function, if that is near.
static bool next_line([[maybe_unused]] std::string const& file, [[maybe_unused]] unsigned long addr, [[maybe_unused]] std::string const& line, [[maybe_unused]] std::string const& dir)
{
#ifdef __clang__
  std::vector<std::pair<std::string, std::string>> q;
  for (int skip = 4; skip <= 8; ++skip)
  {
    std::ostringstream o;
    o << "0x" << std::hex << addr + skip;
    q.emplace_back(file, o.str());
  }
  for (auto& f : second_opinion(q, dir))
    if (!f.empty() && f[0].line == line) return true;
#endif
  return false;
}
static bool library_finds(std::string const& file, unsigned long addr, std::string const& path, std::string const& line)
{
  int fd = open(file.c_str(), O_RDONLY);
  Dwarf* dw = fd < 0 ? nullptr : dwarf_begin(fd, DWARF_C_READ);
  bool found = false;
  Dwarf_CU* cu = nullptr;
  Dwarf_Die die;
  while (dw && dwarf_get_units(dw, cu, &cu, nullptr, nullptr, &die, nullptr) == 0)
  {
    if (dwarf_haspc(&die, addr) != 1) continue;
    Dwarf_Line* l = dwarf_getsrc_die(&die, addr);
    int n = 0;
    if (!l || dwarf_lineno(l, &n) || std::to_string(n) != line) continue;
    char const* src = dwarf_linesrc(l, nullptr, nullptr);
    std::string sp = src ? src : "-";
    found |= path.size() >= sp.size() && path.substr(path.size() - sp.size()) == sp;
  }
  if (dw) dwarf_end(dw);
  if (fd >= 0) close(fd);
  return found;
}
// The name in the debug information against that of the second opinion, which has the suffix of a clone
// and prefers the symbol table, where constructors and destructors exist in several variants.
static bool same_function(std::string a, std::string b)
{
  if (a == "operator()") return b == a || b.find("cl") != std::string::npos;
  for (std::string* s : {&a, &b})
    for (size_t i = 0; i + 2 < s->size(); ++i)
      if (((*s)[i] == 'C' || (*s)[i] == 'D') && isdigit((*s)[i + 1]) && (*s)[i + 2] == 'E') (*s)[i + 1] = '1';
  return b.find(a) != std::string::npos;
}
static bool known_finding(std::string const& key)
{
  char const* k = getenv("VP_KNOWN");
  return k && ("," + std::string(k) + ",").find("," + key + ",") != std::string::npos;
}
static std::string describe(std::vector<Frame> const& v)
{
  std::string s;
  for (auto& f : v) s += " " + f.function + " at " + f.file + ":" + f.line;
  return s;
}

struct Site
{
  std::string file;               // As in the line directive or the name given to the compiler.
  unsigned line;
  std::set<std::string> functions;
  std::string prefix;             // A function that starts with this is right too.
  std::string machine;            // Name of the function without debug information.
  int object;
  bool early = false;
  bool exported = true;
  bool debug = true;
  std::string context;
};

struct Gen
{
  Case& c;
  std::vector<Site> sites;
  struct File { std::string name, text, cur; unsigned line = 1; };
  struct Unit { File f; bool lang_c = false; std::vector<std::string> flags; std::string cc; int object; std::vector<std::string> calls; };
  File* f = nullptr;
  int object = 0;
  int names = 0;
  bool lang_c = false, debug = true;
  std::string cur_names_prefix;
  std::set<std::string> fn;       // Names of the function that is being written.
  std::string fn_prefix, machine;
  bool exported = true, early = false;
  std::set<std::string> shapes;
  explicit Gen(Case& c) : c(c) { }

  void out(std::string const& s)
  {
    f->text += s + "\n";
    f->line += 1 + std::count(s.begin(), s.end(), '\n');
  }
  void directive()
  {
    static char const* const files[] = {"/usr/include/some thing.h", "gen/table.y", "x.def", "../up/y.inl", "/zz/z.c", "src/deep/er/w.hpp", "\xc3\xa9t\xc3\xa9.cc"};
    unsigned n = c.coin() ? 1 + c.draw(300) : 1 + c.draw(100000);
    std::string name = c.chance(1, 4) ? f->cur : c.pick(files);
    f->text += "#line " + std::to_string(n) + " \"" + name + "\"\n";
    f->line = n;
    f->cur = name;
  }
  // A statement that calls probe.
  std::string site(std::string const& context, int extra_lines = 0)
  {
    int id = sites.size();
    sites.push_back({f->cur, f->line + extra_lines, fn, fn_prefix, machine, object, early, exported, debug, context});
    std::string i = std::to_string(id);
    return "probe(" + i + "); sink = " + i + ";";
  }
  void stmt(int depth = 0)
  {
    if (c.chance(1, 8)) directive();
    if (c.chance(1, 6)) out("");
    if (c.chance(1, 8)) out("  sink = sink + 1; // " + std::string(c.draw(40), '.'));
    int k = c.weighted({6, 2, 2, 2, 2, lang_c ? 0 : 3, 2, 2, lang_c ? 0 : 3, lang_c ? 0 : 2, 2, depth < 2 ? 2 : 0, 2, 1});
    auto with = [&](std::set<std::string> const& n, std::string const& prefix, std::string const& m, std::function<void()> body) {
      auto s = fn; auto p = fn_prefix; auto mm = machine; bool e = exported;
      fn = n; fn_prefix = prefix; machine = m; exported = false;
      body();
      fn = s; fn_prefix = p; machine = mm; exported = e;
    };
    static char const* const kinds[] = {"plain", "if", "for", "switch", "do", "catch", "ternary", "statement expression", "lambda", "local class", "macro", "block", "several lines", "goto"};
    shapes.insert(kinds[k]);
    switch (k)
    {
      case 0: out("  " + site("plain")); break;
      case 1: out("  if (sink != -1)"); out("  {"); out("    " + site("if")); out("  } else sink = 3;"); break;
      case 2: out("  for (int i = 0; i < " + std::to_string(1 + c.draw(3)) + "; ++i)"); out("  {"); out("    " + site("for")); out("  }"); break;
      case 3: out("  switch (sink & 1)"); out("  {"); out("    case 0: sink = 2;"); out("    default: " + site("switch") + " break;"); out("  }"); break;
      case 4: out("  do {"); out("    " + site("do")); out("  }"); out("  while (sink == -1);"); break;
      case 5: out("  try {"); out("    if (sink != -1) throw 1;"); out("  } catch (int) {"); out("    " + site("catch")); out("  }"); break;
      case 6:
      {
        std::string s = site("ternary"); // probe(N); sink = N;
        std::string n = std::to_string(sites.size() - 1);
        out("  sink != -1 ? (probe(" + n + "), sink = " + n + ") : (sink = 4);");
        break;
      }
      case 7: out("  sink = ({ int k = sink; " + site("statement expression") + " k; });"); break;
      case 8:
        with({"operator()"}, "_ZZ", "", [&] {
          out("  auto l" + std::to_string(names) + " = [](int x)" + (c.coin() ? std::string(" -> int") : std::string()) + " {");
          out("    " + site("lambda"));
          out("    return x;");
          out("  };");
          out("  sink = l" + std::to_string(names++) + "(3);");
        });
        break;
      case 9:
      {
        std::string n = "Local" + std::to_string(names), m = "m" + std::to_string(names++);
        with({m}, "_ZZ", "", [&] {
          out("  struct " + n + " { static int " + m + "(int x)");
          out("  {");
          out("    " + site("local class"));
          out("    return x;");
          out("  } };");
          out("  sink = " + n + "::" + m + "(3);");
        });
        break;
      }
      case 10:
      {
        std::string n = "M" + std::to_string(names++);
        out("#define " + n + "(x) do { probe(x); \\\n  sink = x; } while (0)");
        site("macro");
        out("  " + n + "(" + std::to_string(sites.size() - 1) + ");");
        out("#undef " + n);
        break;
      }
      case 11:
        out("  {");
        out("    int volatile v" + std::to_string(names) + " = 3; sink = v" + std::to_string(names) + ";");
        ++names;
        stmt(depth + 1);
        out("  }");
        break;
      case 12:
      {
        site("several lines");
        std::string n = std::to_string(sites.size() - 1);
        out("  probe(\n    " + n + "\n  );\n  sink = " + n + ";");
        break;
      }
      case 13:
        out("  goto g" + std::to_string(names) + ";");
        out("  sink = 9;");
        out("g" + std::to_string(names++) + ":");
        out("  " + site("label"));
        break;
    }
  }
  void body()
  {
    int n = 1 + c.draw(2);
    for (int i = 0; i < n; ++i) stmt();
  }
  static std::string len(std::string const& s) { return std::to_string(s.size()) + s; }
  // Write a function; returns an expression that calls it.
  std::string function(std::vector<std::string> const& others, std::string const& pre)
  {
    std::string n = pre + "f" + std::to_string(names++), cls = pre + "C" + std::to_string(names++), ns = pre + "n" + std::to_string(names++);
    static char const* const attrs[] = {"", "__attribute__((noinline)) ", "__attribute__((cold)) ", "__attribute__((noinline, section(\".text.special\"))) ", "__attribute__((hot)) ", "__attribute__((flatten)) "};
    std::string attr = c.pick(attrs);
    if (!debug) attr = "__attribute__((noinline)) ";
    if (attr.find("section") != std::string::npos) attr = "__attribute__((noinline, section(\".text.special" + std::to_string(names++) + "\"))) "; // GCC gives an error if inline and other functions share it.
    exported = true;
    fn_prefix = "";
    auto write = [&](std::string const& head, std::set<std::string> const& names, std::string const& tail = "}") {
      fn = names;
      machine = *names.begin();
      out(head);
      out("{");
      if (!others.empty() && c.chance(1, 2)) out("  " + c.pick(others) + ";");
      body();
      out(tail);
    };
    int k = lang_c ? c.draw(2) : c.weighted({3, 3, 3, 3, 3, 3, 3, 2, 2, 3, 3, 3, 2});
    static char const* const kinds[] = {"C function", "static", "static inline", "free", "namespace", "anonymous namespace", "member", "constructor", "destructor", "template", "class template", "inline", "operator()"};
    shapes.insert(lang_c ? "C" : kinds[k]);
    std::string ai = debug && c.coin() ? "__attribute__((always_inline)) inline " : "inline " + attr;
    if (ai == "inline __attribute__((flatten)) ") ai = "inline ";
    switch (k)
    {
      case 0: write((lang_c ? "" : "extern \"C\" ") + attr + "void " + n + "(int a)", {n}); return n + "(1)";
      case 1: exported = false; write("static " + attr + "void " + n + "(int a)", lang_c ? std::set<std::string>{n} : std::set<std::string>{"_ZL" + len(n) + "i", n}); return n + "(1)";
      case 2: exported = false; write("static " + ai + "void " + n + "(int a)", lang_c ? std::set<std::string>{n} : std::set<std::string>{"_ZL" + len(n) + "i", n}); return n + "(1)";
      case 3: write(attr + "void " + n + "(int a)", {"_Z" + len(n) + "i"}); return n + "(1)";
      case 4: out("namespace " + ns + " {"); write(attr + "void " + n + "(int a)", {"_ZN" + len(ns) + len(n) + "Ei"}); out("}"); return ns + "::" + n + "(1)";
      case 5: exported = false; out("namespace {"); write(attr + "void " + n + "(int a)", {"_ZN12_GLOBAL__N_1" + len(n) + "Ei", n}); out("}"); return n + "(1)";
      case 6:
      {
        bool cst = c.coin(), in = c.coin();
        std::set<std::string> nm{std::string("_ZN") + (cst ? "K" : "") + len(cls) + len(n) + "Ei"};
        if (in)
        {
          out("struct " + cls + " {");
          write((debug ? "" : attr) + "void " + n + "(int a)" + (cst ? " const" : ""), nm);
          out("};");
        }
        else
        {
          out("struct " + cls + " { void " + n + "(int a)" + (cst ? " const" : "") + "; };");
          write(attr + "void " + cls + "::" + n + "(int a)" + (cst ? " const" : ""), nm);
        }
        return cls + "()." + n + "(1)";
      }
      case 7: out("struct " + cls + " { " + cls + "(int); int x; };"); write(attr + cls + "::" + cls + "(int a) : x(a)", {"_ZN" + len(cls) + "C1Ei", "_ZN" + len(cls) + "C2Ei", "_ZN" + len(cls) + "C4Ei"}); return cls + "(1)";
      case 8: out("struct " + cls + " { ~" + cls + "(); int x; };"); write(attr + cls + "::~" + cls + "()", {"_ZN" + len(cls) + "D1Ev", "_ZN" + len(cls) + "D2Ev", "_ZN" + len(cls) + "D4Ev"}); return cls + "{1}";
      case 9: { std::string N = std::to_string(c.draw(9)); write("template<int N> " + attr + "void " + n + "(int a)", {"_Z" + len(n) + "ILi" + N + "EEvi"}); return n + "<" + N + ">(1)"; }
      case 10: out("template<class T> struct " + cls + " {"); write((debug ? "" : attr) + "static void " + n + "(T a)", {"_ZN" + len(cls) + "IiE" + len(n) + "Ei"}); out("};"); return cls + "<int>::" + n + "(1)";
      case 11: write(ai + "void " + n + "(int a)", {"_Z" + len(n) + "i"}); return n + "(1)";
      default: out("struct " + cls + " {"); write((debug ? "" : attr) + "void operator()(int a) const", {"_ZNK" + len(cls) + "clEi"}); out("};"); return cls + "()(1)";
    }
  }
};

int main(int argc, char** argv)
{
  progs::TempDir probe_tmp;
  probe_dir = probe_tmp.path;
  progs::write_file(probe_dir + "/probe.cpp", probe_source);
  auto pr = progs::run(progs::cat({{"g++", "-g", "-O1", "-fPIC", "-shared"}, progs::flags(), {"probe.cpp", "-o", "libprobe.so"}, progs::link_flags()}), probe_dir, 120);
  if (access((probe_dir + "/libprobe.so").c_str(), R_OK)) { fprintf(stderr, "%s\n", pr.err.c_str()); return 2; }
  pbt::Config cfg;
  cfg.property = "L01";
  cfg.fork_per_case = false;
  cfg.quick_cases = 160;
  cfg.thorough_cases = 20000;
  cfg.case_timeout = 180;
  cfg.rule = "a program of at least two object files with debug information, with at least 15 call sites in at least 8 kinds of functions and statements";
  cfg.body = [](Case& c) {
    Gen g(c);
    progs::TempDir dir;
    std::string D = dir.path;
    mkdir((D + "/src").c_str(), 0755);
    int nobj = 1 + c.draw(2); // Object 0 is the program.
    struct Obj { std::string path; bool debug, symbols, old_ranges = false; std::vector<std::string> objs, runs; std::string post, ld; };
    std::vector<Obj> objs(nobj);
    std::string description, cmds = "set -e\n";
    bool pie = c.chance(3, 4);
    int units = 0, with_debug = 0;
    std::string main_decl, main_calls;
    for (int o = nobj - 1; o >= 0; --o)
    {
      Obj& ob = objs[o];
      ob.path = D + (o ? "/lib" + std::to_string(o) + ".so" : std::string("/prog"));
      static char const* const posts[] = {"", "", "", "separate", "separate-subdir", "separate-strip", "compressed", "strip-debug", "strip-all"};
      ob.post = c.pick(posts);
      ob.debug = ob.post.substr(0, 5) != "strip" ? c.chance(9, 10) : false;
      ob.symbols = ob.post != "strip-all" && ob.post != "separate-strip";
      with_debug += ob.debug;
      bool lto = ob.debug && c.chance(1, 8);
      int nu = 1 + c.draw(2);
      g.object = o;
      g.debug = ob.debug;
      Gen::File header;
      header.name = "src/h" + std::to_string(o) + ".h";
      bool use_header = c.coin();
      std::vector<std::string> header_calls;
      header.cur = header.name.substr(4); // Included relative to the directory of the source file; see below.
      g.lang_c = false;
      if (use_header)
      {
        g.f = &header;
        g.out("#pragma once");
        int n = 1 + c.draw(2);
        for (int i = 0; i < n; ++i)
        {
          // Only functions that can be defined in every unit.
          std::string name = "h" + std::to_string(o) + "_" + std::to_string(g.names++);
          bool tmpl = c.coin();
          bool ai = ob.debug && c.coin();
          g.fn = {tmpl ? "_Z" + Gen::len(name) + "IiEvT_" : "_Z" + Gen::len(name) + "i"};
          g.machine = *g.fn.begin();
          g.exported = true;
          g.fn_prefix = "";
          g.out((tmpl ? "template<class T> " : "") + std::string(ai ? "__attribute__((always_inline)) " : ob.debug ? "" : "__attribute__((noinline)) ") + "inline void " + name + (tmpl ? "(T a)" : "(int a)"));
          g.out("{");
          if (c.chance(1, 6))
          {
            // The linker discards all but one copy of this.
            g.shapes.insert("big");
            for (int n = 30 << c.draw(6), i = 0; i < n; ++i) g.out("  sink = sink * " + std::to_string(i + 3) + " + 1; sink = sink ^ " + std::to_string(i) + ";");
          }
          g.body();
          g.out("}");
          header_calls.push_back(name + "(1)");
        }
        progs::write_file(D + "/" + header.name, "");
      }
      for (int u = 0; u < nu; ++u)
      {
        bool lang_c = c.chance(1, 6);
        Gen::File file;
        bool clang = !lto && c.chance(1, 3);
        bool unit_debug = ob.debug && (lto || u == 0 || c.chance(4, 5));
        g.debug = unit_debug;
        if (ob.debug && !unit_debug) g.shapes.insert("mixed");
        bool use_header_here = use_header && !lang_c && unit_debug == ob.debug;
        static char const* const opts[] = {"-O0", "-O1", "-O2", "-O2", "-O3", "-Os", "-Og"};
        std::string opt = unit_debug ? c.pick(opts) : "-O0";
        static char const* const dbgs[] = {"-g", "-g", "-g3", "-gdwarf-4", "-gdwarf-5", "-ggdb", "-g -gz", "-g -fdebug-types-section", "-g -gno-column-info", "-g -fno-eliminate-unused-debug-types", "-g -ffunction-sections", "-g -gdwarf-3", "-g -gdwarf-2"};
        std::string dbg = unit_debug ? c.pick(dbgs) : "";
        if (clang && dbg == "-g -fno-eliminate-unused-debug-types") dbg = "-g";
        if (!clang && opt != "-O0" && dbg.find("-gdwarf-") != std::string::npos && dbg.find("-gdwarf-5") == std::string::npos) ob.old_ranges = true;
        bool absolute = c.chance(1, 3);
        std::string rel = "src/u" + std::to_string(units) + (lang_c ? ".c" : ".cpp");
        file.name = rel;
        file.cur = absolute ? D + "/" + rel : rel;
        g.f = &file;
        g.lang_c = lang_c;
        std::string run = "run" + std::to_string(units);
        g.out(lang_c ? "void probe(int);" : "extern \"C\" void probe(int);");
        g.out("static volatile int sink;");
        if (use_header_here) g.out("#include \"h" + std::to_string(o) + ".h\"");
        std::vector<std::string> calls;
        if (use_header_here) calls = header_calls;
        int nf = 1 + c.small(2, 6);
        std::string pre = "o" + std::to_string(o) + "u" + std::to_string(units) + "_";
        for (int k = 0; k < nf; ++k)
          calls.push_back(g.function(calls, pre));
        if (!lang_c && c.chance(1, 3))
        {
          // Before main, and after it.
          g.early = true;
          g.exported = true;
          std::string n = pre + "early";
          g.fn = {"_Z" + Gen::len(n) + "v"};
          g.machine = *g.fn.begin();
          g.fn_prefix = "";
          g.out("__attribute__((noinline)) int " + n + "()");
          g.out("{");
          g.out("  " + g.site("early"));
          g.out("  return 0;");
          g.out("}");
          g.early = false;
          g.out("static int " + pre + "global = " + n + "();");
        }
        g.exported = true;
        g.fn = {run};
        g.machine = run;
        g.fn_prefix = "";
        g.out(std::string(lang_c ? "" : "extern \"C\" ") + "__attribute__((noinline)) void " + run + "(void)");
        g.out("{");
        for (auto& s : calls) g.out("  " + s + ";");
        g.out("  " + g.site("run"));
        g.out("}");
        progs::write_file(D + "/" + rel, file.text);
        std::string cc = clang ? (lang_c ? "clang" : "clang++") : (lang_c ? "gcc" : "g++");
        std::string obj = "u" + std::to_string(units) + ".o";
        cmds += cc + " -w " + opt + " " + dbg + (lto ? " -flto" : "") + (o ? " -fPIC" : pie ? " -fPIE" : " -fno-pie") + " -c " + (absolute ? D + "/" : "") + rel + " -o " + obj + " &\n";
        description += "// " + rel + " of object " + std::to_string(o) + ": " + cc + " " + opt + " " + dbg + (lto ? " -flto" : "") + "\n" + file.text;
        ob.objs.push_back(obj);
        main_decl += "extern \"C\" void " + run + "();\n";
        main_calls += "  " + run + "();\n";
        ++units;
      }
      if (use_header) progs::write_file(D + "/" + header.name, header.text), description += "// " + header.name + "\n" + header.text;
      static char const* const lds[] = {"", "", " -fuse-ld=gold", " -fuse-ld=lld", " -Wl,--gc-sections", " -Wl,-O1,--sort-common", " -Wl,-z,noseparate-code", " -Wl,--hash-style=gnu", " -Wl,--build-id"};
      ob.ld = c.pick(lds) + std::string(lto ? " -flto -O2" : "");
      if (lto && ob.ld.find("-fuse") != std::string::npos) ob.ld = " -flto -O2";
      description += "// object " + std::to_string(o) + ": " + ob.ld + " " + ob.post + (ob.debug ? "" : " (no debug information)") + (o || pie ? "" : " -no-pie") + "\n";
    }
    progs::write_file(D + "/main.cpp", main_decl + "extern \"C\" void probe_start();\nextern \"C\" void probe_end(int);\nint main()\n{\n  probe_start();\n" + main_calls + "  probe_end(" + std::to_string(c.draw(1000)) + ");\n}\n");
    cmds += std::string("g++ -w ") + (objs[0].debug ? "-g " : "") + (pie ? "-fPIE" : "-fno-pie") + " -c main.cpp -o main.o\nwait\n";
    std::string L = " -L" + probe_dir + " -lprobe -Wl,-rpath," + probe_dir;
    for (auto& s : progs::link_flags()) L += " " + s;
    for (int o = nobj - 1; o >= 0; --o)
    {
      Obj& ob = objs[o];
      cmds += "g++" + std::string(o ? " -shared -fPIC" : pie ? " -pie" : " -no-pie") + ob.ld;
      if (c.coin()) std::reverse(ob.objs.begin(), ob.objs.end());
      for (auto& x : ob.objs) cmds += " " + x;
      if (!o)
      {
        cmds += " main.o";
        for (int k = 1; k < nobj; ++k) cmds += " lib" + std::to_string(k) + ".so";
        cmds += " -Wl,-rpath," + D;
      }
      std::string p = ob.path, b = p.substr(p.rfind('/') + 1);
      cmds += " -o " + p + L + "\n";
      if (ob.post.substr(0, 8) == "separate")
      {
        std::string at = ob.post == "separate-subdir" ? ".debug/" : "";
        cmds += "mkdir -p .debug\nobjcopy --only-keep-debug " + b + " " + at + b + ".debug\n" + (ob.symbols ? "objcopy -g " : "strip ") + b + "\n(cd ./" + at + " && objcopy --add-gnu-debuglink=" + b + ".debug " + p + ")\n";
      }
      else if (ob.post == "compressed") cmds += "objcopy --compress-debug-sections=zlib " + b + "\n";
      else if (ob.post == "strip-debug") cmds += "strip -g " + b + "\n";
      else if (ob.post == "strip-all") cmds += "strip " + b + "\n";
    }
    c.note(description + "\n" + cmds);
    auto cr = progs::run({"bash", "-c", cmds}, D, 150);
    if (cr.timed_out) c.discard();
    if (!cr.ok()) c.fail("compile", "the program can not be built: " + cr.err.substr(0, 3000));
    auto r = progs::run({D + "/prog"}, D, 60);
    c.check(r.ok(), "run", "the program ended with " + r.describe() + ": " + (r.err + r.out).substr(0, 2000));
    auto debug_file = [&](Obj const& ob) {
      std::string b = ob.path.substr(ob.path.rfind('/') + 1) + ".debug";
      return ob.post == "separate" || ob.post == "separate-strip" ? D + "/" + b : ob.post == "separate-subdir" ? D + "/.debug/" + b : ob.path;
    };
    std::vector<std::vector<std::string>> any;
    std::istringstream in(r.out);
    std::string l;
    bool done = false;
    std::set<int> seen;
    while (std::getline(in, l))
    {
      if (l == "done") { done = true; continue; }
      c.check(l.substr(0, 3) != "bad", "any", "the lookup of an arbitrary address is wrong: " + l);
      std::vector<std::string> w;
      std::istringstream ls(l);
      std::string t;
      while (std::getline(ls, t, '\t')) w.push_back(t);
      if (w.size() != 10) c.fail("output", "the program wrote " + quote(l));
      if (w[0] == "any") { any.push_back(w); continue; }
      int id = atoi(w[1].c_str());
      if (id < 0 || id >= (int)g.sites.size()) c.fail("output", "the program wrote " + quote(l));
      Site const& s = g.sites[id];
      Obj const& ob = objs[s.object];
      seen.insert(id);
      bool early = w[0] == "early";
      std::string where = "probe(" + std::to_string(id) + ") of " + s.context + " in " + *s.functions.begin() + " (" + (early ? "before main" : w[0]) + "): ";
      bool known = w[2] == "1";
      c.check(w[7] == ob.path, "object", where + "the object file is " + w[7] + " instead of " + ob.path);
      c.check(known == (s.debug && !early), "known", where + (known ? "the source position is known" : "the source position is not known"));
      if (known)
      {
        std::vector<Frame> o;
        // A compiler can get it wrong; then another reader agrees with the result.
        auto compiler = [&] {
          o = second_opinion({{debug_file(ob), w[9]}}, D)[0];
          c.label("second opinion");
          return !o.empty();
        };
        // Known: libdw mixes the lines of a function that the linker discarded, which is then at address zero, with those of real code.
        if (std::to_string(s.line) != w[3] && g.shapes.count("big") && known_finding("discarded-line-sequence") &&
            library_finds(debug_file(ob), strtoul(w[9].c_str(), nullptr, 16), w[5], w[3]))
        {
          c.label("known:discarded-line-sequence");
          continue;
        }
        c.check(std::to_string(s.line) == w[3] || (compiler() && (o[0].line == w[3] || (o[0].line == "0" && next_line(debug_file(ob), strtoul(w[9].c_str(), nullptr, 16), w[3], D)))), "line", where + "the line is " + w[3] + " instead of " + std::to_string(s.line));
        std::string base = s.file.substr(s.file.rfind('/') + 1);
        c.check(base == w[4], "file", where + "the file is " + w[4] + " instead of " + base);
        // Relative names are relative to the directory the compiler ran in, or that of the file that includes it.
        bool ok = s.file[0] == '/' ? w[5] == s.file : w[5].size() > s.file.size() && w[5].substr(w[5].size() - s.file.size() - 1) == "/" + s.file && w[5].substr(0, D.size() + 1) == D + "/";
        c.check(ok, "path", where + "the path is " + w[5] + " instead of " + s.file);
        bool fn = s.functions.count(w[6]) || (!s.prefix.empty() && w[6].substr(0, s.prefix.size()) == s.prefix);
        // Before DWARF 5 an empty range at address zero of an object file, which GCC generates, hides the rest of the ranges of an inlined function.
        if (!fn && ob.old_ranges && w[6] == w[8]) c.label("hidden ranges"), fn = true;
        if (!fn) fn = compiler() && same_function(w[6], o[0].function);
        c.check(fn, "function", where + "the function is " + w[6] + " (" + describe(o) + ")");
      }
      else if (early && s.debug) // Only the names of the symbol table are used; the function can be part of another one.
        ;
      else
      {
        bool fn = s.functions.count(w[6]) || (!s.prefix.empty() && w[6].substr(0, s.prefix.size()) == s.prefix) || (w[6] == "<unknown function>" && !ob.symbols && (!s.exported || s.object == 0));
        c.check(fn, "function", where + "the function is " + w[6]);
      }
    }
    c.check(done, "output", "the program did not end normally");
    std::vector<std::pair<std::string, std::string>> q;
    std::vector<std::vector<std::string>> ws;
    std::vector<bool> old;
    for (auto& w : any)
      for (auto& ob : objs)
        if (w[7] == ob.path && ob.debug && !g.shapes.count("big") && strtoul(w[9].c_str(), nullptr, 16) > 0x400) { // Discarded functions confuse the other reader.
          q.emplace_back(debug_file(ob), w[9]); ws.push_back(w); old.push_back(ob.old_ranges); }
    auto o = second_opinion(q, D);
    int compared = 0;
    for (size_t i = 0; i < q.size(); ++i)
    {
      std::vector<Frame> const& f = o[i];
      bool known = ws[i][2] == "1";
      std::string where = "address " + q[i].second + " in " + ws[i][7] + ": ";
      if (!known) // Only addresses outside of all functions are not known.
        c.check(f.empty() || f[0].function == "??" || f[0].line == "0", "differential", where + "the source position is not known, but it is" + describe(f));
      else
        c.check(!f.empty() && (same_function(ws[i][6], f[0].function) || (old[i] && ws[i][6] == ws[i][8])) && ((f[0].line == ws[i][3] && f[0].file == ws[i][5]) || (f[0].line == "0" && f[0].file == ws[i][5] && next_line(q[i].first, strtoul(q[i].second.c_str(), nullptr, 16), ws[i][3], D)) || library_finds(q[i].first, strtoul(q[i].second.c_str(), nullptr, 16), ws[i][5], ws[i][3])), "differential",
            where + "found " + ws[i][6] + " at " + ws[i][5] + ":" + ws[i][3] + " instead of" + describe(f));
      // The machine code belongs to the outermost function.
      if (known && !f.empty())
        c.check(same_function(ws[i][8], f.back().function), "physical", where + "pc_mangled_function_name gives " + ws[i][8] + " for" + describe(f));
      compared += known;
    }
    if (compared > 20) c.label("differential");
    if (with_debug >= 2 && seen.size() >= 15 && g.shapes.size() >= 8) c.nontrivial(description);
    for (auto& s : g.shapes) c.label(s);
  };
  return pbt::Runner(cfg).main(argc, argv);
}
