// U07: the utilities when several threads use them at the same time.
#include "demangle_common.h"
#include <libcwd/type_info.h>
#include <libcwd/strerrno.h>
#include <libcwd/char2str.h>
#include <libcwd/buf2str.h>
#include <atomic>
#include <sstream>
#include <thread>

namespace pool {
template <int I> struct X { char a[I + 1]; };
}
using libcwd::TypeInfo;

// What is asked, and the right answer.
struct Query
{
  TypeInfo const& (*ask)();
  std::string name;
  size_t size, ref;
};
template <int I> static TypeInfo const& q0() { return libcwd::type_info_of<pool::X<I>>(); }
template <int I> static TypeInfo const& q1() { return libcwd::type_info_of<pool::X<I>*>(); }
template <int I> static TypeInfo const& q2() { return libcwd::type_info_of<pool::X<I> const&>(); }
template <int I> static TypeInfo const& q3() { pool::X<I> x; return libcwd::type_info_of(x); }
template <int I> static TypeInfo const& q4() { pool::X<I>* x = nullptr; return libcwd::type_info_of(x); }
template <int I> static TypeInfo const& q5() { return libcwd::type_info_of<pool::X<I>* const>(); }
static TypeInfo const& v0() { return libcwd::type_info_of<void*>(); }
static TypeInfo const& v1() { void* p = nullptr; return libcwd::type_info_of(p); }
static TypeInfo const& v2() { return libcwd::unknown_type_info_c; }

template <int... I> static std::vector<Query> queries(std::integer_sequence<int, I...>)
{
  std::vector<Query> r{{v0, "void*", sizeof(void*), 0}, {v1, "void*", sizeof(void*), 0}, {v2, "<unknown type>", 0, 0}};
  auto add = [&](int i, auto a, auto b, auto c, auto d, auto e, auto f) {
    std::string n = "pool::X<" + std::to_string(i) + ">";
    size_t s = i + 1, p = sizeof(void*);
    for (auto& q : {Query{a, n, s, 0}, Query{b, n + "*", p, s}, Query{c, n + " const&", s, 0}, Query{d, n, s, 0}, Query{e, n + "*", p, s}, Query{f, n + "* const", p, s}})
      r.push_back(q);
  };
  (add(I, q0<I>, q1<I>, q2<I>, q3<I>, q4<I>, q5<I>), ...);
  return r;
}

struct Op
{
  int kind;       // 0: type, 1: symbol, 2: mangled type, 3: error, 4: buffer, 5: character
  int n = 0;
  std::string in;
  int delay = 0;
};

int main(int argc, char** argv)
{
  pbt::Config cfg;
  cfg.property = "U07";
  cfg.quick_cases = 8000;
  cfg.thorough_cases = 400000;
  cfg.fork_per_case = true;
  cfg.nondeterministic = true;
  cfg.case_timeout = 30;
  cfg.workers = 4;
  cfg.rule = "2 to 6 threads that ask for type information (also of the same type, for the first time), demangle, escape and look up error names at the "
             "same time. Non-trivial: at least two threads ask for the first time for the same type";
  static std::vector<Query> const q = queries(std::make_integer_sequence<int, 12>());
  cfg.body = [](pbt::Case& c) {
    int nt = 2 + c.draw(4);
    std::vector<std::vector<Op>> script(nt);
    int few = c.coin() ? 4 : q.size() - 1, first = c.draw(q.size() - 1);
    std::map<int, std::set<int>> asked;
    for (int t = 0; t < nt; ++t)
      for (int k = 1 + c.small(0, 12); k > 0; --k)
      {
        Op o{c.weighted({8, 2, 2, 1, 1, 1})};
        switch (o.kind)
        {
          case 0: o.n = (first + c.draw(few)) % q.size(); asked[o.n].insert(t); break;
          case 1: { mg::Gen g(c); o.in = mg::mangle_symbol(g.symbol()); break; }
          case 2: { mg::Gen g(c); o.in = mg::mangle_type(g.type(0)); break; }
          case 3: o.n = c.draw(140); break;
          case 4: for (int i = c.small(0, 20); i > 0; --i) o.in += (char)c.draw(255); break;
          case 5: o.n = c.draw(255); break;
        }
        if (c.chance(1, 6)) o.delay = c.small(0, 400);
        script[t].push_back(o);
      }
    bool alone_first = c.coin();
    auto text = [](Op const& o) -> std::string {
      std::ostringstream os;
      switch (o.kind)
      {
        case 1: return dm_symbol(o.in);
        case 2: return dm_type(o.in);
        case 3: return libcwd::strerrno(o.n);
        case 4: os << libcwd::buf2str(o.in.data(), o.in.size()); return os.str();
        case 5: os << libcwd::char2str((char)o.n); return os.str();
      }
      return "";
    };
    std::vector<std::vector<std::string>> got(nt), alone(nt);
    std::vector<std::vector<TypeInfo const*>> info(nt);
    auto by_itself = [&] {
      for (int t = 0; t < nt; ++t)
        for (auto& o : script[t]) alone[t].push_back(text(o));
    };
    std::string all;
    for (int t = 0; t < nt; ++t)
    {
      std::string n = "thread " + std::to_string(t) + ":";
      for (auto& o : script[t]) n += " " + (o.kind == 0 ? "type " + q[o.n].name : o.kind <= 2 ? o.in : o.kind == 4 ? pbt::quote(o.in) : std::to_string(o.n));
      c.note(n);
      all += n;
    }
    for (auto& a : asked)
      if (a.second.size() > 1)
      {
        c.nontrivial(all);
        break;
      }
    if (alone_first) by_itself();
    std::atomic<int> waiting{nt};
    std::vector<std::thread> th;
    std::vector<std::string> wrong(nt);
    for (int t = 0; t < nt; ++t)
      th.emplace_back([&, t] {
        --waiting;
        while (waiting.load() > 0) ;
        for (auto& o : script[t])
        {
          for (int i = o.delay; i > 0; --i) asm volatile("pause");
          got[t].push_back(text(o));
          if (o.kind) { info[t].push_back(nullptr); continue; }
          TypeInfo const& i = q[o.n].ask();
          info[t].push_back(&i);
          if (i.demangled_name() != q[o.n].name || i.size() != q[o.n].size || i.ref_size() != q[o.n].ref)
            wrong[t] = std::string(i.demangled_name() ? i.demangled_name() : "(null)") + " of size " + std::to_string(i.size()) + " and " + std::to_string(i.ref_size()) + " instead of " + q[o.n].name;
        }
      });
    for (auto& t : th) t.join();
    if (!alone_first) by_itself();
    std::map<int, TypeInfo const*> the;
    for (int t = 0; t < nt; ++t)
    {
      c.check(wrong[t].empty(), "type", "thread " + std::to_string(t) + " got " + wrong[t]);
      for (size_t k = 0; k < script[t].size(); ++k)
      {
        Op& o = script[t][k];
        if (o.kind)
        {
          c.check(got[t][k] == alone[t][k], "text", "thread " + std::to_string(t) + " got " + pbt::quote(got[t][k]) + " where it is " + pbt::quote(alone[t][k]) + " for a single thread");
          continue;
        }
        TypeInfo const*& i = the[o.n];
        if (!i) i = &q[o.n].ask();
        c.check(i == info[t][k], "object", "different objects for " + q[o.n].name);
        c.check(i->demangled_name() == q[o.n].name && i->size() == q[o.n].size && i->ref_size() == q[o.n].ref, "type", "afterwards the information of " + q[o.n].name + " is wrong");
      }
    }
  };
  return pbt::Runner(cfg).main(argc, argv);
}
