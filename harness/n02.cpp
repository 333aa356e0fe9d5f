// Programs that are compiled with debugging: debug statements in every context.
#include "proggen.h"
using namespace proggen;

// Operators that only debug statements use.
static char const* const user_operators[] = {
  "#define LIBCWD_USING_OSTREAM_PRELUDE using printers::operator<<\n",
  "#define LIBCWD_USING_OSTREAM_PRELUDE using namespace printers\n",
};
static char const* const prelude = R"CPP(#include "sys.h"
#include "debug.h"
#include <iostream>
#include <cstdlib>
#include <string>
#include <utility>
namespace debug::channels::dc {
libcwd::Channel aaa("AAA");
libcwd::Channel bbb("BBB");
}
// What is in the namespace of the debug channels does not hide, or clash with, the names that operands use.
namespace debug::channels {
int value(int);
template<typename A, int N> struct W;
}
libcwd::DebugObject my_do;
int t(int id) { std::cerr << 'T' << id << '\n'; return id; }
int value(int id) { return t(id); }
bool k(int id, bool v) { t(id); return v; }
template<typename A, int N> struct W { };
template<typename A, int N> std::ostream& operator<<(std::ostream& os, W<A, N>) { t(N); return os << 'W' << N; }
namespace theirs { template<int N> struct V { }; }
namespace printers { template<int N> std::ostream& operator<<(std::ostream& os, theirs::V<N>) { t(N); return os << 'V' << N; } }
libcwd::control_flag_t flag(bool on, int id) { t(id); return on ? libcwd::noprefix_cf : 0; }
template<typename D> void force_on(D& d)
{
  libcwd::DebugObject::OnOffState s;
  d.force_on(s);
}
)CPP";

int main(int argc, char** argv)
{
  pbt::Config cfg;
  cfg.property = "N02";
  cfg.fork_per_case = false;
  cfg.quick_cases = 250;
  cfg.thorough_cases = 3000;
  cfg.case_timeout = 180;
  cfg.rule = "a program of which at least 5 debug statements wrote something and 5 did not because of what was off";
  cfg.body = [](Case& c) {
    Gen g(c, Mode{true}, 300);
    g.user_operators = c.chance(1, 3);
    bool fatal = c.chance(1, 3);
    std::vector<Gen::Fn> fs;
    int nf = c.range(4, 20);
    for (int i = 0; i < nf; ++i) fs.push_back(g.function(fatal && i == nf - 1));
    std::string prog = g.user_operators ? c.pick(user_operators) : "";
    prog += prelude;
    size_t head = prog.size();
    for (auto& f : fs) prog += f.definition(false);
    State s;
    prog += "int main()\n{\n  Debug(main_reached());\n  Debug(libcw_do.on());\n  Debug(my_do.on());\n";
    s.cnt[3] = -1; // WARNING.
    for (int k = 0; k < 3; ++k)
      if (c.chance(2, 3))
      {
        prog += std::string("  Debug(") + Gen::channel(k) + ".on());\n";
        s.cnt[k] = -1;
      }
    for (auto& f : fs) prog += "  " + f.call + "\n";
    prog += "  t(0);\n}\n";
    for (auto& f : fs) if (!s.ended) f.run(s);
    if (!s.ended) s.log += Gen::T(0);
    static char const* const cxx[] = {"g++", "g++", "clang++"};
    static char const* const opt[] = {"-O0", "-O0", "-O2"};
    std::string cc = c.pick(cxx), o = c.pick(opt);
    c.note("// " + cc + " " + o + "\n" + (g.user_operators ? prog.substr(0, prog.find('\n') + 1) : "") + prog.substr(head));
    progs::TempDir dir;
    progs::write_file(dir.path + "/t.cpp", prog);
    auto cr = progs::run(progs::cat({{cc, o}, progs::flags(), {"t.cpp", "-o", "t"}, progs::link_flags()}), dir.path, 150);
    if (cr.timed_out) c.discard();
    c.check(cr.ok(), "compile", "the program does not compile: " + cr.err.substr(0, 3000));
    auto r = progs::run({dir.path + "/t"}, dir.path, 20);
    c.check(r.err == s.log, "output", "it wrote " + quote(r.err.substr(0, 6000)) + " instead of " + quote(s.log.substr(0, 6000)));
    c.check(r.out.empty(), "output", "it wrote " + quote(r.out.substr(0, 1000)) + " to the standard output");
    c.check(!r.timed_out && WIFEXITED(r.status) && WEXITSTATUS(r.status) == s.exit_status, "exit", r.describe() + " instead of exit status " + std::to_string(s.exit_status));
    if (fatal) c.label("fatal");
    c.label(cc);
    if (s.shown >= 5 && s.hidden >= 5) c.nontrivial(prog);
  };
  return pbt::Runner(cfg).main(argc, argv);
}
