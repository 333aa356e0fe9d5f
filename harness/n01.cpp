// Programs that are compiled without debugging.
#include "proggen.h"
using namespace proggen;

static char const* const prelude = R"CPP(#include <iostream>
#include <cstdlib>
#include <string>
#include <utility>
#include "nodebug.h"
int t(int id) { std::cerr << 'T' << id << '\n'; return id; }
int value(int id) { return t(id); }
bool k(int id, bool v) { t(id); return v; }
template<typename A, int N> struct W { };
template<typename A, int N> std::ostream& operator<<(std::ostream& os, W<A, N>) { t(N); return os << 'W' << N; }
)CPP";

// The names of the undefined symbols of an object file.
static std::set<std::string> undefined(std::string const& dir, std::string const& obj, bool& ok)
{
  auto r = progs::run({"nm", "-u", obj}, dir, 30);
  ok = r.ok();
  std::set<std::string> s;
  std::istringstream i(r.out);
  for (std::string u, n; i >> u >> n;) s.insert(n);
  return s;
}

int main(int argc, char** argv)
{
  pbt::Config cfg;
  cfg.property = "N01";
  cfg.fork_per_case = false;
  cfg.quick_cases = 160;
  cfg.thorough_cases = 6000;
  cfg.case_timeout = 120;
  cfg.rule = "a program of which at least 15 debug statements are reached";
  cfg.body = [](Case& c) {
    Gen g(c, Mode{false}, 140);
    bool fatal = c.chance(1, 3);
    std::vector<Gen::Fn> fs;
    int nf = c.range(1, 12);
    for (int i = 0; i < nf; ++i) fs.push_back(g.function(fatal && i == nf - 1));
    std::string prog[2];
    for (int r = 0; r < 2; ++r)
    {
      prog[r] = prelude;
      for (auto& f : fs) prog[r] += f.definition(r);
      prog[r] += "int main()\n{\n";
      for (auto& f : fs) prog[r] += "  " + f.call + "\n";
      prog[r] += "  t(0);\n}\n";
    }
    State s;
    for (auto& f : fs) if (!s.ended) f.run(s);
    if (!s.ended) s.log += Gen::T(0);
    static char const* const stds[] = {"-std=c++17", "-std=c++20", "-std=c++23"};
    static char const* const cxx[] = {"g++", "g++", "clang++"};
    static char const* const opt[] = {"-O0", "-O0", "-O2"};
    std::string cc = c.pick(cxx), st = c.pick(stds), o = c.pick(opt);
    c.note("// " + cc + " " + st + " " + o + "\n" + prog[0].substr(strlen(prelude)));
    progs::TempDir dir;
    std::string repo = progs::env("VP_REPO", "/repo");
    bool ok = true;
    std::set<std::string> u[2];
    for (int r = 1; r >= 0; --r)
    {
      std::string f = r ? "ref" : "t";
      progs::write_file(dir.path + "/" + f + ".cpp", prog[r]);
      auto cr = progs::run({cc, st, o, "-w", "-I" + repo, "-c", f + ".cpp", "-o", f + ".o"}, dir.path, 90);
      if (cr.timed_out) c.discard();
      if (!cr.ok())
      {
        // Fatal statements are part of the reference program; the macro must be usable.
        if (r && !fatal && !g.has_dead_fatal) c.fail("harness", "the reference program does not compile: " + cr.err.substr(0, 3000));
        c.fail("compile", "the program does not compile: " + cr.err.substr(0, 3000));
      }
      u[r] = undefined(dir.path, f + ".o", ok);
      if (!ok) c.discard();
    }
    for (auto& n : u[0])
    {
      c.check(n.find("libcwd") == std::string::npos, "reference", "the program refers to " + n);
      c.check(u[1].count(n), "residue", "the program refers to " + n + ", that it does not without the debug statements");
    }
    auto lr = progs::run({cc, "t.o", "-o", "t"}, dir.path, 60);
    if (lr.timed_out) c.discard();
    c.check(lr.ok(), "link", lr.err.substr(0, 2000));
    auto r = progs::run({dir.path + "/t"}, dir.path, 20);
    c.check(r.err == s.log, "output", "it wrote " + quote(r.err.substr(0, 4000)) + " instead of " + quote(s.log.substr(0, 4000)));
    c.check(r.out.empty(), "output", "it wrote " + quote(r.out.substr(0, 1000)) + " to the standard output");
    c.check(!r.timed_out && WIFEXITED(r.status) && WEXITSTATUS(r.status) == s.exit_status, "exit", r.describe() + " instead of exit status " + std::to_string(s.exit_status));
    if (fatal) c.label("fatal");
    if (g.has_dead_fatal) c.label("fatal statement that is not executed");
    if (s.executed >= 15) c.nontrivial(prog[0]);
  };
  return pbt::Runner(cfg).main(argc, argv);
}
