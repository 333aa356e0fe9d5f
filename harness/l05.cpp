// L05: lookups by several threads at the same time, while libraries are loaded and unloaded.
#include "plugins.h"
#include <atomic>
#include <barrier>
#include <mutex>
#include <thread>
using namespace plug;
using libcwd::Location;

// A library with many compilation units, headers, inlined functions and scopes.
static int const units = 24, per_unit = 6, versions = 3;
struct F { int unit, f; unsigned line; std::string function, file; };
static std::vector<F> functions;

static std::string many_path(int v) { return dir + "/libmany" + std::to_string(v) + ".so"; }

static void build_many()
{
  std::string all = "cd " + dir + "\nset -e\n";
  for (int u = 0; u < units; ++u)
  {
    std::string n = std::to_string(u), s = "static volatile int sink;\n";
    s += "#line 1 \"many_header.h\"\ninline __attribute__((always_inline)) void inl" + n + "(void (*cb)())\n\n{\n  { int volatile k = 0; (void)k; cb(); sink = 1; }\n}\n";
    for (int f = 0; f < per_unit; ++f)
    {
      std::string name = "many_" + n + "_" + std::to_string(f);
      unsigned line = 100 * (u + 1) + 10 * f;
      s += "#line " + std::to_string(line - 2) + " \"many" + n + ".cc\"\nextern \"C\" void " + name + "(void (*cb)())\n{\n";
      if (f == per_unit - 1)
      {
        s += "  inl" + n + "(cb);\n}\n";
        functions.push_back({u, f, 4, "_Z" + std::to_string(3 + n.size()) + "inl" + n + "PFvvE", "many_header.h"});
      }
      else
      {
        s += std::string("  ") + (f % 2 ? "for (int i = 0; i < 1; ++i) { int volatile z = i; (void)z; cb(); }" : "cb();") + "\n  sink = sink + 1;\n}\n";
        functions.push_back({u, f, line, name, "many" + n + ".cc"});
      }
    }
    progs::write_file(dir + "/many" + n + ".cpp", s);
    all += "g++ -w -fPIC -O" + std::to_string(u % 2) + " -g -c many" + n + ".cpp & \n";
    if (u % 8 == 7) all += "wait\n";
  }
  all += "wait\ng++ -shared many*.o -o libmany0.so\ng++ -shared many1*.o many2*.o many[03-9].o -o libmany1.so\ncp libmany0.so libmany2.so\n";
  progs::Result r = progs::run({"sh", "-c", all}, dir, 200);
  for (int v = 0; v < versions; ++v)
    if (access(many_path(v).c_str(), R_OK)) { fprintf(stderr, "no %s: %s\n", many_path(v).c_str(), r.err.c_str()); exit(2); }
}

int main(int argc, char** argv)
{
  loc::init();
  build();
  build_many();
  pbt::Config cfg;
  cfg.property = "L05";
  cfg.quick_cases = 2500;
  cfg.thorough_cases = 200000;
  cfg.fork_per_case = true;
  cfg.nondeterministic = true;
  cfg.case_timeout = 60;
  cfg.workers = 4;
  cfg.rule = "at least two threads looked up addresses in the same library at the same time while its debug information was not yet read, and another thread loaded or unloaded a library";
  cfg.body = [](Case& c) {
    struct T { std::vector<std::pair<int, int>> ops; bool loader = false; unsigned format = 0; int spin = 0; };
    int nthreads = 2 + c.draw(5);
    std::vector<T> ts(nthreads);
    int open = 1 + c.draw(versions - 1);
    bool loads = false;
    int lookers = 0;
    for (int t = 0; t < nthreads; ++t)
    {
      ts[t].loader = t >= 2 && c.chance(1, 3);
      loads = loads || ts[t].loader;
      lookers += !ts[t].loader;
      ts[t].format = c.draw(7);
      ts[t].spin = c.draw(3) ? 0 : c.draw(2000);
      int n = 1 + c.small(3, ts[t].loader ? 8 : 60);
      for (int i = 0; i < n; ++i)
        if (ts[t].loader)
          ts[t].ops.push_back({(int)c.draw(count - 1), (int)c.draw(3)});
        else
          ts[t].ops.push_back({(int)c.draw(open - 1), (int)c.draw(functions.size() - 1)});
      c.note("thread " + std::to_string(t) + (ts[t].loader ? " loads and unloads " : " looks up ") + std::to_string(n) + (ts[t].loader ? " libraries" : " functions"));
    }
    c.note(std::to_string(open) + " libraries are looked into");
    std::vector<std::vector<char const*>> pcs(open);
    std::vector<uintptr_t> base(open);
    for (int v = 0; v < open; ++v)
    {
      void* h = dlopen(many_path(v).c_str(), RTLD_NOW);
      c.check(h, "dlopen", "a library can not be opened");
      for (auto& f : functions)
      {
        void* p = dlsym(h, ("many_" + std::to_string(f.unit) + "_" + std::to_string(f.f)).c_str());
        c.check(p, "dlsym", "no symbol");
        ((void (*)(void (*)()))p)(&callback);
        pcs[v].push_back(cb_pc);
      }
    }
    std::barrier start(nthreads);
    std::mutex m;
    std::string failure, kind;
    auto bad = [&](std::string const& k, std::string const& s) { std::lock_guard<std::mutex> l(m); if (failure.empty()) kind = k, failure = s; };
    auto body = [&](int t) {
      T& x = ts[t];
      libcwd::location_format(x.format);
      start.arrive_and_wait();
      for (volatile int i = 0; i < x.spin; i = i + 1) { }
      for (auto& [a, b] : x.ops)
      {
        if (x.loader)
        {
          void* h = dlopen(plugins[a].path.c_str(), RTLD_NOW);
          if (!h) { bad("dlopen", "dlopen failed"); return; }
          char const* f = (char const*)dlsym(h, (plugins[a].name + "_call").c_str());
          if (b & 1)
          {
            // The start of a function.
            Location l(f + 1);
            std::string n = l.mangled_function_name();
            if (n != plugins[a].name + "_call" || l.is_known() != (plugins[a].debug == Plugin::full) || (l.is_known() && l.file() != plugins[a].name + ".cc" && l.file() != plugins[a].name + ".cpp"))
              bad("lookup", "the location of " + plugins[a].name + "_call of a library that was just loaded has function " + quote(n) + (l.is_known() ? ", file " + quote(l.file()) : ""));
          }
          if (dlclose(h)) bad("dlclose", "dlclose failed");
          continue;
        }
        F const& f = functions[b];
        Location l(pcs[a][b]);
        std::string n = l.mangled_function_name(), want, d;
        if (!l.is_known()) d = "is not known";
        else if (l.line() != f.line || l.file() != f.file) d = "is " + l.file() + ":" + std::to_string(l.line());
        else if (n != f.function) d = "has function " + quote(n);
        else if (!l.object_file() || l.object_file()->filepath() != many_path(a)) d = "has the wrong object file";
        if (!d.empty()) bad("lookup", "the location of " + f.function + ", " + f.file + ":" + std::to_string(f.line) + ", " + d);
        if (b % 4 == 0 && d.empty())
        {
          std::ostringstream o;
          o << l;
          if (x.format & libcwd::show_objectfile) want += base_name(many_path(a)) + ":";
          if (x.format & libcwd::show_function) want += f.function + ":";
          if (x.format & libcwd::show_path) { std::ostringstream p; l.print_filepath_on(p); want += p.str(); } else want += f.file;
          want += ":" + std::to_string(f.line);
          if (o.str() != want) bad("print", "a location is printed as " + quote(o.str()) + " instead of " + quote(want));
        }
      }
    };
    std::vector<std::thread> th;
    for (int t = 0; t < nthreads; ++t) th.emplace_back(body, t);
    for (auto& t : th) t.join();
    c.check(failure.empty(), kind.empty() ? "x" : kind, failure);
    if (lookers >= 2 && loads)
    {
      std::string h;
      for (auto& t : ts) for (auto& [a, b] : t.ops) h += std::to_string(a) + "," + std::to_string(b) + ";";
      c.nontrivial(h);
    }
  };
  return pbt::Runner(cfg).main(argc, argv);
}
