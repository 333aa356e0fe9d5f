// Shared libraries for the checks of loading and unloading.
#pragma once
#include "loc.h"
#include "progs.h"

namespace plug {

using pbt::Case;
using pbt::quote;
using loc::base_name;

struct Plugin
{
  std::string name;
  std::vector<std::string> flags;
  std::vector<int> needs;       // Linked with these.
  enum D { full, symbols, dynsym } debug = full;
  std::string extra;            // More source.
  std::string path = {};        // Absolute.
};

enum { simple, user, used, two, leaf, nodebug, nodelete, separate, nester, large, stripped, second_user, looker, count };

inline std::vector<Plugin> plugins = {
  {"simple", {"-O0", "-g"}, {}},
  {"user", {"-O2", "-g"}, {used}},
  {"used", {"-O1", "-g", "-gdwarf-4"}, {}},
  {"two", {"-O0", "-g"}, {used, leaf}},
  {"leaf", {"-O2", "-g", "-ffunction-sections"}, {}},
  {"nodebug", {"-O0"}, {}, Plugin::symbols},
  {"nodelete", {"-O0", "-g", "-Wl,-z,nodelete"}, {}},
  {"separate", {"-O0", "-g"}, {}},
  {"nester", {"-O0", "-g"}, {}, Plugin::full,
    "#include <dlfcn.h>\nstatic void* h;\n"
    "__attribute__((constructor)) static void start() { h = dlopen(SIMPLE, RTLD_NOW); }\n"
    "__attribute__((destructor)) static void stop() { if (h) dlclose(h); }\n"},
  {"large", {"-O0", "-g"}, {}, Plugin::full, "char big[16 << 20];\n"},
  {"stripped", {"-O0", "-s"}, {}, Plugin::dynsym,
    "extern \"C\" {\nstatic int one() { return 1; }\nstatic int (*resolve())() { return one; }\n"
    "int stripped_chosen() __attribute__((ifunc(\"resolve\")));\n"
    "void* stripped_resolver = (void*)&resolve;\nint stripped_data[64] = { 1 };\n}\n"},
  {"second_user", {"-O0", "-g", "-gz"}, {used, user}},
  {"looker", {"-O0", "-g"}, {}, Plugin::full,
    "void (*look_up_from_constructor)() __attribute__((weak));\n"
    "extern \"C\" void looker_constructs(void (*)(void (*)())) __attribute__((weak));\n"
    "__attribute__((constructor)) static void start() { if (looker_constructs) looker_constructs(&looker_call); }\n"},
};

inline std::string dir;

// The function NAME_call calls back from line 1000, and from line 2000 of another file from a function that can be inlined.
inline std::string source(Plugin const& p)
{
  std::string n = p.name;
  std::string s = "static volatile int sink;\nextern \"C\" void " + n + "_call(void (*cb)());\n";
  s += "namespace { struct S { void m(void (*cb)()); }; }\n";
  s += "extern \"C\" __attribute__((visibility(\"default\"))) void " + n + "_call(void (*cb)())\n{\n#line 1000 \"" + n + ".cc\"\n  cb();\n  sink = sink + 1;\n}\n";
  s += "#line 1 \"" + n + "_extra.cc\"\n";
  s += p.extra;
  return s;
}

inline void build()
{
  static progs::TempDir tmp;
  dir = tmp.path;
  std::vector<std::string> scripts;
  std::string all = "cd " + dir + "\nset -e\n";
  // First those without dependencies.
  for (int pass = 0; pass < 3; ++pass)
  {
    for (auto& p : plugins)
    {
      bool second = &p == &plugins[second_user];
      if ((pass == 0) != p.needs.empty() || (pass == 2) != (second && !p.needs.empty())) continue;
      if (pass && p.needs.empty()) continue;
      p.path = dir + "/lib" + p.name + ".so";
      progs::write_file(dir + "/" + p.name + ".cpp", source(p));
      all += "g++ -w -fPIC -shared -Wl,-rpath," + dir + " -Wl,--no-as-needed -DSIMPLE='\"" + dir + "/libsimple.so\"'";
      for (auto& f : p.flags) all += " " + f;
      all += " " + p.name + ".cpp -o lib" + p.name + ".so -L.";
      for (int n : p.needs) all += " -l" + plugins[n].name;
      all += " & \n";
    }
    all += "wait\n";
  }
  all += "objcopy --only-keep-debug libseparate.so libseparate.debug\nobjcopy -g libseparate.so\nobjcopy --add-gnu-debuglink=libseparate.debug libseparate.so\n";
  all += "mkdir sub other\nln -s ../libsimple.so sub/libsymlink.so\n";
  progs::Result r = progs::run({"sh", "-c", all}, dir, 120);
  for (auto& p : plugins)
    if (access(p.path.c_str(), R_OK)) { fprintf(stderr, "no %s: %s\n", p.path.c_str(), r.err.c_str()); exit(2); }
}

struct Object { std::string name; uintptr_t base; std::vector<std::pair<uintptr_t, uintptr_t>> segments; };

// What the loader says is loaded.
inline std::vector<Object> loaded()
{
  std::vector<Object> v;
  dl_iterate_phdr([](dl_phdr_info* i, size_t, void* p) {
    Object o{i->dlpi_name ? i->dlpi_name : "", i->dlpi_addr, {}};
    for (int k = 0; k < i->dlpi_phnum; ++k)
      if (i->dlpi_phdr[k].p_type == PT_LOAD && i->dlpi_phdr[k].p_memsz)
        o.segments.push_back({i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz});
    static_cast<std::vector<Object>*>(p)->push_back(o);
    return 0;
  }, &v);
  return v;
}
inline Object const* find(std::vector<Object> const& v, uintptr_t a)
{
  for (auto& o : v)
    for (auto& [b, e] : o.segments)
      if (b <= a && a < e) return &o;
  return nullptr;
}

inline char const* cb_pc;
inline void callback()
{
  cb_pc = (char const*)__builtin_return_address(0) + libcwd::builtin_return_address_offset;
  asm volatile("" ::: "memory");
}

// What a location in plugin i must be.
inline loc::Site site(int i, uintptr_t pc)
{
  Plugin const& p = plugins[i];
  loc::Site x;
  x.what = "lib" + p.name + ".so";
  x.pc = (char const*)pc;
  x.known = p.debug == Plugin::full;
  x.object = true;
  x.path = p.name + ".cc";
  x.line = 1000;
  x.function = p.name + "_call";
  return x;
}

} // namespace plug
