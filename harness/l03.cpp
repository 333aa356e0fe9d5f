// L03: histories of loading and unloading shared libraries.
#include "plugins.h"
#include <deque>
using namespace plug;
using libcwd::Location;

static std::string constructor_result;
extern "C" void looker_constructs(void (*call)(void (*)()))
{
  call(&callback);
  Location l(cb_pc);
  loc::Site s = site(looker, (uintptr_t)cb_pc);
  constructor_result = differs(l, s);
}

int main(int argc, char** argv)
{
  loc::init();
  build();
  for (auto& x : loc::sites) Location l(x.pc);
  pbt::Config cfg;
  cfg.property = "L03";
  cfg.quick_cases = 6000;
  cfg.thorough_cases = 400000;
  cfg.fork_per_case = true;
  cfg.case_timeout = 60;
  cfg.rule = "a history in which a library stayed loaded after one of its handles was closed or because another library needs it, a library was unloaded, and addresses in it were looked up before and after";
  cfg.body = [](Case& c) {
    struct Handle { int plugin; void* h; };
    std::vector<Handle> handles;
    std::map<int, uintptr_t> rel;                       // Offset of the call in a plugin.
    uintptr_t rel_resolver = 0, rel_data = 0;           // Offset in the stripped one of the resolver of an indirect function and of a variable.
    std::set<std::pair<int, uintptr_t>> ever;           // (plugin, base) that were loaded at some time.
    std::deque<std::pair<Location, loc::Site>> kept;
    std::string history;
    std::set<int> resolved, vanished;
    bool stayed = false;
    if (chdir(dir.c_str())) c.discard();
    auto plugin_of = [&](std::string const& n) {
      std::string b = base_name(n);
      if (b == "libsymlink.so") return (int)simple;
      for (int i = 0; i < count; ++i) if (b == "lib" + plugins[i].name + ".so") return i;
      return -1;
    };
    auto is_loaded = [&](int i) { for (auto& o : loaded()) if (plugin_of(o.name) == i) return true; return false; };
    std::string what;
    auto look = [&](uintptr_t pc, int i, bool strict) {
      auto v = loaded();
      Object const* o = find(v, pc);
      int p = o ? plugin_of(o->name) : -1;
      Location l((void*)pc);
      std::string d;
      if (!o)
      {
        loc::Site x;
        x.pc = (char const*)pc;
        d = differs(l, x);
        if (d.empty() && resolved.count(i)) vanished.insert(i);
      }
      else if (p >= 0 && rel.count(p) && pc == o->base + rel[p])
      {
        loc::Site x = site(p, pc);
        d = differs(l, x);
        std::string name = l.object_file() ? l.object_file()->filepath() : "";
        struct stat a, b;
        if (d.empty() && (name[0] != '/' || stat(name.c_str(), &a) || stat(plugins[p].path.c_str(), &b) || a.st_ino != b.st_ino)) d = "the path of the object file is " + quote(name);
        if (d.empty() && p == stripped && rel_resolver)
        {
          Location r((char*)o->base + rel_resolver + 1), v((char*)o->base + rel_data + 4);
          if (!r.object_file() || r.object_file()->filename() != x.what || strcmp(r.mangled_function_name(), "stripped_chosen"))
            d = "the function that chooses stripped_chosen is " + quote(r.mangled_function_name());
          else if (!v.object_file() || v.object_file()->filename() != x.what || strcmp(v.mangled_function_name(), libcwd::unknown_function_c))
            d = "the function of a variable is " + quote(v.mangled_function_name());
        }
        resolved.insert(p);
        if (d.empty() && kept.size() < 30 && c.chance(1, 4)) kept.emplace_back(l, x);
      }
      else if (!l.object_file())
        d = "there is no object file";
      else if (base_name(o->name) != l.object_file()->filename())
        d = "the object file is " + quote(l.object_file()->filename());
      c.check(d.empty(), "lookup", "after " + what + " of an address that is" + (o ? " in " + quote(o->name) : " not in a loaded library (it was in lib" + plugins[i].name + ".so)") + ": " + d);
      std::ostringstream out;
      out << l;
      std::string t = !o ? "<unknown object file> (at " : p >= 0 && plugins[p].debug == Plugin::full && rel.count(p) && pc == o->base + rel[p] ? plugins[p].name + ".cc:1000" : "";
      c.check(out.str().substr(0, t.size()) == t, "print", "after " + what + " a location is printed as " + quote(out.str()) + " instead of " + t + "...");
      char const* f = libcwd::pc_mangled_function_name((void*)pc);
      c.check(!strcmp(f, l.mangled_function_name()), "function", "after " + what + " pc_mangled_function_name returns " + quote(f) + " instead of " + quote(l.mangled_function_name()));
    };
    auto look_all = [&] {
      for (auto& [i, b] : ever) if (rel.count(i)) look(b + rel[i], i, true);
      loc::Site const& x = loc::sites[c.draw(loc::sites.size() - 1)];
      Location l(x.pc);
      std::string d = x.object ? differs(l, x) : "";
      c.check(d.empty(), "lookup", "after " + what + " of " + x.what + ": " + d);
      for (auto& [k, x] : kept)
      {
        c.check(k.is_known() == x.known && (!x.known || (k.line() == x.line && k.file() == base_name(x.path))), "kept", "after " + what + " a location that was found before changed");
        std::ostringstream out;
        libcwd::location_format(libcwd::show_objectfile);
        out << k.object_file()->filepath() << ' ' << k.object_file()->filename();
        if (x.known) out << k;
        libcwd::location_format(0);
        c.check(k.object_file()->filename() == x.what || x.what == "libsimple.so", "kept", "after " + what + " the object file of a location that was found before is " + quote(out.str()));
      }
    };
    auto after = [&](bool look_now) {
      for (auto& o : loaded())
      {
        int i = plugin_of(o.name);
        if (i < 0) continue;
        ever.insert({i, o.base});
        if (!rel.count(i))
        {
          // Find the offset without the help of libcwd.
          char* f = nullptr;
          if (void* h = dlopen(o.name.c_str(), RTLD_NOW | RTLD_NOLOAD))
          {
            f = (char*)dlsym(h, (plugins[i].name + "_call").c_str());
            if (f)
            {
              ((void (*)(void (*)()))f)(&callback);
              rel[i] = (uintptr_t)cb_pc - o.base;
              if (i == stripped)
              {
                if (void** r = (void**)dlsym(h, "stripped_resolver")) rel_resolver = (uintptr_t)*r - o.base;
                rel_data = (uintptr_t)dlsym(h, "stripped_data") - o.base;
              }
            }
            dlclose(h);
          }
        }
      }
      if (look_now) look_all();
    };
    int steps = 2 + c.small(4, 30);
    for (int step = 0; step < steps; ++step)
    {
      what.clear();
      switch (c.weighted({8, handles.empty() ? 0 : 6, 1, 1, 1, handles.empty() ? 0 : 1}))
      {
        case 0:
        {
          int i = c.draw(count - 1);
          std::string f = plugins[i].path;
          int how = c.weighted({6, 2, 1});
          if (how == 1)
          {
            char cwd[4096];
            std::string d = getcwd(cwd, sizeof cwd) ? cwd : "";
            f = (d == dir ? "./lib" : "../lib") + plugins[i].name + ".so";
          }
          if (how == 2 && i == simple) f = dir + "/sub/libsymlink.so";
          int flags = c.coin() ? RTLD_NOW : RTLD_LAZY;
          if (c.chance(1, 6)) flags |= RTLD_GLOBAL;
          if (c.chance(1, 12)) flags |= RTLD_NODELETE;
          if (c.chance(1, 6)) flags |= RTLD_NOLOAD;
          bool was = is_loaded(i);
          what = "dlopen(" + quote(f) + ", " + (flags & RTLD_NOW ? "RTLD_NOW" : "RTLD_LAZY") + (flags & RTLD_GLOBAL ? "|RTLD_GLOBAL" : "") + (flags & RTLD_NODELETE ? "|RTLD_NODELETE" : "") + (flags & RTLD_NOLOAD ? "|RTLD_NOLOAD" : "") + ")";
          c.note(what);
          constructor_result.clear();
          void* h = dlopen(f.c_str(), flags);
          c.check(!h == (flags & RTLD_NOLOAD && !was), "dlopen", what + (h ? " returned a handle" : " failed"));
          if (char const* e = dlerror()) c.check(!h, "dlerror", what + " succeeded but dlerror() returns " + quote(e));
          c.check(constructor_result.empty(), "constructor", "a lookup by a constructor during " + what + ": " + constructor_result);
          if (h) handles.push_back({i, h});
          break;
        }
        case 1:
        {
          int k = c.draw(handles.size() - 1);
          Handle h = handles[k];
          handles.erase(handles.begin() + k);
          what = "dlclose(lib" + plugins[h.plugin].name + ".so)";
          c.note(what);
          c.check(dlclose(h.h) == 0, "dlclose", what + " failed");
          if (char const* e = dlerror()) c.fail("dlerror", what + " succeeded but dlerror() returns " + quote(e));
          if (is_loaded(h.plugin)) stayed = true;
          break;
        }
        case 2:
        {
          what = "dlopen of a file that does not exist";
          c.note(what);
          dlerror();
          void* h = dlopen((dir + "/libnone.so").c_str(), RTLD_NOW);
          char const* e = dlerror();
          c.check(!h && e && strstr(e, "libnone.so"), "dlopen", what + (h ? " succeeded" : ": dlerror() returned " + std::string(e ? e : "NULL")));
          break;
        }
        case 3:
        {
          what = "dlopen(NULL)";
          c.note(what);
          void* h = dlopen(nullptr, RTLD_NOW);
          c.check(h && dlsym(h, "looker_constructs"), "dlopen", what + " failed");
          if (c.coin()) dlclose(h);
          break;
        }
        case 4:
        {
          what = c.coin() ? "chdir sub" : "chdir other";
          c.note(what);
          if (chdir((dir + "/" + what.substr(6)).c_str())) c.discard();
          break;
        }
        case 5:
        {
          // A second handle of something that is open.
          Handle h = c.pick(handles);
          what = "dlopen of " + plugins[h.plugin].name + " again";
          c.note(what);
          void* n = dlopen(plugins[h.plugin].path.c_str(), RTLD_NOW);
          c.check(n == h.h, "dlopen", what + " returned another handle");
          handles.push_back({h.plugin, n});
          break;
        }
      }
      after(c.chance(2, 3));
      history += what + ";";
    }
    if (stayed && !vanished.empty()) c.nontrivial(history);
  };
  return pbt::Runner(cfg).main(argc, argv);
}
