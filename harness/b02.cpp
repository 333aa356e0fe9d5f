// Programs that are compiled with the headers of another configuration or version than that of the library.
#include "progs.h"
#include <map>
using pbt::Case;

struct Conf
{
  bool location = true, debug = false, output = false, debugt = false;
  int v[3] = {0, 0, 0};
  // DebugOutput only exists when Debug is on.
  bool same_options(Conf const& o) const { return location == o.location && debug == o.debug && (debug && output) == (o.debug && o.output) && debugt == o.debugt; }
  bool same_version(Conf const& o) const { return std::equal(v, v + 3, o.v); }
  std::string show() const
  {
    return std::to_string(v[0]) + "." + std::to_string(v[1]) + "." + std::to_string(v[2]) + (location ? " location" : "") + (debug ? " debug" : "") + (output ? " output" : "") + (debugt ? " debugt" : "");
  }
};

static void replace(std::string& t, std::string const& a, std::string const& b)
{
  for (size_t p = 0; (p = t.find(a, p)) != std::string::npos; p += b.size()) t.replace(p, a.size(), b);
}

static int define(std::string const& t, std::string const& name)
{
  size_t p = t.find("#define " + name + " ");
  if (p == std::string::npos) return 0;
  std::string v = t.substr(p + name.size() + 9, t.find('\n', p) - p - name.size() - 9);
  return v == "1" || v.find("&& 1") != std::string::npos;
}

int main(int argc, char** argv)
{
  pbt::Config cfg;
  cfg.property = "B02";
  cfg.quick_cases = 400;
  cfg.thorough_cases = 20000;
  cfg.case_timeout = 120;
  cfg.rule = "the headers are not those of the library";
  cfg.body = [](Case& c) {
    std::string gen = progs::env("VP_GEN"), repo = progs::env("VP_REPO", "/repo"), have = progs::read_file(gen + "/libcwd/config.h");
    Conf lib;
    lib.location = define(have, "CWDEBUG_LOCATION");
    lib.debug = define(have, "CWDEBUG_DEBUG");
    lib.output = define(have, "CWDEBUG_DEBUGOUTPUT");
    lib.debugt = define(have, "CWDEBUG_DEBUGT");
    if (sscanf(progs::read_file(gen + "/version").c_str(), "%d.%d.%d", lib.v, lib.v + 1, lib.v + 2) != 3) c.fail("harness", "version");
    Conf app = lib;
    bool options = c.coin(), version = c.coin();
    if (options)
      for (bool* b : {&app.location, &app.debug, &app.output, &app.debugt})
        if (c.chance(1, 3)) *b = !*b;
    if (version)
      for (int i = 0; i < 3; ++i)
        switch (c.draw(5))
        {
          case 0: app.v[i] = c.draw(127); break;
          case 1: app.v[i] = (app.v[i] + 1) % 128; break;
          case 2: app.v[i] = (app.v[i] + 127) % 128; break;
          case 3: app.v[i] ^= 1 << c.draw(6); break;
        }
    bool on = c.coin(), direct = c.chance(4, 5);
    // The rest of the headers can not be used with a library of another layout.
    if (!app.same_options(lib)) direct = true;
    std::string h = progs::read_file(repo + "/include/libcwd/config.h.in");
    auto num = [](int n) { return std::to_string(n); };
    replace(h, "@CW_CONFIG_LOCATION@", num(app.location));
    replace(h, "@CW_CONFIG_DEBUG@", num(app.debug));
    replace(h, "@CW_CONFIG_DEBUGOUTPUT@", num(app.output));
    replace(h, "@CW_CONFIG_DEBUGT@", num(app.debugt));
    replace(h, "@CW_CONFIG_GLIBCXX_DEBUG@", "0");
    replace(h, "@CW_CONFIG_BUILTIN_RETURN_ADDRESS_OFFSET@", "-1");
    replace(h, "@VERSION_MAJOR@", num(app.v[0]));
    replace(h, "@VERSION_MINOR@", num(app.v[1]));
    replace(h, "@VERSION_REVISION@", num(app.v[2]));
    progs::TempDir dir;
    mkdir((dir.path + "/libcwd").c_str(), 0755);
    progs::write_file(dir.path + "/libcwd/config.h", h);
    std::string prog = direct ? "#include <libcwd/config.h>\n#include <cstdio>\n" : "#include \"sys.h\"\n#include \"debug.h\"\n#include <cstdio>\n";
    prog += "int main()\n{\n";
    if (!direct && on) prog += "  Debug(libcw_do.on());\n";
    prog += direct ? "  libcwd::main_reached();\n" : "  Debug(main_reached());\n";
    prog += "  int v[3];\n  libcwd::get_version(v[0], v[1], v[2]);\n  std::printf(\"%d.%d.%d %d\\n\", v[0], v[1], v[2], libcwd::has_location_support() ? 1 : 0);\n}\n";
    progs::write_file(dir.path + "/t.cpp", prog);
    c.note("library " + lib.show() + ", headers " + app.show() + (direct ? "" : on ? ", debug.h, libcw_do on" : ", debug.h"));
    bool same_o = lib.same_options(app), same_v = lib.same_version(app);
    c.label(same_o && same_v ? "same" : same_v ? "other configuration" : same_o ? "other version" : "other version and configuration");
    auto r = progs::run(progs::cat({{"g++", "-O0", "-I" + dir.path}, progs::flags(), {"t.cpp", "-o", "t"}, progs::link_flags()}), dir.path, 110);
    c.check(r.ok(), "compile", "the program does not compile: " + r.err.substr(0, 2000));
    r = progs::run({"./t"}, dir.path, 30, {"LIBCWD_RCFILE_NAME", "LIBCWD_PRINT_LOADING"});
    if (same_o && same_v)
    {
      std::string want = num(app.v[0]) + "." + num(app.v[1]) + "." + num(app.v[2]) + " " + num(app.location) + "\n";
      c.check(r.ok() && r.out == want, "same", "the program ended with " + r.describe() + " after " + pbt::quote(r.out + r.err) + " instead of " + pbt::quote(want));
      return;
    }
    c.nontrivial(lib.show() + "/" + app.show());
    // Which one of both is reported when both differ does not matter that much, but the version is the cause of everything.
    std::string want = same_v ? "different configuration" : "does not match the version of libcwd/config.h";
    c.check(!r.timed_out && r.out.empty() && !r.ok(), "accepted", "main_reached() accepts a program of another " + std::string(same_v ? "configuration" : "version") + " (" + r.describe() + ", " + pbt::quote(r.out) + ")");
    c.check(WIFEXITED(r.status) && WEXITSTATUS(r.status) == 180, "end", "the program ended with " + r.describe() + " instead of that of a fatal error");
    size_t p = r.err.find("FATAL   : configuration check: ");
    c.check(p != std::string::npos && r.err.find(want, p) != std::string::npos, "text", "it wrote " + pbt::quote(r.err) + " instead of something with " + pbt::quote(want));
  };
  return pbt::Runner(cfg).main(argc, argv);
}
