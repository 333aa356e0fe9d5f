#include <dlfcn.h>
#include "rc.h"
using namespace rc;

static char const main_mark[] = "#main reached#";

// Whether x is on after exactly n calls of on().
template<typename On, typename IsOn> static void count(char const* what, int n, On on, IsOn is_on, bool& ok)
{
  for (int i = 0; i < n; ++i, on())
    if (is_on()) { dprintf(2, "[%s is on after %d instead of %d calls of on()]", what, i, n); ok = false; return; }
  if (!is_on()) { dprintf(2, "[%s is off after %d calls of on()]", what, n); ok = false; }
}

static int started(char const* how)
{
  using namespace libcwd;
  // The core size must not be limited more than the hard limit demands.
  rlimit r;
  bool ok = getrlimit(RLIMIT_CORE, &r) == 0 && r.rlim_cur == r.rlim_max;
  if (!ok) dprintf(2, "[core limit]");
  dprintf(2, "%s", main_mark);
  int object_off = 0, elfutils_off = 0;
  sscanf(how, "%d,%d", &object_off, &elfutils_off);
  libcw_do.on();
  channels::dc::elfutils.on();
  for (int i = 0; i < object_off; ++i) libcw_do.off();
  for (int i = 0; i < elfutils_off; ++i) channels::dc::elfutils.off();
  void* h = dlopen("libBrokenLocale.so.1", RTLD_NOW);
  if (!h) return 7; // Not installed.
  count("the debug object", object_off, [] { libcw_do.on(); }, [] { LIBCWD_TSD_DECLARATION; return libcw_do.is_on(LIBCWD_TSD); }, ok);
  count("ELFUTILS", elfutils_off, [] { channels::dc::elfutils.on(); }, [] { return channels::dc::elfutils.is_on(); }, ok);
  return ok ? 7 : 8;
}

// A program start with the given environment: what is written before main.
static void startup(Case& c)
{
  int print = c.draw(1), quiet = c.draw(1), lim = c.draw(2);
  c.label("startup");
  std::string note = std::string("startup") + (print ? " LIBCWD_PRINT_LOADING" : "") + (quiet ? " LIBCWD_NO_STARTUP_MSGS" : "") +
      (lim == 0 ? " no core" : lim == 1 ? " limited core" : " core limit as it is");
  // Every value counts, also the empty one.
  std::string value = c.coin() ? "" : c.coin() ? "1" : "0";
  note += " value " + quote(value);
  // In main, a library is opened while these are switched off that often.
  int object_off = c.small(0, 3), elfutils_off = c.small(0, 3);
  std::string how = std::to_string(object_off) + "," + std::to_string(elfutils_off);
  note += " then dlopen with off counts " + how;
  c.note(note);
  c.nontrivial(note);
  int p[2];
  if (pipe(p)) _exit(99);
  pid_t pid = fork();
  if (pid == 0)
  {
    dup2(p[1], 2);
    close(p[0]);
    close(p[1]);
    if (print) setenv("LIBCWD_PRINT_LOADING", value.c_str(), 1); else unsetenv("LIBCWD_PRINT_LOADING");
    if (quiet) setenv("LIBCWD_NO_STARTUP_MSGS", value.c_str(), 1); else unsetenv("LIBCWD_NO_STARTUP_MSGS");
    // Raising the limit that the search runs under, needs a privilege that we might not have.
    rlimit r = {0, lim == 0 ? 0 : lim == 1 ? 1 << 20 : RLIM_INFINITY};
    setrlimit(RLIMIT_CORE, &r);
    getrlimit(RLIMIT_CORE, &r);
    char k = r.rlim_max == 0 ? 'Z' : r.rlim_max == RLIM_INFINITY ? 'I' : 'L';
    if (write(2, &k, 1) != 1) _exit(97);
    execl("/proc/self/exe", "r02", "--startup", how.c_str(), nullptr);
    _exit(98);
  }
  close(p[1]);
  std::string text;
  char b[4096];
  for (ssize_t n; (n = read(p[0], b, sizeof b)) > 0;) text.append(b, n);
  int status;
  waitpid(pid, &status, 0);
  std::string opened;
  if (size_t at = text.find(main_mark); at != std::string::npos)
  {
    opened = text.substr(at + strlen(main_mark));
    text.erase(at);
  }
  c.check(WIFEXITED(status) && WEXITSTATUS(status) == 7, "startup", "the program ended with status " + std::to_string(status) + " " + quote(opened));
  bool warned = text.find("core size is limited") != std::string::npos;
  c.check(!text.empty() && strchr("ZIL", text[0]), "startup", "the program did not start");
  char kind = text[0];
  text.erase(0, 1);
  c.label(kind == 'Z' ? "core limit zero" : kind == 'L' ? "core limit finite" : "core limit infinite");
  if (!quiet) c.check(warned == (kind == 'L'), "core limit", warned ? "needless warning about the core limit" : "no warning about the core limit");
  c.check(!quiet || text.empty(), "quiet", "written before main: " + quote(text));
  bool loading = text.find("ELFUTILS") != std::string::npos && text.find("libcwd.so") != std::string::npos && text.find("libc.so") != std::string::npos;
  if (!quiet) c.check(loading == (bool)print, "loading", std::string("the messages about loading are ") + (loading ? "written: " : "missing: ") + quote(text));
  // Loading a library is reported in spite of that, and leaves the state as it was.
  if (object_off || elfutils_off)
  {
    bool reported = opened.find("ELFUTILS") != std::string::npos && opened.find("libBrokenLocale") != std::string::npos;
    c.check(reported == (print && !quiet), "loading", std::string("loading a library is ") + (reported ? "" : "not ") + "reported: " + quote(opened));
  }
  if (!quiet && !print) c.check(warned || text.empty(), "startup", "written before main: " + quote(text));
}

static void body(Case& c)
{
  if (c.chance(1, 60))
  {
    startup(c);
    return;
  }
  std::set<std::string> used{"DEBUG", "NOTICE", "SYSTEM"};
  std::string dir = scratch();
  int n = c.range(2, 5);
  for (int i = 0; i < n; ++i) new_channel(gen_label(c, used));
  Model m;
  m.ch = registry();
  m.object_on = !c.chance(1, 8);
  if (m.object_on) libcwd::libcw_do.on();
  std::string note = m.object_on ? "" : "object off\n";
  // Environment.
  char const* rcname_choice[] = {".libcwdrc", "rcA", "other/rcA", "nowhere", "ABS"};
  std::string name = ".libcwdrc";
  bool named = c.coin();
  if (named)
  {
    name = c.pick(rcname_choice);
    if (name == "ABS") name = dir + "/other/rcA";
    setenv("LIBCWD_RCFILE_NAME", name.c_str(), 1);
    note += "LIBCWD_RCFILE_NAME=" + quote(name) + "\n";
  }
  m.env_set = named;
  std::string home;
  int hk = c.weighted({1, 1, 6, 1});
  if (hk == 1) setenv("HOME", "", 1);
  if (hk == 2) home = dir + "/home";
  if (hk == 3) home = dir + "/nonexistent";
  if (hk >= 2) setenv("HOME", home.c_str(), 1);
  g_pw_exists = !c.chance(1, 6);
  g_pw_dir = c.chance(1, 3) ? dir + "/home" : c.chance(1, 6) ? dir + "/nonexistent" : dir + "/pwhome";
  note += hk ? "HOME=" + quote(home) + " " : "no HOME ";
  note += "passwd " + (g_pw_exists ? quote(g_pw_dir) : std::string("none")) + "\n";
  // Files.
  static char const* const places[] = {".libcwdrc", "rcA", "other/rcA", "home/.libcwdrc", "home/rcA", "pwhome/.libcwdrc", "pwhome/rcA", "cwd-datadir/libcwd/libcwdrc", "override", "home/override", "cwd-datadir/libcwd/rcA"};
  std::map<std::string, FileText> files;
  int density = c.range(1, 4);
  for (auto* p : places)
  {
    int k = c.weighted({8 - density, 1 + density, 1});
    if (k == 1)
    {
      FileText f = gen_file(c, m.ch, 4, c.chance(1, 10));
      // Every file has a setting of its own, that can be recognized.
      f.lines.push_back("xterm = " + std::string(p));
      files[p] = f;
      write_file(p, f.text());
      note += show(p, f);
    }
    if (k == 2)
    {
      mkdir(p, 0755);
      note += std::string(p) + ": a directory\n";
    }
  }
  std::string oname;
  bool over = c.chance(1, 2);
  if (over)
  {
    oname = c.chance(1, 5) ? "missing" : c.chance(1, 4) ? dir + "/override" : "override";
    setenv("LIBCWD_RCFILE_OVERRIDE_NAME", oname.c_str(), 1);
    note += "LIBCWD_RCFILE_OVERRIDE_NAME=" + quote(oname) + "\n";
  }
  c.note(note);
  // Which file?
  auto find = [&](std::string p) -> FileText const* {
    if (p.compare(0, dir.size() + 1, dir + "/") == 0) p = p.substr(dir.size() + 1);
    auto i = files.find(p);
    return i == files.end() ? nullptr : &i->second;
  };
  std::string found;
  std::string homedir = g_pw_exists ? g_pw_dir : "$HOME";
  if (find(name)) found = name;
  else if (!home.empty() && find(home + "/" + name)) found = home + "/" + name;
  else if (g_pw_exists && find(g_pw_dir + "/" + name)) found = g_pw_dir + "/" + name;
  else if (named)
  {
    m.rcmsg("Using environment variable LIBCWD_RCFILE_NAME with value \"" + name + "\".");
    m.die("read_rcfile: Could not read $LIBCWD_RCFILE_NAME (\"" + name + "\") from either \".\" or \"" + homedir + "\".");
  }
  else if (find("cwd-datadir/libcwd/libcwdrc"))
  {
    found = "cwd-datadir/libcwd/libcwdrc";
    m.warning("Neither ./.libcwdrc nor " + homedir + "/.libcwdrc exist.");
    m.warning("Using default rcfile \"" + found + "\".");
  }
  else
    m.die("read_rcfile: Could not read rcfile \".libcwdrc\" from either \".\" or \"" + homedir +
          "\" and could not read default rcfile \"cwd-datadir/libcwd/libcwdrc\" either!");
  c.label(m.fatal ? "none" : found.find("datadir") != std::string::npos ? "default" : found == name ? "current directory" : "home directory");
  if (!m.fatal) m.read(found, find(found), over ? &oname : nullptr, over ? find(oname) : nullptr);
  if (files.size() >= 2 || m.fatal) c.nontrivial(note);
  send_expected(c, m);
  auto* buf = new Out;
  buf->c = &c;
  libcwd::libcw_do.set_ostream(new std::ostream(buf));
  libcwd::read_rcfile();
  c.check(!m.fatal, "end", "read_rcfile() returned");
  if (m.object_on) libcwd::libcw_do.off();
  c.check(libcwd::rcfile.konsole_command() == m.xterm, "file", "the file that was used last is " + quote(libcwd::rcfile.konsole_command()) + " instead of " + quote(m.xterm));
  check_states(c, m);
}

int main(int argc, char** argv)
{
  if (argc > 1 && !strcmp(argv[1], "--startup"))
    return started(argc > 2 ? argv[2] : "0,0");
  auto cfg = config("R02", 30000, "at least two files, or none that can be used, or a program start");
  cfg.body = body;
  return pbt::Runner(cfg).main(argc, argv);
}
