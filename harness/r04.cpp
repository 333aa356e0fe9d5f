// Attaching a debugger to the running program: with stand-ins for the terminal and for gdb, which tell the program
// (by means of a signal) what gdb does by writing to its memory.
#include "rc.h"
#include <signal.h>
#include <sys/syscall.h>
#include <time.h>
using namespace rc;

extern int libcwd_attach_gdb_hook;

// Time passes faster, so that the program notices sooner that gdb did not start.
static int const faster = 25;
extern "C" __attribute__((visibility("default"))) int nanosleep(timespec const* t, timespec* rest)
{
  timespec s;
  long long ns = (t->tv_sec * 1000000000LL + t->tv_nsec) / faster;
  s.tv_sec = ns / 1000000000;
  s.tv_nsec = ns % 1000000000;
  return syscall(SYS_nanosleep, &s, rest);
}
extern "C" __attribute__((visibility("default"))) int clock_nanosleep(clockid_t, int, timespec const* t, timespec* rest)
{
  return nanosleep(t, rest) ? errno : 0;
}

// What programs do that are not interested in how their children end.
static void reap(int)
{
  int e = errno;
  while (waitpid(-1, nullptr, WNOHANG) > 0) { }
  errno = e;
}

static void attached(int) { libcwd_attach_gdb_hook = 0; }

static void* volatile behind;
static __attribute__((noinline)) void here() { behind = __builtin_return_address(0); }
template<int n> static __attribute__((noinline)) void caller()
{
  Debug(attach_gdb());
  here();
  behind = (char*)behind + n - n;
}
// The debugger can be attached more than once, from different places.
static void (*const callers[])() = {caller<0>, caller<1>};

static std::string slurp(char const* name)
{
  std::ifstream f(name);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}

static void script(char const* name, std::string const& text)
{
  unlink(name);
  std::ofstream(name) << "#!/bin/sh\n" << text;
  chmod(name, 0755);
}

static std::string padding(Case& c, int n)
{
  static char const chars[] = "abcdefghijklmnopqrstuvwxyz0123456789._-+=/,:@";
  std::string s(n, 'p');
  for (int i = 0; i < std::min(n, 8); ++i) s[i] = chars[c.draw(sizeof chars - 2)];
  return s;
}

// Replace some characters by what means something to printf.
static void percents(Case& c, std::string& s, bool directive)
{
  static char const* const some[] = {"%d", "%n", "%x", "%c", "%5", "%-", "%.", "%", "%u%n", "%ld", "%p"};
  static char const* const more[] = {"%s", "%%", "%%s", "%s%s"};
  if (!c.chance(1, 3)) return;
  for (int i = c.range(1, 2); i > 0; --i)
  {
    std::string p = directive && c.chance(1, 2) ? c.pick(more) : c.pick(some);
    if (p.size() > s.size()) continue;
    std::string t = s;
    t.replace(c.draw(std::min<int>(s.size() - p.size(), 8)), p.size(), p);
    if (directive || (t.find("%s") == std::string::npos && t.find("%%") == std::string::npos)) s = t;
  }
}

enum { attaches, exits, killed };

static bool attempt(Case& c, std::string const& dir, int round)
{
  int const pid = getpid();
  std::string const args = " -n -x gdb.cmds /proc/" + std::to_string(pid) + "/exe " + std::to_string(pid);
  // The settings.
  static char const* const gdbs[] = {"./gdb", "ABS", "./gdb --opt", "'./my gdb'"};
  static std::string gdb, opt, xterm, title;
  static bool has_args;
  bool reuse = round && c.chance(1, 2);
  if (!reuse)
  {
  gdb = c.pick(gdbs);
  if (gdb == "ABS") gdb = dir + "/gdb";
  has_args = gdb.find("--opt") != std::string::npos;
  if (has_args) gdb += " ";
  opt = "";
  if (has_args)
  {
    int n = c.chance(1, 3) ? std::max<int>(1, 256 - (int)(gdb + args).size() + c.range(-2, 2)) : 1 + c.small(0, 400);
    opt = padding(c, n);
    percents(c, opt, true);
    gdb += opt;
  }
  title = padding(c, 1 + c.small(0, 20));
  percents(c, title, false);
  int form = c.draw(3);
  switch (form)
  {
    case 0: xterm = "%s"; break;
    case 1: xterm = "./term -T " + title + " -e %s"; break;
    case 2: xterm = "./term -T " + title + " -c \"%s\""; break;
    case 3:
    {
      int n = c.chance(1, 2) ? std::max<int>(1, 512 - (int)(gdb + args).size() - 14 + c.range(-2, 2)) : 1 + c.small(0, 700);
      title = padding(c, n);
      percents(c, title, false);
      xterm = "./term -T " + title + " -e %s";
      break;
    }
  }
  }
  bool no_gdb = !round && c.chance(1, 15), no_read = !round && c.chance(1, 25);
  int mode = c.weighted({5, 2, 1});
  int code = c.chance(1, 3) ? c.pick((int const[]){1, 2, 126, 127}) : c.draw(255);
  if (code == 97) code = 96; // The debugger was started with something else.
  int wait = c.chance(1, 3) ? c.draw(4) : 0;
  int off = c.small(0, 3);
  int children = c.weighted({6, 1, 1});
  for (auto* n : {"ran", "done", "cmds", "my gdb"}) unlink(n);
  // What must happen.
  std::string command = (no_gdb || no_read ? "" : gdb) + args;
  std::string full = no_read ? "" : xterm;
  if (!no_read) full.replace(full.rfind("%s"), 2, command);
  if (round) c.label("for the second time");
  bool fits = command.size() < 256 && full.size() < 512, impossible = no_gdb || no_read;
  std::string note = std::string(round ? reuse ? "Then again, without reading the configuration:\n" : "Then again:\n" : "") + "gdb = " + (no_gdb ? "(none)" : quote(gdb)) + "\nxterm = " + quote(xterm) + "\n" + (no_read ? "not read\n" : "") +
      "length of the gdb command " + std::to_string(command.size()) + ", of everything " + std::to_string(full.size()) + "\n" +
      (mode == attaches ? "gdb attaches" : mode == exits ? "gdb exits with " + std::to_string(code) : "gdb is killed") + " after " +
      std::to_string(wait) + " * 0.05 s\noff count of the debug object " + std::to_string(off) + "\n" +
      (children ? children == 1 ? "SIGCHLD is ignored\n" : "SIGCHLD is handled\n" : "");
  c.note(note);
  if (xterm.find('%') != xterm.rfind('%') || opt.find('%') != std::string::npos) c.label("more than one percent sign");
  if (impossible) c.label("no debugger set");
  else if (!fits) c.label("too long");
  else { c.label(mode == attaches ? "attaches" : mode == exits ? "exits" : "is killed"); c.nontrivial(note); }
  c.slot->user[0] = impossible ? 1 : !fits ? 2 : mode == attaches ? 3 : 4;
  c.slot->user[1] = mode == exits ? children ? 257 : code : 256; // When the status is lost the code is not known.
  c.slot->user[3] = mode == attaches ? 3 : 4;
  // The stand-ins.
  // Never send a signal to another process.
  std::string g = "[ \"$#\" = " + std::to_string(5 + (has_args ? 2 : 0)) + " ] || exit 97\nfor a; do p=$a; done\n[ \"$p\" = " + std::to_string(pid) + " ] || exit 97\n"
      "printf '%s\\n' $# \"$@\" > ran.tmp\ncp gdb.cmds cmds\nmv ran.tmp ran\n";
  if (wait) g += "sleep 0." + std::string(wait == 1 ? "05" : wait == 2 ? "10" : wait == 3 ? "15" : "20") + "\n";
  if (mode == attaches)
    g += "kill -USR1 $p\ni=0\nwhile [ ! -e done ] && [ $i -lt 600 ]; do sleep 0.02; i=$((i+1)); done\n";
  else if (mode == exits) g += "exit " + std::to_string(code) + "\n";
  else g += "kill -9 $$\n";
  script("gdb", g);
  script("my gdb", g);
  script("term", "[ \"$1\" = -T ] || exit 99\n[ \"$2\" = '" + title + "' ] || exit 99\nif [ \"$3\" = -e ]; then shift 3; \"$@\"; else [ $# = 4 ] || exit 99; sh -c \"$4\"; fi\n");
  if (reuse) ;
  else if (!no_gdb)
    std::ofstream(".libcwdrc") << "silent = on\nchannels_default = off\ngdb = " << gdb << "\nxterm = " << xterm << "\n";
  else
    std::ofstream(".libcwdrc") << "silent = on\nchannels_default = off\nxterm = " << xterm << "\n";
  if (!no_read && !reuse) Debug(read_rcfile());
  signal(SIGUSR1, attached);
  signal(SIGCHLD, children ? children == 1 ? SIG_IGN : reap : SIG_DFL);
  if (children) c.label("SIGCHLD");
  for (int i = 0; i < off; ++i) libcwd::libcw_do.off();
  fflush(nullptr);
  // From here on the process may end.
  struct Buf : std::stringbuf
  {
    Case& c;
    Buf(Case& c_) : c(c_) { }
    int sync() override
    {
      // A message that is written because the program ends.
      std::string s = str();
      str("");
      c.blob(s.data(), s.size());
      return 0;
    }
  };
  static Buf buf(c);
  static std::ostream os(&buf);
  libcwd::libcw_do.set_ostream(&os);
  buf.str("");
  callers[round]();
  std::ofstream("done") << "\n";
  std::string text = buf.str();
  c.check(!impossible, "settings", "there was no debugger to start but nothing was reported");
  c.check(mode == attaches, "failure", "the debugger did not attach but that was not reported: " + quote(text));
  c.check(libcwd_attach_gdb_hook == 0, "hook", "the program continued before the debugger was attached");
  c.check(!off || text.empty(), "quiet", "written while the debug object is off: " + quote(text));
  // What was executed.
  std::string want = std::to_string(5 + (has_args ? 2 : 0)) + "\n";
  if (has_args) want += "--opt\n" + opt + "\n";
  want += "-n\n-x\ngdb.cmds\n/proc/" + std::to_string(pid) + "/exe\n" + std::to_string(pid) + "\n";
  std::string ran = slurp("ran");
  c.check(ran == want, "command", "the debugger was started with " + quote(ran) + " instead of " + quote(want));
  // What it was told to do.
  std::istringstream cmds(slurp("cmds"));
  uintptr_t at = 0;
  bool hook = false;
  int breaks = 0;
  std::string last;
  for (std::string l; std::getline(cmds, l); last = l)
  {
    size_t p = l.find(" *0x");
    if ((l[0] == 'b' || l[0] == 't') && p != std::string::npos) ++breaks, at = std::stoul(l.substr(p + 2), nullptr, 16);
    if (l.compare(0, 3, "set") == 0 && l.find("libcwd_attach_gdb_hook") != std::string::npos && l.find("=0") != std::string::npos) hook = true;
  }
  c.check(at > (uintptr_t)callers[round] && at < (uintptr_t)behind, "break", "the debugger does not stop behind the call of attach_gdb()");
  c.check(breaks == 1, "break", "the debugger stops at " + std::to_string(breaks) + " places");
  c.check(hook && (last == "c" || last == "continue"), "continue", "the debugger does not let the program continue: " + quote(slurp("cmds")));
  // The state of the debug object is the same.
  LIBCWD_TSD_DECLARATION;
  for (int i = 0; i < off; ++i)
  {
    c.check(!libcwd::libcw_do.is_on(LIBCWD_TSD), "state", "the debug object came on too early");
    libcwd::libcw_do.on();
  }
  c.check(libcwd::libcw_do.is_on(LIBCWD_TSD), "state", "the debug object did not come on");
  if (!off)
  {
    libcwd::libcw_do.off();
    c.check(!libcwd::libcw_do.is_on(LIBCWD_TSD), "state", "the debug object was on more than once");
  }
  // The debugger detaches, and is attached once more.
  if (off) libcwd::libcw_do.off();
  libcwd::libcw_do.on();
  return !round && c.chance(1, 3);
}

static void body(Case& c)
{
  std::string dir = scratch();
  unlink("gdb.cmds");
  libcwd::libcw_do.on();
  std::ostringstream out;
  libcwd::libcw_do.set_ostream(&out);
  for (int round = 0;; ++round)
    if (!attempt(c, dir, round)) break;
  c.slot->user[2] = 1;
  _exit(0);
}

static void verify_end(Case& c, int status)
{
  auto& u = c.slot->user;
  std::string text = c.blob_text();
  bool returned = u[2] && WIFEXITED(status) && WEXITSTATUS(status) == 0;
  std::string how = "status " + std::to_string(status) + ", output " + quote(text);
  int end = u[0];
  // There may be a limit, but then it is reported.
  if (end == 2 && !(WIFEXITED(status) && WEXITSTATUS(status) == 180)) end = u[3];
  switch (end)
  {
    case 1: c.check(WIFEXITED(status) && WEXITSTATUS(status) == 180 && text.find("FATAL") != std::string::npos && text.find("gdb") != std::string::npos, "settings", "no report of the missing setting: " + how); break;
    case 2: c.check(text.find("FATAL") != std::string::npos && text.find("too long") != std::string::npos, "settings", "no report of what is too long: " + how); break;
    case 3: c.check(returned, "end", "the program did not continue: " + how); break;
    case 4:
      c.check(WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT && text.find("COREDUMP") != std::string::npos && text.find("Failed to start gdb") != std::string::npos, "failure", "no report that the debugger ended: " + how);
      if (u[1] == 257) c.check(text.find("exit code") == std::string::npos, "failure", "an exit code that is not known is reported: " + how);
      else if (u[1] < 256) c.check(text.find("exit code " + std::to_string(u[1]) + " ") != std::string::npos, "failure", "not reported with exit code " + std::to_string(u[1]) + ": " + how);
      break;
  }
}

int main(int argc, char** argv)
{
  auto cfg = config("R04", 1200, "the settings are fine and the debugger is started");
  cfg.body = body;
  cfg.verify = verify_end;
  cfg.case_timeout = 60;
  return pbt::Runner(cfg).main(argc, argv);
}
