// Debug output before main, in destructors of thread_local and static objects, in exit handlers and after that.
//
// A program (this one, executed again) gets a plan: what to do in every phase of its life and that of its threads. What it writes
// is compared with a model, and the memory that is in use after many threads came and went must not grow.
#include "sys.h"
#include "debug.h"
#include "pbt.h"
#include <atomic>
#include <malloc.h>
#include <mutex>
#include <poll.h>
#include <sys/wait.h>
#include <thread>

using pbt::quote;

// Operations: n N w W: notice and warning on and off; d D: object on and off; i I: indent; m: another margin; p q: print on notice
// and on warning; c: continued output; l: the location of a function; f: search and list the channels; u o: push and pop margin and marker; F: forced output, in whatever state. Only legal sequences are generated.
struct Thr
{
  std::string pre, run, post;   // Destructors of objects that were made before and after the first debug code of the thread.
};
struct Plan
{
  std::string early, start, tl, at_exit, statics, fini;
  std::vector<Thr> threads;
  bool concurrent = false, background = false, leak = false;
  int rounds = 1;
};

//------------------------------------------------------------------------------------------------------------------------------
// The program.

namespace prog {

extern "C" __attribute__((noinline)) int e13_target(int x)
{
  asm volatile("" : "+r"(x));
  return x + 1;
}

constexpr int out_fd = 300;
std::mutex* mx;

struct Buf : std::streambuf
{
  void put(char const* p, size_t n)
  {
    while (n > 0)
    {
      ssize_t r = write(out_fd, p, n);
      if (r <= 0) _exit(90);
      p += r; n -= r;
    }
  }
  std::streamsize xsputn(char const* p, std::streamsize n) override { put(p, n); return n; }
  int overflow(int c) override { char b = c; put(&b, 1); return c; }
};

void run(char const* s, char const* id)
{
  using namespace libcwd;
  int k = 0;
  for (; *s; ++s)
    switch (*s)
    {
      case 'n': Debug(dc::notice.on()); break;
      case 'N': Debug(dc::notice.off()); break;
      case 'w': Debug(dc::warning.on()); break;
      case 'W': Debug(dc::warning.off()); break;
      case 'd': Debug(libcw_do.on()); break;
      case 'D': Debug(libcw_do.off()); break;
      case 'i': Debug(libcw_do.inc_indent(2)); break;
      case 'I': Debug(libcw_do.dec_indent(2)); break;
      case 'm': Debug(libcw_do.margin().assign(*id == 'M' ? "[M] " : "[w] ")); break;
      case 'u': Debug(libcw_do.push_margin(); libcw_do.push_marker()); break;
      case 'o': Debug(libcw_do.pop_margin(); libcw_do.pop_marker()); break;
      case 'p': Dout(dc::notice, "#" << id << '#' << k++); break;
      case 'q': Dout(dc::warning, "#" << id << '#' << k++); break;
      case 'c':
        Dout(dc::notice|continued_cf, "#" << id << '#' << k++ << "...");
        Dout(dc::finish, "done");
        break;
      case 'l':
      {
        Location loc((char*)&e13_target + 4);
        Dout(dc::notice, "#" << id << '#' << k++ << ' ' << (loc.is_known() ? "known" : "unknown") << ' ' << loc.mangled_function_name());
        break;
      }
      case 'f':
      {
        Channel* found = find_channel("noti");
        int count = 0, right = 0, objects = 0;
        ForAllDebugChannels(++count; right += &debugChannel == found);
        ForAllDebugObjects(objects += &debugObject == &libcw_do);
        Dout(dc::notice, "#" << id << '#' << k++ << (found == &libcwd::channels::dc::notice && right == 1 && count > 4 && objects == 1 ? " found" : " lost"));
        break;
      }
      case 'F':
      {
        LibcwDebug(libcwd::channels, DebugObject::OnOffState st; libcw_do.force_on(st); while (!dc::notice.is_on()) dc::notice.on());
        Dout(dc::notice, "#" << id << '#' << k++);
        break;
      }
    }
}

// The plan is in the environment: fields that are separated by commas.
char const* field(int n)
{
  static char buf[40][200];
  char const* p = getenv("VP_E13");
  if (!p) return "";
  for (; n > 0; --n)
  {
    p = strchr(p, ',');
    if (!p) return "";
    ++p;
  }
  size_t len = strcspn(p, ",");
  static std::atomic<int> at{0};
  char* b = buf[at++ % 40];
  memcpy(b, p, len < 199 ? len : 199);
  b[len < 199 ? len : 199] = 0;
  return b;
}

struct Object
{
  char const* s = "";
  char const* id = "";
  ~Object() { run(s, id); }
};
Object& tl_pre() { static thread_local Object o; return o; }
Object& tl_post() { static thread_local Object o; return o; }
Object& tl_main() { static thread_local Object o; return o; }

char const* g_exit;
char const* g_fini = "";

__attribute__((constructor(101))) void early()
{
  if (!getenv("VP_E13")) return;
  alignas(Buf) static char b[sizeof(Buf)];
  alignas(std::ostream) static char o[sizeof(std::ostream)];
  alignas(std::mutex) static char m[sizeof(std::mutex)];
  mallopt(M_ARENA_MAX, 1);
  mx = new (m) std::mutex;
  libcwd::libcw_do.set_ostream(new (o) std::ostream(new (b) Buf), mx);
  run(field(1), "M0");
}
__attribute__((destructor(101))) void fini()
{
  run(g_fini, "M5");
}

void thread_main(char const* pre, char const* r, char const* post, char const* id, char const* id_pre, char const* id_post)
{
  if (*pre) tl_pre().s = pre, tl_pre().id = id_pre;
  run(r, id);
  if (*post) tl_post().s = post, tl_post().id = id_post;
}

int main()
{
  char const* flags = field(0);
  if (strchr(flags, 'm')) Debug(main_reached());
  run(field(2), "M1");
  if (*field(3)) tl_main().s = field(3), tl_main().id = "M2";
  static Object at_static;
  at_static.s = field(5);
  at_static.id = "M4";
  g_exit = field(4);
  if (*g_exit) atexit([] { run(g_exit, "M3"); });
  g_fini = field(6);
  int n = atoi(field(7)), rounds = atoi(field(8));
  static char ids[8][3][8];
  char const* scripts[8][3];
  for (int i = 0; i < n; ++i)
    for (int k = 0; k < 3; ++k)
    {
      snprintf(ids[i][k], 8, "%c%d", "rab"[k], i);
      scripts[i][k] = field(9 + 3 * i + k);
    }
  size_t used = 0;
  for (int r = 0; r < rounds; ++r)
  {
    std::vector<std::thread> v;
    for (int i = 0; i < n; ++i)
    {
      v.emplace_back(thread_main, scripts[i][1], scripts[i][0], scripts[i][2], ids[i][0], ids[i][1], ids[i][2]);
      if (!strchr(flags, 'c')) v.back().join();
    }
    for (auto& t : v)
      if (t.joinable()) t.join();
    v.clear();
    v.shrink_to_fit();
    if (r == 2) used = mallinfo2().uordblks;
  }
  if (rounds > 3 && strchr(flags, 'l'))
  {
    size_t now = mallinfo2().uordblks;
    if (now > used + 200 * (rounds - 3) * n)
      dprintf(out_fd, "LEAK %zu bytes by %d threads\n", now - used, (rounds - 3) * n);
  }
  if (strchr(flags, 'b'))
  {
    static std::atomic<int> started{0};
    std::thread([] {
      Debug(libcw_do.on());
      Debug(dc::notice.on());
      for (int k = 0;; ++k)
      {
        Dout(dc::notice, "#bg#" << k);
        started = 1;
        if (k % 16 == 0) usleep(100);
      }
    }).detach();
    while (!started) sched_yield();
  }
  dprintf(out_fd, "EXIT\n");
  return 0;
}

} // namespace prog

//------------------------------------------------------------------------------------------------------------------------------
// The model.

struct State
{
  int notice = 0, warning = 0, obj = 0; // -1: on.
  int indent = 0;
  bool known = false;           // Locations are.
  std::string margin;
  std::vector<std::string> stack;
};

struct Expect
{
  std::map<std::string, std::vector<std::string>> lines; // Per "thread".
};

// Draws legal operations and records what they write.
static std::string gen(pbt::Case& c, State& s, std::string const& id, int max, Expect& e, bool main_thread)
{
  std::string r;
  int k = 0, n = c.small(0, max);
  auto print = [&](char const* label, int chan, char const* tail) {
    if (s.obj < 0 && chan < 0)
      e.lines[main_thread ? "M" : id.substr(1)].push_back(s.margin + label + std::string(s.indent, ' ') + "#" + id + "#" + std::to_string(k++) + tail);
  };
  for (int i = 0; i < n; ++i)
  {
    char op = "nwdpqpqciINWDmlfuo"[c.draw(17)];
    switch (op)
    {
      case 'n': if (s.notice < 0) continue; --s.notice; break;
      case 'w': if (s.warning < 0) continue; --s.warning; break;
      case 'd': if (s.obj < 0) continue; --s.obj; break;
      case 'N': if (s.notice > 2) continue; ++s.notice; break;
      case 'W': if (s.warning > 2) continue; ++s.warning; break;
      case 'D': if (s.obj > 2) continue; ++s.obj; break;
      case 'i': s.indent += 2; break;
      case 'I': if (s.indent < 2) continue; s.indent -= 2; break;
      case 'm': s.margin = main_thread ? "[M] " : "[w] "; break;
      case 'p': print("NOTICE  : ", s.notice, ""); break;
      case 'q': print("WARNING : ", s.warning, ""); break;
      case 'l': print("NOTICE  : ", s.notice, s.known ? " known e13_target" : " unknown e13_target"); break;
      case 'c': print("NOTICE  : ", s.notice, "...done"); break;
      case 'u': s.stack.push_back(s.margin); break;
      case 'o': if (s.stack.empty()) continue; s.margin = s.stack.back(); s.stack.pop_back(); break;
      case 'f': print("NOTICE  : ", s.notice, " found"); break;
    }
    r += op;
  }
  return r;
}

static void body(pbt::Case& c)
{
  Plan p;
  Expect e;
  State m;
  m.warning = -1;
  p.early = gen(c, m, "M0", 12, e, true);
  bool reached = m.known = c.chance(3, 4);
  p.start = gen(c, m, "M1", 12, e, true);
  int n = c.small(0, 4);
  p.concurrent = n > 1 && c.coin();
  p.leak = n > 0 && c.chance(1, 3);
  p.rounds = p.leak ? 8 : 1;
  bool any = false;
  for (int i = 0; i < n; ++i)
  {
    Thr t;
    Expect x;
    State s;
    s.known = reached;
    std::string num = std::to_string(i);
    t.run = gen(c, s, "r" + num, 14, x, false);
    if (c.chance(2, 3)) t.post = gen(c, s, "b" + num, 8, x, false);
    // What comes last starts with a state that is not specified.
    if (!p.leak && c.chance(1, 3))
    {
      int f = c.range(1, 3);
      t.pre = std::string(f, 'F');
      // The counter continues.
      for (int k = 0; k < f; ++k) x.lines[num].push_back("*NOTICE  : ?#a" + num + "#" + std::to_string(k));
    }
    if (!t.post.empty() || !t.pre.empty()) any = true;
    for (int r = 0; r < p.rounds; ++r)
      e.lines[num].insert(e.lines[num].end(), x.lines[num].begin(), x.lines[num].end());
    p.threads.push_back(t);
  }
  // The order of the end: objects of the main thread, exit handlers in reverse order, functions that are marked as destructor.
  if (c.chance(2, 3)) p.tl = gen(c, m, "M2", 8, e, true);
  if (c.chance(2, 3)) p.at_exit = gen(c, m, "M3", 8, e, true);
  if (c.chance(2, 3)) p.statics = gen(c, m, "M4", 8, e, true);
  if (c.chance(2, 3)) p.fini = gen(c, m, "M5", 8, e, true);
  p.background = c.chance(1, 5);
  std::string flags = std::string("-") + (p.concurrent ? "c" : "") + (p.background ? "b" : "") + (p.leak ? "l" : "") + (reached ? "m" : "");
  std::string plan = flags + "," + p.early + "," + p.start + "," + p.tl + "," + p.at_exit + "," + p.statics + "," + p.fini + "," + std::to_string(n) + "," + std::to_string(p.rounds);
  for (auto& t : p.threads) plan += "," + t.run + "," + t.pre + "," + t.post;
  c.note("plan " + plan);
  if (any || !(p.tl + p.at_exit + p.statics + p.fini).empty()) c.nontrivial(plan);
  if (any) c.label("thread end");
  if (!p.early.empty()) c.label("before main");
  if (p.leak) c.label("many threads");
  if (p.background) c.label("thread that runs while the program ends");
  // Run it.
  int fd[2];
  if (pipe(fd)) c.fail("harness", "pipe");
  pid_t pid = fork();
  if (pid == 0)
  {
    alarm(15);
    dup2(fd[1], prog::out_fd);
    close(fd[0]); close(fd[1]);
    setenv("VP_E13", plan.c_str(), 1);
    execl("/proc/self/exe", "e13", "--program", nullptr);
    _exit(91);
  }
  close(fd[1]);
  std::string out;
  char b[65536];
  for (ssize_t r; (r = read(fd[0], b, sizeof b)) > 0;)
    if (out.size() < 4000000) out.append(b, r);
  close(fd[0]);
  int status;
  waitpid(pid, &status, 0);
  std::map<std::string, std::vector<std::string>> got;
  bool exited = false;
  std::istringstream is(out);
  for (std::string l; std::getline(is, l);)
  {
    if (l == "EXIT") { exited = true; continue; }
    if (l.compare(0, 4, "LEAK") == 0) c.fail("leak", "memory is not released at the end of threads: " + l);
    size_t h = l.find('#');
    if (h == std::string::npos || h + 1 >= l.size())
    {
      if (p.background && is.eof()) continue;
      c.fail("output", "an unexpected line " + quote(l));
    }
    std::string id = l.substr(h + 1, l.find('#', h + 1) - h - 1);
    if (id.compare(0, 1, "b") == 0 && id.compare(0, 2, "bg") == 0) continue;
    got[id[0] == 'M' ? "M" : id.substr(1)].push_back(l);
  }
  c.check(WIFEXITED(status) && WEXITSTATUS(status) == 0, "end", WIFSIGNALED(status) ? "the program ended with signal " + std::to_string(WTERMSIG(status)) : "the program ended with exit code " + std::to_string(WEXITSTATUS(status)));
  c.check(exited, "end", "main was not finished");
  auto fits = [](std::string const& want, std::string const& have) {
    if (want[0] != '*') return want == have;
    size_t q = want.find('?');
    std::string label = want.substr(1, q - 1), tail = want.substr(q + 1);
    return have.find(label) != std::string::npos && have.size() >= tail.size() && have.compare(have.size() - tail.size(), tail.size(), tail) == 0;
  };
  for (auto& [id, v] : got) e.lines[id];
  for (auto& [id, v] : e.lines)
  {
    auto& g = got[id];
    for (size_t i = 0; i < std::max(v.size(), g.size()); ++i)
    {
      std::string want = i < v.size() ? v[i] : "(nothing)", have = i < g.size() ? g[i] : "(nothing)";
      c.check(i < v.size() && i < g.size() && fits(want, have), "output", (id == "M" ? "the main thread" : "thread " + id) + " wrote " + quote(have) + " instead of " + quote(want));
    }
  }
}

int main(int argc, char** argv)
{
  if (argc > 1 && !strcmp(argv[1], "--program"))
    return prog::main();
  pbt::Config cfg;
  cfg.property = "E13";
  cfg.body = body;
  cfg.quick_cases = 6000;
  cfg.thorough_cases = 300000;
  cfg.nondeterministic = true;
  cfg.rule = "something is executed at the end of a thread or of the program";
  return pbt::Runner(cfg).main(argc, argv);
}
