// A small choice-sequence property-based testing engine.
//
// A case is a pure function of a finite sequence of bounded choices. In search mode the choices come from a PRNG that is
// a pure function of (seed, case index); they are recorded in shared memory as they are drawn, so that they survive a
// crash of the code under test. A failing sequence is shrunk (delete / zero / minimise choices) by re-running candidates
// in child processes, is replayed three times, and is then written out as the replay file.
#pragma once
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <poll.h>
#include <signal.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <time.h>
#include <cerrno>
#include <cmath>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <memory>
#include <vector>

namespace pbt {

inline constexpr uint32_t max_choices = 1 << 15;
inline constexpr uint32_t max_note = 1 << 16;
inline constexpr uint32_t max_blob = 1 << 21;

struct Slot
{
  std::atomic<uint32_t> running; // Nonzero while a case body is executing.
  uint64_t index;
  uint32_t nchoices;
  uint64_t choices[max_choices];
  uint32_t notelen;
  char note[max_note];
  uint32_t failed;
  char kind[128];
  char msg[16384];
  uint32_t nontrivial;
  uint64_t hash;
  uint32_t discarded;
  uint32_t labelslen;
  char labels[8192];
  uint32_t expect_kind; // 0: plain _exit(0); 1: exit code; 2: signal; 3: decided by verify.
  int expect_value;
  std::atomic<uint32_t> bloblen;
  char blob[max_blob];
  std::atomic<uint64_t> user[16]; // Scratch words for the harness.
};

struct Global
{
  std::atomic<uint32_t> stop;
  std::atomic<uint64_t> evaluations;
  std::atomic<uint64_t> discarded;
};

struct Rng
{
  uint64_t s;
  uint64_t next()
  {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
};

inline uint64_t fnv(void const* p, size_t n, uint64_t h = 1469598103934665603ULL)
{
  auto b = static_cast<unsigned char const*>(p);
  for (size_t i = 0; i < n; ++i)
    h = (h ^ b[i]) * 1099511628211ULL;
  return h;
}
inline uint64_t fnv(std::string const& s, uint64_t h = 1469598103934665603ULL) { return fnv(s.data(), s.size(), h); }

struct Failure
{
  std::string kind, msg;
};
struct Discard
{
};

class Case
{
 public:
  Slot* slot;
  bool replaying = false;
  std::vector<uint64_t> script;
  size_t pos = 0;
  Rng rng{0};
  int size = 100; // 0..100: how large generated things should be.
  uint64_t index = 0;

  // A choice in [0, bound].
  uint64_t draw(uint64_t bound)
  {
    uint64_t v;
    if (replaying)
    {
      v = pos < script.size() ? script[pos] : 0;
      ++pos;
      if (v > bound)
        v = bound;
    }
    else
      v = bound == ~0ULL ? rng.next() : rng.next() % (bound + 1);
    record(v);
    return v;
  }
  void record(uint64_t v)
  {
    if (slot->nchoices < max_choices)
      slot->choices[slot->nchoices++] = v;
    else if (!replaying)
      throw Discard();
  }
  // [lo, hi]; shrinks towards lo.
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo)); }
  // True with probability num/den; shrinks towards false.
  bool chance(int num, int den)
  {
    return draw(den - 1) >= (uint64_t)(den - num);
  }
  bool coin() { return draw(1); }
  // Small sizes are more likely. [lo, hi]
  int64_t small(int64_t lo, int64_t hi)
  {
    if (hi <= lo)
      return lo;
    uint64_t span = hi - lo;
    switch (draw(3))
    {
      case 0: return lo + draw(span < 2 ? span : 2);
      case 1: return lo + draw(span < 5 ? span : 5);
      case 2: return lo + draw(span / 3 + 1 <= span ? span / 3 + 1 : span);
      default: return lo + draw(span);
    }
  }
  template<class T> T const& pick(std::vector<T> const& v) { return v[draw(v.size() - 1)]; }
  template<class T, size_t N> T const& pick(T const (&v)[N]) { return v[draw(N - 1)]; }
  // Index chosen with the given weights.
  int weighted(std::initializer_list<int> w)
  {
    int64_t total = 0;
    for (int x : w)
      total += x;
    int64_t r = draw(total - 1);
    int i = 0;
    for (int x : w)
    {
      if (r < x)
        return i;
      r -= x;
      ++i;
    }
    return 0;
  }

  void note(std::string const& s)
  {
    uint32_t n = s.size();
    if (slot->notelen + n + 1 >= max_note)
      return;
    memcpy(slot->note + slot->notelen, s.data(), n);
    slot->notelen += n;
    slot->note[slot->notelen++] = '\n';
  }
  void label(std::string const& s)
  {
    uint32_t n = s.size();
    if (slot->labelslen + n + 1 >= sizeof(slot->labels))
      return;
    memcpy(slot->labels + slot->labelslen, s.data(), n);
    slot->labelslen += n;
    slot->labels[slot->labelslen++] = '\n';
  }
  // Declare this case non-trivial; the hash identifies it for the distinct count.
  void nontrivial(uint64_t h)
  {
    slot->nontrivial = 1;
    slot->hash = h;
  }
  void nontrivial(std::string const& s) { nontrivial(fnv(s)); }
  [[noreturn]] void fail(std::string const& kind, std::string const& msg) { throw Failure{kind, msg}; }
  void check(bool ok, std::string const& kind, std::string const& msg)
  {
    if (!ok)
      fail(kind, msg);
  }
  [[noreturn]] void discard() { throw Discard(); }
  // Append to the blob; async-signal-safe and visible to verify().
  void blob(char const* p, size_t n)
  {
    uint32_t at = slot->bloblen.fetch_add(n);
    if (at + n <= max_blob)
      memcpy(slot->blob + at, p, n);
  }
  std::string blob_text() const { uint32_t n = slot->bloblen; return std::string(slot->blob, n < max_blob ? n : max_blob); }
};

inline std::string quote(std::string const& s)
{
  std::string r = "\"";
  for (unsigned char c : s)
  {
    char b[8];
    if (c == '\n') r += "\\n";
    else if (c == '\t') r += "\\t";
    else if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
inline std::string json_str(std::string const& s)
{
  std::string r = "\"";
  for (unsigned char c : s)
  {
    char b[8];
    if (c == '\n') r += "\\n";
    else if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

struct Config
{
  std::string property;
  std::function<void(Case&)> body;                        // Runs the code under test and throws Failure.
  std::function<void(Case&, int status)> verify = {};     // Fork mode: runs in the parent after the child ended.
  bool fork_per_case = false;
  uint64_t quick_cases = 10000, thorough_cases = 1000000;
  double case_timeout = 20;                               // Seconds.
  bool nondeterministic = false; // The oracle is sound for every schedule: one observation suffices.
  bool timeout_is_failure = true;
  size_t rlimit_as_mb = 0;
  std::string rule;
  int workers = 8;
  std::vector<std::string> assumptions = {};
};

inline double now()
{
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

class Runner
{
  Config cfg;
  Global* g;
  uint64_t seed = 1;
  bool thorough = false;
  uint64_t ncases = 0;
  double deadline = 0;
  bool verbose = false;

  template<class T> static T* share(size_t n = 1)
  {
    void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED)
    {
      perror("mmap");
      _exit(2);
    }
    return static_cast<T*>(p);
  }
  static void reset(Slot* s)
  {
    s->nchoices = 0;
    s->notelen = 0;
    s->failed = 0;
    s->kind[0] = s->msg[0] = 0;
    s->nontrivial = 0;
    s->discarded = 0;
    s->labelslen = 0;
    s->expect_kind = 0;
    s->expect_value = 0;
    s->bloblen = 0;
    for (auto& u : s->user) u = 0;
  }
  static void set_fail(Slot* s, std::string const& kind, std::string const& msg)
  {
    s->failed = 1;
    snprintf(s->kind, sizeof s->kind, "%s", kind.c_str());
    snprintf(s->msg, sizeof s->msg, "%s", msg.c_str());
  }
  // Run the body in this process.
  void run_body(Case& c)
  {
    c.slot->running = 1;
    try
    {
      if (c.replaying)
        c.size = (int)c.draw(100);
      else
        c.record(c.size);
      cfg.body(c);
    }
    catch (Failure const& f)
    {
      set_fail(c.slot, f.kind, f.msg);
    }
    catch (Discard const&)
    {
      c.slot->discarded = 1;
    }
    c.slot->running = 0;
  }
  static std::string describe(int status)
  {
    char b[64];
    if (WIFSIGNALED(status))
      snprintf(b, sizeof b, "signal %d (%s)", WTERMSIG(status), strsignal(WTERMSIG(status)));
    else
      snprintf(b, sizeof b, "exit status %d", WEXITSTATUS(status));
    return b;
  }
  // Run one case in a child; afterwards the slot says what happened.
  // stderr of the child goes to a temp file whose tail is added to the message on abnormal ends.
  void run_child(Case& c, double timeout)
  {
    reset(c.slot);
    int efd = memfd_create("err", 0);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
      dup2(efd, 2);
      if (cfg.rlimit_as_mb)
      {
        rlimit rl{cfg.rlimit_as_mb << 20, cfg.rlimit_as_mb << 20};
        setrlimit(RLIMIT_AS, &rl);
      }
      rlimit nocore{0, 0};
      setrlimit(RLIMIT_CORE, &nocore);
      setpgid(0, 0);
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      run_body(c);
      _exit(0);
    }
    int status = 0;
    bool timed_out = wait_for(pid, timeout, status);
    bool was_running = c.slot->running;
    c.slot->running = 0;
    if (timed_out)
    {
      if (cfg.timeout_is_failure)
        set_fail(c.slot, "timeout", "the case did not end within " + std::to_string(timeout) + " s");
      else
        c.slot->discarded = 1;
    }
    else if (c.slot->failed || c.slot->discarded)
      ;
    else if (cfg.verify)
    {
      try
      {
        cfg.verify(c, status);
      }
      catch (Failure const& f)
      {
        set_fail(c.slot, f.kind, f.msg);
      }
      catch (Discard const&)
      {
        c.slot->discarded = 1;
      }
    }
    else
    {
      bool ok = c.slot->expect_kind == 0 ? (WIFEXITED(status) && WEXITSTATUS(status) == 0 && !was_running)
              : c.slot->expect_kind == 1 ? (WIFEXITED(status) && WEXITSTATUS(status) == c.slot->expect_value)
                                         : (WIFSIGNALED(status) && WTERMSIG(status) == c.slot->expect_value);
      if (!ok)
        set_fail(c.slot, "crash", "the process ended with " + describe(status));
    }
    if (c.slot->failed)
    {
      off_t n = lseek(efd, 0, SEEK_END);
      if (n > 0)
      {
        std::string err(n > 6000 ? 6000 : n, 0);
        if (pread(efd, err.data(), err.size(), 0) < 0)
          err = "";
        std::string m = std::string(c.slot->msg) + "\n--- stderr of the case (start) ---\n" + err;
        snprintf(c.slot->msg, sizeof c.slot->msg, "%s", m.c_str());
      }
    }
    close(efd);
  }
  static bool wait_for(pid_t pid, double timeout, int& status)
  {
    // Poll with pidfd to avoid signals.
    int pfd = (int)syscall_pidfd_open(pid);
    bool timed_out = false;
    if (pfd >= 0)
    {
      pollfd p{pfd, POLLIN, 0};
      int r;
      double end = now() + timeout;
      do
      {
        int ms = (int)((end - now()) * 1000);
        r = poll(&p, 1, ms < 0 ? 0 : ms);
      } while (r < 0 && errno == EINTR);
      timed_out = r == 0;
      close(pfd);
    }
    if (timed_out)
    {
      kill(-pid, SIGKILL);
      kill(pid, SIGKILL);
    }
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR)
      ;
    if (timed_out)
      return true;
    kill(-pid, SIGKILL); // Any stragglers of its group.
    return false;
  }
  static long syscall_pidfd_open(pid_t pid)
  {
#ifndef SYS_pidfd_open
    return syscall(434, pid, 0);
#else
    return syscall(SYS_pidfd_open, pid, 0);
#endif
  }
  void prepare(Case& c, uint64_t i)
  {
    c.rng.s = seed * 0x9e3779b97f4a7c15ULL ^ (i + 1) * 0xd1342543de82ef95ULL;
    c.rng.next();
    c.replaying = false;
    c.pos = 0;
    c.index = i;
    c.size = (int)(i % 97 * 100 / 96);
    c.slot->index = i;
  }
  // Run a scripted case in a child. True if it fails.
  bool replay(Slot* s, std::vector<uint64_t> const& choices, double timeout)
  {
    Case c;
    c.slot = s;
    c.replaying = true;
    c.script = choices;
    run_child(c, timeout);
    return s->failed;
  }

  struct Stats
  {
    std::map<std::string, uint64_t> labels;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    uint64_t nontrivial = 0;
  };

  void worker(int w, Slot* s, int out)
  {
    Stats st;
    Case c;
    c.slot = s;
    for (uint64_t i = w; i < ncases && !g->stop; i += cfg.workers)
    {
      if (deadline && now() > deadline)
        break;
      prepare(c, i);
      if (cfg.fork_per_case)
        run_child(c, cfg.case_timeout);
      else
      {
        reset(s);
        alarm_guard();
        run_body(c);
      }
      g->evaluations++;
      if (s->discarded)
        g->discarded++;
      else if (s->nontrivial)
      {
        ++st.nontrivial;
        bool fresh = st.distinct.insert(s->hash).second;
        if (fresh && (st.samples.size() < 2 || (st.samples.size() < 4 && i % 101 < 8)))
        {
          std::string t(s->note, s->notelen);
          if (t.size() > 1200)
            t = t.substr(0, 1200) + "...";
          st.samples.push_back(t);
        }
      }
      if (s->labelslen && !s->discarded)
      {
        std::istringstream is(std::string(s->labels, s->labelslen));
        std::string l;
        std::set<std::string> seen;
        while (std::getline(is, l))
          seen.insert(l);
        for (auto& x : seen)
          ++st.labels[x];
      }
      if (s->failed)
      {
        g->stop = 1;
        break;
      }
    }
    alarm(0);
    std::ostringstream os;
    os << st.nontrivial << '\n' << st.labels.size() << '\n';
    for (auto& [k, v] : st.labels)
      os << v << ' ' << k << '\n';
    os << st.distinct.size() << '\n';
    for (auto h : st.distinct)
      os << h << '\n';
    os << st.samples.size() << '\n';
    for (auto& x : st.samples)
      os << json_str(x) << '\n';
    std::string t = os.str();
    size_t off = 0;
    while (off < t.size())
    {
      ssize_t r = write(out, t.data() + off, t.size() - off);
      if (r <= 0)
        break;
      off += r;
    }
    _exit(0);
  }
  void alarm_guard()
  {
    // In-process mode: SIGALRM's default action kills the worker; the driver then sees a case that was running.
    alarm((unsigned)std::ceil(cfg.case_timeout));
  }

 public:
  Runner(Config c) : cfg(std::move(c)) { g = share<Global>(); }

  static std::vector<uint64_t> read_choices(std::string const& path)
  {
    std::ifstream f(path);
    std::string t((std::istreambuf_iterator<char>(f)), {});
    std::vector<uint64_t> v;
    size_t p = t.find("\"choices\"");
    if (p == std::string::npos)
      return v;
    p = t.find('[', p);
    while (p != std::string::npos && t[p] != ']')
    {
      ++p;
      while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == ','))
        ++p;
      if (p >= t.size() || t[p] == ']')
        break;
      char* e;
      v.push_back(strtoull(t.c_str() + p, &e, 10));
      p = e - t.c_str();
    }
    return v;
  }

  std::vector<uint64_t> shrink(Slot* s, std::vector<uint64_t> best, std::string const& kind, double budget)
  {
    double end = now() + budget;
    double to = kind == "timeout" ? cfg.case_timeout : cfg.case_timeout;
    auto attempt = [&](std::vector<uint64_t> const& cand) {
      if (now() > end)
        return false;
      if (replay(s, cand, to) && kind == s->kind)
      {
        best.assign(s->choices, s->choices + s->nchoices);
        if (best.size() > cand.size())
          best.resize(cand.size());
        while (!best.empty() && best.back() == 0)
          best.pop_back();
        return true;
      }
      return false;
    };
    if (kind == "timeout")
      return best;
    bool improved = true;
    while (improved && now() < end)
    {
      improved = false;
      for (size_t len = best.size(); len >= 1; len = len > 8 ? len / 2 : len - 1)
        for (size_t at = 0; at + len <= best.size() && now() < end;)
        {
          auto cand = best;
          cand.erase(cand.begin() + at, cand.begin() + at + len);
          size_t before = best.size();
          if (attempt(cand) && best.size() < before)
            improved = true;
          else
            at += len > 8 ? len : 1;
        }
      for (size_t len = 16; len >= 1; len /= 2)
        for (size_t at = 0; at < best.size() && now() < end; at += len)
        {
          auto cand = best;
          bool nz = false;
          for (size_t k = at; k < at + len && k < cand.size(); ++k)
          {
            nz |= cand[k] != 0;
            cand[k] = 0;
          }
          if (nz && attempt(cand))
            improved = true;
        }
      for (size_t at = 0; at < best.size() && now() < end; ++at)
      {
        uint64_t lo = 0, hi = best[at];
        int guard = 0;
        while (lo < hi && at < best.size() && now() < end && guard++ < 70)
        {
          uint64_t mid = lo + (hi - lo) / 2;
          auto cand = best;
          cand[at] = mid;
          if (attempt(cand))
          {
            improved = true;
            if (at >= best.size())
              break;
            hi = best[at] < mid ? best[at] : mid;
          }
          else
            lo = mid + 1;
        }
      }
      // Try lowering one choice while deleting the following one.
      for (size_t at = 0; at + 1 < best.size() && now() < end; ++at)
        if (best[at] > 0)
        {
          auto cand = best;
          --cand[at];
          cand.erase(cand.begin() + at + 1);
          if (attempt(cand))
            improved = true;
        }
    }
    return best;
  }

  int main(int argc, char** argv)
  {
    std::string evidence, replay_out = "replay.json", replay_in;
    double time_cap = 0;
    if (char const* s = getenv("VERIF_SEED"))
      seed = strtoull(s, nullptr, 10);
    if (char const* t = getenv("VERIF_TIER"))
      thorough = !strcmp(t, "thorough");
    ncases = 0;
    for (int i = 1; i < argc; ++i)
    {
      std::string a = argv[i];
      auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
      if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
      else if (a == "--cases") ncases = strtoull(val().c_str(), nullptr, 10);
      else if (a == "--evidence") evidence = val();
      else if (a == "--replay-out") replay_out = val();
      else if (a == "--replay") replay_in = val();
      else if (a == "--workers") cfg.workers = atoi(val().c_str());
      else if (a == "--time-cap") time_cap = atof(val().c_str());
      else if (a == "--thorough") thorough = true;
      else if (a == "-v") verbose = true;
    }
    if (!ncases)
      ncases = thorough ? cfg.thorough_cases : cfg.quick_cases;
    Slot* shrink_slot = share<Slot>();
    if (!replay_in.empty())
    {
      auto ch = read_choices(replay_in);
      bool f = replay(shrink_slot, ch, cfg.case_timeout * 3);
      printf("%s\n%s\n", std::string(shrink_slot->note, shrink_slot->notelen).c_str(), f ? shrink_slot->msg : "no failure");
      return f ? 1 : 0;
    }
    double t0 = now();
    if (time_cap > 0)
      deadline = t0 + time_cap;
    std::vector<Slot*> slots;
    struct W { pid_t pid; int fd; std::string out; };
    std::vector<W> ws;
    fflush(nullptr);
    for (int w = 0; w < cfg.workers; ++w)
    {
      slots.push_back(share<Slot>());
      int p[2];
      if (pipe(p))
        return 2;
      pid_t pid = fork();
      if (pid == 0)
      {
        close(p[0]);
        if (!cfg.fork_per_case)
        {
          rlimit nocore{0, 0};
          setrlimit(RLIMIT_CORE, &nocore);
          int efd = open("/dev/null", O_WRONLY);
          if (efd >= 0 && !verbose) dup2(efd, 2);
        }
        worker(w, slots[w], p[1]);
      }
      close(p[1]);
      ws.push_back({pid, p[0], ""});
    }
    // Drain.
    size_t open_fds = ws.size();
    while (open_fds)
    {
      std::vector<pollfd> pf;
      for (auto& w : ws)
        pf.push_back({w.fd, POLLIN, 0});
      poll(pf.data(), pf.size(), 1000);
      for (size_t i = 0; i < ws.size(); ++i)
        if (ws[i].fd >= 0 && (pf[i].revents & (POLLIN | POLLHUP | POLLERR)))
        {
          char b[65536];
          ssize_t r = read(ws[i].fd, b, sizeof b);
          if (r > 0)
            ws[i].out.append(b, r);
          else
          {
            close(ws[i].fd);
            ws[i].fd = -1;
            --open_fds;
            if (slots[i]->failed || slots[i]->running)
              g->stop = 1;
          }
        }
    }
    int failing = -1;
    for (size_t i = 0; i < ws.size(); ++i)
    {
      int status;
      waitpid(ws[i].pid, &status, 0);
      Slot* s = slots[i];
      if (!s->failed && s->running)
      {
        s->running = 0;
        g->evaluations++;
        bool timed = WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM;
        if (timed && !cfg.timeout_is_failure)
          continue;
        set_fail(s, timed ? "timeout" : "crash", "the process ended with " + describe(status));
      }
      if (s->failed && (failing < 0 || s->index < slots[failing]->index))
        failing = i;
    }
    // Merge statistics.
    std::map<std::string, uint64_t> labels;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    uint64_t nontrivial = 0;
    for (auto& w : ws)
    {
      std::istringstream is(w.out);
      size_t n;
      uint64_t nt;
      if (!(is >> nt >> n))
        continue;
      nontrivial += nt;
      for (size_t k = 0; k < n; ++k)
      {
        uint64_t v;
        std::string l;
        is >> v;
        is.get();
        std::getline(is, l);
        labels[l] += v;
      }
      is >> n;
      for (size_t k = 0; k < n; ++k)
      {
        uint64_t h;
        is >> h;
        distinct.insert(h);
      }
      is >> n;
      is.get();
      for (size_t k = 0; k < n; ++k)
      {
        std::string l;
        std::getline(is, l);
        if (samples.size() < 8)
          samples.push_back(l);
      }
    }
    int violations = 0;
    uint64_t unreproduced = 0;
    if (failing >= 0)
    {
      Slot* fs = slots[failing];
      std::vector<uint64_t> ch(fs->choices, fs->choices + fs->nchoices);
      std::string kind = fs->kind, msg = fs->msg, note(fs->note, fs->notelen);
      fprintf(stderr, "case %lu (worker %d) failed: kind=%s %.1500s\n", (unsigned long)fs->index, failing, kind.c_str(), msg.c_str());
      // A case that hangs is replayed less often, to have an answer in time.
      bool const hangs = kind == "timeout";
      double to = cfg.case_timeout * (hangs ? 1.5 : 2);
      int const times = hangs ? 2 : 3;
      int rep = 0;
      bool confirmed = false;
      for (int k = 0; k < times; ++k)
        if (replay(shrink_slot, ch, to))
        {
          ++rep;
          msg = shrink_slot->msg;
          kind = shrink_slot->kind;
          note.assign(shrink_slot->note, shrink_slot->notelen);
        }
      if (rep == times)
        confirmed = true;
      if (rep == times && !hangs)
      {
        auto best = shrink(shrink_slot, ch, kind, thorough ? 90 : 45);
        int rep2 = 0;
        std::string m2, n2;
        for (int k = 0; k < 3; ++k)
          if (replay(shrink_slot, best, to))
          {
            ++rep2;
            m2 = shrink_slot->msg;
            n2.assign(shrink_slot->note, shrink_slot->notelen);
          }
        if (rep2 == 3)
        {
          ch = best;
          msg = m2;
          note = n2;
        }
      }
      else if (cfg.nondeterministic)
        confirmed = true;
      {
        std::ofstream f(confirmed ? replay_out : replay_out + ".unreproduced");
        f << "{\n \"property\": " << json_str(cfg.property) << ",\n \"seed\": " << seed << ",\n \"kind\": " << json_str(kind)
          << ",\n \"message\": " << json_str(msg) << ",\n \"case\": " << json_str(note) << ",\n \"choices\": [";
        for (size_t k = 0; k < ch.size(); ++k)
          f << (k ? ", " : "") << ch[k];
        f << "]\n}\n";
      }
      if (confirmed)
      {
        violations = 1;
        printf("case: %.1500s\nfailure (%s): %.1500s\n", note.c_str(), kind.c_str(), msg.c_str());
      }
      else
      {
        ++unreproduced;
        printf("a failure was seen that did not reproduce each time (reproduced %d): kind=%s %s\n%s\n", rep, kind.c_str(), msg.c_str(), note.c_str());
      }
    }
    double wall = now() - t0;
    if (!evidence.empty())
    {
      std::ofstream f(evidence);
      f << "{\"evaluations\": " << g->evaluations << ", \"discarded\": " << g->discarded << ", \"nontrivial\": " << nontrivial
        << ", \"distinct_nontrivial\": " << distinct.size() << ", \"rule\": " << json_str(cfg.rule) << ", \"planned\": " << ncases
        << ", \"unreproduced\": " << unreproduced << ", \"violations\": " << violations << ", \"wall_s\": " << wall << ", \"labels\": {";
      bool first = true;
      for (auto& [k, v] : labels)
      {
        f << (first ? "" : ", ") << json_str(k) << ": " << v;
        first = false;
      }
      f << "}, \"samples\": [";
      for (size_t k = 0; k < samples.size(); ++k)
        f << (k ? ", " : "") << samples[k];
      f << "]}\n";
    }
    fprintf(stderr, "%s: %lu cases, %lu discarded, %lu nontrivial, %zu distinct, %.1f s\n", cfg.property.c_str(),
            (unsigned long)g->evaluations, (unsigned long)g->discarded, (unsigned long)nontrivial, distinct.size(), wall);
    if (verbose)
      for (auto& [k, v] : labels)
        fprintf(stderr, "  %-40s %lu\n", k.c_str(), (unsigned long)v);
    return violations ? 1 : 0;
  }
};

} // namespace pbt
