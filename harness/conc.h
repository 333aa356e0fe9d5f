// Threads that write debug output at the same time, for real.
//
// Every destination is a stream buffer that verifies, for every call, that the lock that belongs to it is held by the calling
// thread. Margins identify the thread that wrote a line; the text of a message is unique and the output of one thread, without
// the marks that libcwd adds when threads interrupt each other, must be the concatenation of its messages in program order.
#pragma once
#include "sys.h"
#include "debug.h"
#include "pbt.h"
#include <array>
#include <atomic>
#include <barrier>
#include <mutex>
#include <thread>

namespace libcwd::channels::dc {
Channel conc1("CONC");
Channel conc2("LONGESTNAME");
}

namespace conc {

using pbt::Case;
using pbt::quote;

inline Case* C;

// user[0]: the lock discipline was violated, user[1]: end of the body, user[2]: how it must end (0: normally, 1: fatal, 2: misuse),
// user[3]: bit 0: dc::fatal is possible, bit 1: dc::core is possible. The reason of a violation is in the stderr of the child.
inline void violation(char const* what)
{
  if (!C->slot->user[0])
  {
    C->slot->user[0] = 1;
    (void)!write(2, what, strlen(what));
  }
}

inline thread_local uint64_t rng = 88172645463325252ULL;
inline uint64_t rnd()
{
  rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
  return rng;
}
inline int jitter = 0;
inline void pause_maybe()
{
  if (!jitter)
    return;
  switch (rnd() % (4 * jitter))
  {
    case 0: sched_yield(); break;
    case 1: { timespec ts{0, (long)(rnd() % 60000)}; nanosleep(&ts, nullptr); break; }
    case 2: for (volatile int i = 0; i < 500; i = i + 1) { } break;
  }
}

struct Mutex
{
  std::mutex m;
  std::atomic<pid_t> owner{0};
  static pid_t me()
  {
    static thread_local pid_t id = gettid();
    return id;
  }
  void lock()
  {
    pause_maybe();
    if (owner.load() == me())
      violation("lock() called by the thread that holds the lock\n");
    m.lock();
    owner.store(me());
  }
  bool try_lock()
  {
    if (owner.load() == me())
    {
      violation("try_lock() called by the thread that holds the lock\n");
      return false;
    }
    if (!m.try_lock())
      return false;
    owner.store(me());
    return true;
  }
  void unlock()
  {
    if (owner.load() != me())
    {
      violation("unlock() called by a thread that does not hold the lock\n");
      return;
    }
    owner.store(0);
    m.unlock();
    pause_maybe();
  }
};

struct Buf : std::streambuf
{
  Mutex* mx;
  std::atomic<bool> retired{false};  // Set when the stream was replaced.
  void enter(char const* what)
  {
    if (mx->owner.load() != Mutex::me())
      violation(what);
    if (retired.load())
      violation("the stream is used after it was replaced with set_ostream\n");
    pause_maybe();
  }
  int sync() override
  {
    enter("the stream is flushed while the lock is not held\n");
    return 0;
  }
};

struct Msg
{
  enum K { line, nested, group, nonewline, app, lookup, channel_switch, swap } k;
  int obj = 0, ch = 0;
  bool flush = false;
  std::string text;                 // line, nonewline, app
  std::vector<std::string> parts;   // group
  std::vector<Msg> inner;           // nested
};

struct Script
{
  int wave = 0;
  bool colors = false;
  std::vector<Msg> msgs;
  int ends = 0;                     // 1: dc::fatal, 2: dc::core, 3: misuse
  uint64_t seed = 1;
};

struct Plan
{
  int nobj = 1;
  bool shared_stream = false;
  bool partial = false;             // Lines may be left unterminated.
  bool swaps = false;               // The stream (and possibly its lock) is replaced while other threads write.
  std::vector<Script> scripts;
};

inline std::string margin(int t) { return "T" + std::to_string(t) + "| "; }
inline std::string color_on(Script const& s, int t) { return s.colors ? "\x1b[3" + std::to_string(t % 8) + "m" : ""; }
inline std::string color_off(Script const& s) { return s.colors ? "\x1b[0m" : ""; }
inline char const* const labels[2] = {"CONC       ", "LONGESTNAME"};
inline std::string prefix(Script const& s, int t, Msg const& m, int indent)
{
  return color_on(s, t) + margin(t) + labels[m.ch] + ": " + std::string(indent, ' ');
}

// What a message adds to the output of its thread; `indent' is per object, `out' per stream.
inline void expect(Script const& s, int t, Msg const& m, std::array<int, 2> indent, bool shared, std::map<int, std::string>& out)
{
  std::string& o = out[shared ? 0 : m.obj];
  int in = indent[m.obj];
  switch (m.k)
  {
    case Msg::line: o += prefix(s, t, m, in) + m.text + color_off(s) + "\n"; break;
    case Msg::nonewline: o += prefix(s, t, m, in) + m.text; break;
    case Msg::nested:
      indent[m.obj] += 4;
      for (auto& i : m.inner) expect(s, t, i, indent, shared, out);
      o += prefix(s, t, m, in) + m.text + color_off(s) + "\n";
      break;
    case Msg::group:
    {
      std::string all;
      for (auto& p : m.parts) all += p;
      o += prefix(s, t, m, in) + all + color_off(s) + "\n";
      break;
    }
    case Msg::app: o += margin(t) + m.text + "\n"; break;
    default: break;
  }
}

inline void run(std::vector<libcwd::DebugObject*> const& objs, std::vector<Mutex*> const& mx, int t, Msg const& m);
inline void swap_stream(libcwd::DebugObject& o, bool new_lock);

struct Evaluate
{
  std::vector<libcwd::DebugObject*> const& objs;
  std::vector<Mutex*> const& mx;
  int t;
  Msg const& m;
  friend std::ostream& operator<<(std::ostream& os, Evaluate const& e)
  {
    pause_maybe();
    for (auto& i : e.m.inner) run(e.objs, e.mx, e.t, i);
    return os;
  }
};

inline libcwd::Channel const& chan(int i) { return i ? libcwd::channels::dc::conc2 : libcwd::channels::dc::conc1; }

inline void run(std::vector<libcwd::DebugObject*> const& objs, std::vector<Mutex*> const& mx, int t, Msg const& m)
{
  libcwd::DebugObject& O = *objs[m.obj];
  libcwd::control_flag_t f = m.flush ? libcwd::flush_cf : 0;
  switch (m.k)
  {
    case Msg::line: LibcwDout(libcwd::channels, O, chan(m.ch)|f, m.text); break;
    case Msg::nonewline: LibcwDout(libcwd::channels, O, chan(m.ch)|f|nonewline_cf, m.text); break;
    case Msg::nested: LibcwDout(libcwd::channels, O, chan(m.ch)|f, (Evaluate{objs, mx, t, m}) << m.text); break;
    case Msg::group:
      LibcwDout(libcwd::channels, O, chan(m.ch)|f|continued_cf, m.parts[0]);
      for (size_t i = 1; i + 1 < m.parts.size(); ++i)
      {
        pause_maybe();
        LibcwDout(libcwd::channels, O, dc::continued, m.parts[i]);
      }
      pause_maybe();
      LibcwDout(libcwd::channels, O, dc::finish, m.parts.back());
      break;
    case Msg::app:
    {
      std::lock_guard<Mutex> l(*mx[m.obj]);
      pause_maybe();
      *O.get_ostream() << margin(t) << m.text << "\n";
      break;
    }
    case Msg::lookup:
    {
      if (libcwd::find_channel("conc") != &libcwd::channels::dc::conc1)
        violation("find_channel failed\n");
      int n = 0;
      ForAllDebugChannels(n += debugChannel.is_on());
      if (n < 2)
        violation("ForAllDebugChannels missed a channel\n");
      break;
    }
    case Msg::swap: swap_stream(O, m.flush); break;
    case Msg::channel_switch:
      libcwd::channels::dc::conc1.off();
      LibcwDout(libcwd::channels, O, dc::conc1, "NOT WRITTEN");
      libcwd::channels::dc::conc1.on();
      break;
  }
}

inline void thread_body(std::vector<libcwd::DebugObject*> const& objs, std::vector<Mutex*> const& mx, Script const& s, int t)
{
  rng = s.seed;
  for (auto* o : objs)
  {
    while (o->is_on(LIBCWD_TSD_INSTANCE) == false)
      o->on();
    std::string mg = margin(t);
    o->margin().assign(mg.data(), mg.size());
    if (s.colors)
    {
      o->color_on().assign(color_on(s, t));
      o->color_off().assign(color_off(s));
    }
  }
  ForAllDebugChannels(if (!debugChannel.is_on()) debugChannel.on());
  for (auto& m : s.msgs)
  {
    run(objs, mx, t, m);
    pause_maybe();
  }
  libcwd::DebugObject& O = *objs[0];
  if (s.ends == 1) LibcwDoutFatal(libcwd::channels, O, dc::fatal, "END" << t);
  if (s.ends == 2) LibcwDoutFatal(libcwd::channels, O, dc::core, "END" << t);
  if (s.ends == 3)
  {
    if (t % 2) LibcwDout(libcwd::channels, O, dc::finish, "x"); else LibcwDout(libcwd::channels, O, dc::continued, "x");
  }
}

struct SharedBuf : Buf
{
  int sid;
  void add(char const* s, size_t n)
  {
    if (!n)
      return;
    std::string e(1, (char)sid);
    uint32_t k = n;
    e.append((char const*)&k, 4);
    e.append(s, n);
    static std::mutex bm; // Two streams share one log.
    std::lock_guard<std::mutex> l(bm);
    // Copy first, then publish: the process can be aborted at any point.
    uint32_t at = C->slot->bloblen;
    if (at + e.size() > pbt::max_blob)
      return;
    memcpy(C->slot->blob + at, e.data(), e.size());
    C->slot->bloblen = at + e.size();
  }
  int overflow(int ch) override
  {
    enter("a character is written while the lock is not held\n");
    char b = ch;
    if (ch != EOF)
      add(&b, 1);
    return 0;
  }
  std::streamsize xsputn(char const* s, std::streamsize n) override
  {
    enter("the stream is written to while the lock is not held\n");
    if (n > 3 && rnd() % 4 == 0)
    {
      add(s, n / 2);
      pause_maybe();
      add(s + n / 2, n - n / 2);
    }
    else
      add(s, n);
    return n;
  }
};

// Replace the stream of o. The old one may not be used anymore when set_ostream returns.
inline void swap_stream(libcwd::DebugObject& o, bool new_lock)
{
  static std::mutex swap_mutex;
  std::lock_guard<std::mutex> l(swap_mutex);
  auto* old = static_cast<SharedBuf*>(o.get_ostream()->rdbuf());
  auto* b = new SharedBuf;
  b->sid = old->sid;
  b->mx = new_lock ? new Mutex : old->mx;
  auto* os = new std::ostream(b);
  o.set_ostream(os, b->mx);
  old->retired = true;
  pause_maybe();
}

inline Msg gen_msg(Case& c, Plan const& p, int t, int& n, int depth)
{
  Msg m;
  m.k = (Msg::K)c.weighted({10, depth < 2 ? 3 : 0, p.partial && depth == 0 ? 8 : 0, p.partial && depth == 0 ? 3 : 0, p.partial || depth || p.swaps ? 0 : 3, 1, 1, p.swaps ? 3 : 0});
  m.obj = c.draw(p.nobj - 1);
  m.ch = c.draw(1);
  m.flush = c.chance(1, 3) || m.k == Msg::group;
  auto text = [&] {
    std::string s = "{" + std::to_string(t) + "." + std::to_string(n++) + "}";
    if (c.chance(1, 12)) s += std::string(c.range(1, 4) * 300, 'x');
    return s;
  };
  m.text = text();
  if (m.k == Msg::group)
    for (int i = 2 + c.small(0, 3); i > 0; --i) m.parts.push_back(text());
  if (m.k == Msg::nested)
    for (int i = 1 + c.small(0, 2); i > 0; --i) m.inner.push_back(gen_msg(c, p, t, n, depth + 1));
  return m;
}

inline std::string render(Msg const& m)
{
  static char const* const names[] = {"line", "nested", "group", "nonewline", "app", "lookup", "switch", "swap"};
  std::string s = std::string(names[m.k]) + (m.obj ? "@" + std::to_string(m.obj) : "") + (m.flush ? "!" : "") + "(" + (m.k == Msg::group ? "" : m.text.substr(0, 12));
  for (auto& p : m.parts) s += p.substr(0, 12) + ",";
  for (auto& i : m.inner) s += " " + render(i);
  return s + ")";
}

inline void body(Case& c, bool fatal)
{
  C = &c;
  Plan p;
  p.nobj = 1 + c.chance(1, 4);
  p.shared_stream = p.nobj > 1 && c.coin();
  p.partial = !p.shared_stream && c.coin();
  p.swaps = !fatal && !p.shared_stream && c.chance(1, 4);
  jitter = c.weighted({1, 2, 2});
  int nthreads = c.range(2, 6), waves = c.chance(1, 3) ? 2 : 1;
  int ending = !fatal ? (c.chance(1, 10) ? 3 : 0) : 1 + c.draw(2);
  if (ending == 3)
    p.partial = false; // The report of the misuse starts with a newline, wherever that is.
#ifdef __SANITIZE_THREAD__
  // A misused dc::finish sets bits in a state that all threads share, on its way to abort the program.
  if (ending == 3)
    ending = 0;
#endif
  for (int t = 0; t < nthreads; ++t)
  {
    Script s;
    s.wave = c.range(0, waves - 1);
    s.colors = c.chance(1, 3);
    s.seed = c.draw(1000000) + 1;
    int n = 0;
    for (int k = c.small(1, 12); k > 0; --k)
      s.msgs.push_back(gen_msg(c, p, t, n, 0));
    p.scripts.push_back(s);
  }
  if (ending)
    for (auto& s : p.scripts)
      if (s.wave == waves - 1 && (fatal ? c.chance(3, 4) : c.chance(1, 3)))
        s.ends = ending == 3 ? (fatal ? 1 + c.draw(1) : 3) : ending;
  std::string note = "objects " + std::to_string(p.nobj) + (p.shared_stream ? " shared stream" : "") + (p.swaps ? " swaps" : "") + " jitter " + std::to_string(jitter) + "\n";
  std::map<std::pair<int, int>, std::string> want; // (stream, thread)
  bool any_end = false;
  for (size_t t = 0; t < p.scripts.size(); ++t)
  {
    Script const& s = p.scripts[t];
    note += "T" + std::to_string(t) + " wave " + std::to_string(s.wave) + ":";
    std::map<int, std::string> out;
    for (auto& m : s.msgs)
    {
      note += " " + render(m);
      expect(s, t, m, {0, 0}, p.shared_stream, out);
    }
    for (auto& [o, x] : out)
      want[{o, (int)t}] = x;
    if (s.ends)
    {
      static char const* const e[] = {"", "dc::fatal", "dc::core", "misuse"};
      note += std::string(" ") + e[s.ends];
      any_end = true;
      c.slot->user[2] = s.ends == 3 ? 2 : 1;
      c.slot->user[3] |= s.ends == 1 ? 1 : 2;
    }
    note += "\n";
  }
  c.note(note);
  {
    int busy[2] = {0, 0}, ending_threads = 0;
    for (auto& s : p.scripts)
    {
      if (s.msgs.size() >= 2) ++busy[s.wave];
      if (s.ends) ++ending_threads;
    }
    if (fatal ? ending_threads >= 2 : std::max(busy[0], busy[1]) >= 2) c.nontrivial(note);
    if (any_end) c.label(ending == 3 ? "misuse" : "fatal");
    if (ending_threads >= 2) c.label("concurrent ends");
    c.label(p.partial ? "partial lines" : "whole lines");
    if (p.shared_stream) c.label("two objects, one stream");
    else if (p.nobj > 1) c.label("two objects, two streams");
    if (waves > 1) c.label("two waves");
    if (p.swaps) c.label("stream replaced");
  }
  // Send what is expected to the parent.
  auto put = [&](std::string const& s) { uint32_t n = s.size(); c.blob((char const*)&n, 4); c.blob(s.data(), n); };
  c.slot->user[4] = p.scripts.size();
  c.slot->user[5] = p.shared_stream ? 1 : p.nobj;
  for (size_t t = 0; t < p.scripts.size(); ++t)
  {
    put(color_on(p.scripts[t], t));
    put(color_off(p.scripts[t]));
    put(p.scripts[t].ends == 1 ? "1" : p.scripts[t].ends == 2 ? "2" : p.scripts[t].ends ? "3" : "0");
    for (size_t o = 0; o < c.slot->user[5]; ++o)
      put(want[{(int)o, (int)t}]);
  }
  // Run it.
  std::vector<libcwd::DebugObject*> objs{&libcwd::libcw_do};
  alignas(libcwd::DebugObject) static char storage[sizeof(libcwd::DebugObject)];
  if (p.nobj > 1)
    objs.push_back(new (storage) libcwd::DebugObject);
  std::vector<Mutex*> mx;
  for (int o = 0; o < p.nobj; ++o)
  {
    static std::ostream* first_os;
    if (o == 0 || !p.shared_stream)
    {
      auto* b = new SharedBuf;
      b->sid = o;
      b->mx = new Mutex;
      mx.push_back(b->mx);
      auto* os = new std::ostream(b);
      if (o == 0)
        first_os = os;
      objs[o]->set_ostream(os, b->mx);
    }
    else
    {
      mx.push_back(mx[0]);
      objs[o]->set_ostream(first_os, mx[0]);
    }
  }
  atexit([] { _exit(99); }); // A fatal message ends the program without running exit handlers.
  for (int w = 0; w < waves; ++w)
  {
    std::vector<std::thread> th;
    std::vector<int> idx;
    for (size_t t = 0; t < p.scripts.size(); ++t)
      if (p.scripts[t].wave == w)
        idx.push_back(t);
    std::barrier<> bar(std::max<size_t>(idx.size(), 1));
    for (int t : idx)
      th.emplace_back([&, t] {
        bar.arrive_and_wait();
        thread_body(objs, mx, p.scripts[t], t);
      });
    for (auto& x : th)
      x.join();
  }
  for (auto* m : mx)
    if (m->owner.load())
      violation("the lock is still held\n");
  c.slot->user[1] = 1;
  fflush(nullptr);
  _exit(0);
}

inline void verify(Case& c, int status)
{
  auto& u = c.slot->user;
  std::string blob = c.blob_text();
  size_t at = 0;
  auto get = [&] {
    uint32_t n;
    memcpy(&n, blob.data() + at, 4);
    std::string s = blob.substr(at + 4, n);
    at += 4 + n;
    return s;
  };
  int nt = u[4], ns = u[5];
  if (!nt)
    return;
  std::vector<std::string> con(nt), coff(nt), ends(nt);
  std::vector<std::vector<std::string>> want(ns, std::vector<std::string>(nt));
  for (int t = 0; t < nt; ++t)
  {
    con[t] = get();
    coff[t] = get();
    ends[t] = get();
    for (int o = 0; o < ns; ++o)
      want[o][t] = get();
  }
  std::vector<std::string> out(ns);
  while (at + 5 <= blob.size())
  {
    int sid = blob[at];
    uint32_t n;
    memcpy(&n, blob.data() + at + 1, 4);
    out[sid].append(blob, at + 5, n);
    at += 5 + n;
  }
  c.check(!u[0], "lock", "the lock discipline was violated");
  int ending = u[2];
  if (ending == 0)
    c.check(WIFEXITED(status) && WEXITSTATUS(status) == 0 && u[1], "end", "the process ended with status " + std::to_string(status));
  // Split in lines and assign these to threads.
  int fatal_seen = 0;
  for (int o = 0; o < ns; ++o)
  {
    std::vector<std::string> got(nt);
    std::vector<std::string> tail(nt); // What was written behind the script, by the ending.
    size_t b = 0;
    int changes = 0, last = -1;
    while (b < out[o].size())
    {
      size_t e = out[o].find('\n', b);
      bool complete = e != std::string::npos;
      std::string l = out[o].substr(b, complete ? e + 1 - b : std::string::npos);
      b += l.size();
      int who = -1;
      for (int t = 0; t < nt; ++t)
        if (l.compare(0, con[t].size() + 4, con[t] + "T" + std::to_string(t) + "| ") == 0 || l.compare(0, 4, "T" + std::to_string(t) + "| ") == 0)
          who = t;
      if (who < 0)
      {
        if (ending && (!complete || l == "\n" || std::find(coff.begin(), coff.end(), l.substr(0, l.size() - 1)) != coff.end()))
          continue; // The misuse report starts with a newline; a fatal end can cut off the last line.
        c.fail("mixed", "a line that does not start with the margin of a thread: " + quote(l) + " in " + quote(out[o]));
      }
      if (who != last) ++changes;
      last = who;
      got[who] += l;
    }
    if (changes > nt) c.label("interleaved");
    for (int t = 0; t < nt; ++t)
    {
      std::string s = got[t];
      std::string r;
      // Remove what libcwd adds when a thread is interrupted by another.
      std::string unf = coff[t] + "<unfinished>\n", nnl = coff[t] + "<no newline>\n", con2 = coff[t] + "<continued>" + con[t] + " ";
      for (size_t i = 0; i < s.size();)
      {
        if (s.compare(i, nnl.size(), nnl) == 0) { i += nnl.size(); c.label("no newline"); continue; }
        if (ending && (unf.compare(0, s.size() - i, s, i, std::string::npos) == 0 || nnl.compare(0, s.size() - i, s, i, std::string::npos) == 0))
          break; // The process ended while the mark was being written.
        if (s.compare(i, unf.size(), unf) == 0)
        {
          size_t k = s.find(con2, i);
          size_t line = s.find('\n', i + unf.size());
          if (k != std::string::npos && (line == std::string::npos || k < line))
          {
            // The prefix must be that of the interrupted line.
            std::string pre = s.substr(i + unf.size(), k - i - unf.size());
            size_t nl = r.rfind('\n');
            std::string cur = r.substr(nl == std::string::npos ? 0 : nl + 1);
            // The interrupted message is the last of the line.
            c.check(cur.find(pre) != std::string::npos, "prefix", "resumed with prefix " + quote(pre) + " after " + quote(cur));
            i = k + con2.size();
            c.label("continued");
            continue;
          }
          if (ending)
          {
            i += unf.size();
            if (k == std::string::npos && s.find('\n', i) == std::string::npos)
              break; // The process ended while this message was being resumed.
            continue;
          }
          c.fail("unfinished", "a message that was marked as unfinished is not resumed: " + quote(s));
        }
        r += s[i++];
      }
      std::string const& w = want[o][t];
      if (ending == 0)
        c.check(r == w, "output", "thread " + std::to_string(t) + " wrote " + quote(r) + " instead of " + quote(w));
      else
      {
        size_t n = 0;
        while (n < r.size() && n < w.size() && r[n] == w[n]) ++n;
        if (n < w.size())
        {
          // The process ended before this thread finished: what is there is a prefix, with whole lines but for the last of all.
          c.check(n == r.size(), "output", "thread " + std::to_string(t) + " wrote " + quote(r) + " instead of " + quote(w));
        }
        else if (n < r.size())
        {
          c.check(ends[t] != "0", "output", "thread " + std::to_string(t) + " wrote too much: " + quote(r.substr(n)));
          tail[t] = r.substr(n);
          std::string report = ends[t] == "1" ? "FATAL" : "COREDUMP";
          if (tail[t].find(report) != std::string::npos && (ends[t] == "3" || tail[t].find("END" + std::to_string(t) + coff[t] + "\n") != std::string::npos))
            fatal_seen |= ends[t] == "1" ? 1 : 2;
        }
      }
    }
  }
  if (ending)
  {
    bool exit180 = WIFEXITED(status) && WEXITSTATUS(status) == 180, abrt = WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT;
    c.check(exit180 || abrt, "end", "the process ended with status " + std::to_string(status));
    c.check(exit180 ? (fatal_seen & 1) : (fatal_seen & 2), "report", "the message of the thread that ended the process is missing in " + quote(out[0]));
  }
}

inline int main(char const* property, bool fatal, int argc, char** argv)
{
  pbt::Config cfg;
  cfg.property = property;
  cfg.fork_per_case = true;
  cfg.nondeterministic = true;
  cfg.quick_cases = 6000;
  cfg.thorough_cases = 400000;
  cfg.case_timeout = 20;
  cfg.workers = 6;
  cfg.rule = fatal ? "at least two threads hit a fatal statement at the same time" : "at least two threads wrote at least two messages each at the same time";
  cfg.body = [fatal](Case& c) { body(c, fatal); };
  cfg.verify = [](Case& c, int status) { verify(c, status); };
  return pbt::Runner(cfg).main(argc, argv);
}

} // namespace conc
