// Initialization of the library and of threads.
#include "rc.h"
#include <condition_variable>
#include <deque>
#include <future>
#include <iomanip>
using namespace rc;

namespace libcwd::init_functions { extern thread_init_t default_thread_init; }
namespace fi = libcwd::init_functions;

// A thread that executes what it is told.
struct Worker
{
  std::mutex m;
  std::condition_variable cv;
  std::function<void()> job;
  bool busy = false, quit = false;
  std::thread t{[this] {
    for (std::unique_lock<std::mutex> l(m);;)
    {
      cv.wait(l, [this] { return busy || quit; });
      if (quit) return;
      job();
      busy = false;
      cv.notify_all();
    }
  }};
  void start(std::function<void()> f)
  {
    std::lock_guard<std::mutex> l(m);
    job = f;
    busy = true;
    cv.notify_all();
  }
  void wait()
  {
    std::unique_lock<std::mutex> l(m);
    cv.wait(l, [this] { return !busy; });
  }
};

struct CountingMutex : std::mutex
{
  std::atomic<int> locks{0};
  void lock() { std::mutex::lock(); ++locks; }
  bool try_lock() { bool r = std::mutex::try_lock(); if (r) ++locks; return r; }
};

// What a thread should look like.
struct View
{
  std::map<libcwd::Channel*, int> cnt; // -1: on.
  int obj = 0;
  std::string margin;
};

__attribute__((noinline)) static int here(int x) { return x * 3 + 1; }

static std::vector<Ch> g_ch;          // Registry with the configured state, in any order.
static std::string* g_text;           // What was written.
struct Capture : std::streambuf
{
  int overflow(int ch) override { if (ch != EOF) g_text->push_back(ch); return 0; }
  std::streamsize xsputn(char const* s, std::streamsize n) override { g_text->append(s, n); return n; }
};

static std::string pad(std::string s, size_t w) { s.resize(std::max(w, s.size()), ' '); return s; }
static size_t label_width()
{
  size_t w = 8;
  for (auto& x : g_ch) w = std::max(w, x.label.size());
  return w;
}

// Executed by the thread that the view belongs to.
static std::string compare(View const& v)
{
  for (auto& [ch, n] : v.cnt)
    if (ch->is_on() != (n == -1))
      return "channel " + quote(ch->get_label()) + (ch->is_on() ? " is on" : " is off");
  if (std::string(libcwd::libcw_do.margin().c_str(), libcwd::libcw_do.margin().size()) != v.margin)
    return "the margin is " + quote(libcwd::libcw_do.margin().c_str()) + " instead of " + quote(v.margin);
  // The exact count of the object.
  std::string before = *g_text;
  libcwd::Channel* on = nullptr;
  for (auto& [ch, n] : v.cnt)
    if (n == -1) { on = ch; break; }
  if (on)
  {
    g_text->clear();
    Dout(dc::always, "x");
    bool got = !g_text->empty();
    *g_text = before;
    if (got != (v.obj == -1)) return got ? "the debug object is on" : "the debug object is off";
  }
  return "";
}

static std::string exact_counts(View& v)
{
  // Destructive: turns everything on.
  for (auto& [ch, n] : v.cnt)
    for (; n > -1; --n)
    {
      if (ch->is_on()) return "channel " + quote(ch->get_label()) + " came on too early";
      ch->on();
      if (n == 0 && !ch->is_on()) return "channel " + quote(ch->get_label()) + " did not come on";
    }
  return "";
}

static void body(Case& c)
{
  std::set<std::string> used{"DEBUG", "NOTICE", "SYSTEM"};
  scratch();
  g_text = new std::string;
  std::cerr.rdbuf(new Capture);
  int n = c.small(0, 6);
  for (int i = 0; i < n; ++i) new_channel(gen_label(c, used));
  Model m;
  m.ch = registry();
  std::string note = "channels:";
  for (auto& x : m.ch) note += " " + quote(x.label);
  std::vector<Ch> initial = m.ch;
  for (auto& x : initial)
    if (x.cnt == -1) { x.cnt = 0; }
  m.object_on = true;
  FileText f = gen_file(c, m.ch, 6, false);
  if (!f.lines.empty()) f.lines.insert(f.lines.begin(), c.coin() ? "channels_default = off" : "channels_default = on");
  if (c.chance(3, 4)) f.lines.insert(f.lines.begin(), c.coin() ? "silent = on" : "silent = off");
  write_file(".libcwdrc", f.text());
  note += "\n" + show(".libcwdrc", f);
  // Use before initialization.
  if (c.chance(1, 4))
  {
    libcwd::Channel* x = c.pick(m.ch).c;
    int k = c.range(1, 3);
    note += "before init: " + std::to_string(k) + " times off() of " + quote(x->get_label()) + "\n";
    for (auto& y : m.ch)
      if (y.c == x && y.name != "WARNING" && y.name != "ELFUTILS")
        for (int i = 0; i < k; ++i) { x->off(); ++y.cnt; }
  }
  if (c.chance(1, 4))
  {
    note += "before init: output\n";
    libcwd::libcw_do.on();
    Dout(dc::always, "before");
    libcwd::libcw_do.off();
    c.check(*g_text == "        : before\n" || g_text->find("before\n") != std::string::npos, "before", "written before init: " + quote(*g_text));
    g_text->clear();
  }
  auto* lock = new CountingMutex;
  auto* lock2 = new CountingMutex;
  int stream = c.weighted({4, 1, 1});
  std::ostream* os = &std::cerr;
  if (stream) os = new std::ostream(new Capture);
  if (stream == 1) libcwd::libcw_do.set_ostream(os);
  if (stream == 2) libcwd::libcw_do.set_ostream(os, lock);
  note += stream == 0 ? "" : stream == 1 ? "own stream\n" : "own stream and lock\n";
  int margin0 = c.draw(3);
  View mine;
  if (margin0 == 0) { mine.margin = "main "; libcwd::libcw_do.margin().assign(mine.margin); }
  // What is on is turned off before the configuration file is read.
  for (auto& x : m.ch)
    if (x.cnt == -1) x.cnt = 0;
  m.read(".libcwdrc", &f, nullptr, nullptr);
  if (c.chance(1, 4)) fi::default_thread_init = fi::from_rcfile;
  c.note(note);
  Debug(init());
  auto got = parse(margin0 == 0 ? [&] {
    std::string s;
    for (size_t b = 0, e; b < g_text->size(); b = e + 1)
    {
      e = g_text->find('\n', b);
      c.check(g_text->compare(b, 5, "main ") == 0, "margin", "written without margin: " + quote(g_text->substr(b, e - b)));
      s += g_text->substr(b + 5, e - b - 4);
    }
    return s; }() : *g_text);
  compare_messages(c, m.out, got);
#if CWDEBUG_LOCATION
  if (c.chance(1, 8))
  {
    // init() tells that main was reached.
    libcwd::Location loc(reinterpret_cast<char*>(&here) + 1);
    c.check(loc.is_known() && loc.file() == "r03.cpp", "location", "the source line of a function of the program is not known after init()");
    c.note("location\n");
  }
#endif
  c.check(m.fatal == false, "model", "fatal");
  c.check(libcwd::libcw_do.has_mutex(), "lock", "the stream has no lock after init()");
  c.check(libcwd::libcw_do.get_ostream() == os, "stream", "init() replaced the stream");
  g_ch = m.ch;
  for (auto& x : m.ch) mine.cnt[x.c] = x.cnt;
  mine.obj = -1;
  std::string r = compare(mine);
  c.check(r.empty(), "init", "after init(): " + r);

  auto& w = *new std::deque<Worker>;
  auto& views = *new std::deque<View>;
  int effects = 0, modes = 0;
  bool new_longer = false;
  libcwd::Channel& notice = libcwd::channels::dc::notice;
  auto check_all = [&](std::string const& when) {
    std::string r = compare(mine);
    c.check(r.empty(), "main", when + ": main thread: " + r);
    for (size_t i = 0; i < w.size(); ++i)
    {
      w[i].start([&, i] { r = compare(views[i]); });
      w[i].wait();
      c.check(r.empty(), "state", when + ": thread " + std::to_string(i) + ": " + r);
    }
  };
  auto expected_view = [&](std::string const& name, fi::thread_init_t how, std::thread::native_handle_type id) {
    View v;
    for (auto& x : g_ch) v.cnt[x.c] = 0;
    if (how == fi::thread_init_default) how = fi::default_thread_init;
    for (auto& x : g_ch)
      if (how == fi::from_rcfile ? x.cnt == -1 : how == fi::copy_from_main && mine.cnt[x.c] == -1)
      {
        v.cnt[x.c] = -1;
        ++effects;
      }
    v.obj = how == fi::debug_off || (how == fi::copy_from_main && mine.obj != -1) ? 0 : -1;
    if (name.empty())
    {
      std::ostringstream o;
      o << std::hex << std::setw(12) << (size_t)id << ' ';
      v.margin = o.str();
    }
    else
      v.margin = pad(name.substr(0, 15), 16);
    return v;
  };
  auto start_text = [&](View& v, std::string const& name) {
    if (name.empty() || v.obj != -1 || v.cnt[&notice] != -1) return std::string();
    return v.margin + pad("NOTICE", label_width()) + ": Thread started. Set debug margin to \"" + v.margin + "\".\n";
  };
  auto gen_name = [&] {
    std::string name;
    for (int k = c.chance(1, 4) ? 0 : c.range(1, c.chance(1, 3) ? 20 : 15); k > 0; --k) name += "AbC dEf123_-#\t"[c.draw(13)];
    return name;
  };
  int steps = c.small(1, 14);
  for (int s = 0; s < steps; ++s)
  {
    std::string what;
    switch (c.weighted({5, 2, 3, 2, 1, 3, 1, 1}))
    {
      case 0: // One more thread.
      {
        if (w.size() >= 6) break;
        std::string name = gen_name();
        auto how = (fi::thread_init_t)c.draw(3);
        bool out_first = c.chance(1, 5);
        static char const* const hows[] = {"default", "from_rcfile", "copy_from_main", "debug_off"};
        what = "thread " + std::to_string(w.size()) + ": init_thread(" + quote(name) + ", " + hows[how] + ")" + (out_first ? " after output" : "");
        c.note(what + "\n"); note += what + "\n";
        modes |= 1 << how;
        w.emplace_back();
        Worker& t = w.back();
        View v = expected_view(name, how, t.t.native_handle());
        g_text->clear();
        int locks = lock->locks;
        std::string pname;
        bool dflt = how == fi::thread_init_default && c.coin();
        t.start([&] {
          if (out_first) Dout(dc::always, "not yet");
          if (dflt && name.empty()) Debug(init_thread());
          else if (dflt) Debug(init_thread(name));
          else Debug(init_thread(name, how));
          char b[32] = "";
          pthread_getname_np(pthread_self(), b, sizeof b);
          pname = b;
        });
        t.wait();
        std::string want = start_text(v, name);
        c.check(*g_text == want, "announce", what + ": written: " + quote(*g_text) + " instead of " + quote(want));
        if (stream == 2 && !want.empty()) c.check(lock->locks > locks, "lock", what + ": the lock was not used");
        if (!name.empty() && name.size() <= 15) c.check(pname == name, "name", what + ": the name of the thread is " + quote(pname));
        views.push_back(v);
        break;
      }
      case 1: // Several at the same time.
      {
        if (w.size() >= 4) break;
        int k = c.range(2, 3);
        std::vector<std::string> names;
        std::vector<fi::thread_init_t> hows;
        std::multiset<std::string> want;
        size_t base = w.size();
        what = "at once:";
        for (int i = 0; i < k; ++i)
        {
          names.push_back(gen_name());
          hows.push_back((fi::thread_init_t)c.draw(3));
          modes |= 1 << hows[i];
          what += " init_thread(" + quote(names[i]) + ", " + std::to_string(hows[i]) + ")";
          w.emplace_back();
          View v = expected_view(names[i], hows[i], w.back().t.native_handle());
          std::string e = start_text(v, names[i]);
          if (!e.empty()) want.insert(e);
          views.push_back(v);
        }
        c.note(what + "\n"); note += what + "\n";
        g_text->clear();
        std::atomic<int> ready{0};
        for (int i = 0; i < k; ++i)
          w[base + i].start([&, i] {
            ++ready;
            while (ready < k) {}
            Debug(init_thread(names[i], hows[i]));
          });
        for (int i = 0; i < k; ++i) w[base + i].wait();
        std::multiset<std::string> got;
        for (size_t b = 0, e; b < g_text->size(); b = e + 1)
        {
          e = g_text->find('\n', b);
          if (e == std::string::npos) e = g_text->size();
          got.insert(g_text->substr(b, e + 1 - b));
        }
        std::string all;
        for (auto& x : want) all += x;
        c.check(got == want, "announce", what + ": written: " + quote(*g_text) + " instead of, in any order, " + quote(all));
        c.label("at once");
        break;
      }
      case 2: // Main switches a channel.
      {
        auto& x = c.pick(g_ch);
        bool on = mine.cnt[x.c] == -1 ? false : c.coin();
        what = "main: " + x.name + (on ? " on" : " off");
        c.note(what + "\n"); note += what + "\n";
        if (on) { x.c->on(); --mine.cnt[x.c]; } else { x.c->off(); ++mine.cnt[x.c]; }
        break;
      }
      case 3:
        what = mine.obj == -1 ? "main: object off" : "main: object on";
        c.note(what + "\n"); note += what + "\n";
        if (mine.obj == -1) { libcwd::libcw_do.off(); mine.obj = 0; } else { libcwd::libcw_do.on(); mine.obj = -1; }
        break;
      case 4:
      {
        static fi::thread_init_t const k[] = {fi::from_rcfile, fi::copy_from_main, fi::debug_off};
        int i = c.draw(2);
        what = "default_thread_init = " + std::to_string(i + 1);
        c.note(what + "\n"); note += what + "\n";
        fi::default_thread_init = k[i];
        break;
      }
      case 5: // A thread switches something.
      {
        if (w.empty()) break;
        int i = c.draw(w.size() - 1);
        auto& x = c.pick(g_ch);
        bool on = views[i].cnt[x.c] == -1 ? false : c.coin(), obj = c.chance(1, 4);
        what = "thread " + std::to_string(i) + ": " + (obj ? std::string("object") : x.name) + " switched";
        c.note(what + "\n"); note += what + "\n";
        w[i].start([&] {
          if (obj) { if (views[i].obj == -1) libcwd::libcw_do.off(); else libcwd::libcw_do.on(); }
          else if (on) x.c->on(); else x.c->off();
        });
        w[i].wait();
        if (obj) views[i].obj = views[i].obj == -1 ? 0 : -1;
        else views[i].cnt[x.c] += on ? -1 : 1;
        break;
      }
      case 6: // A channel that did not exist when the configuration was read; it is off.
      {
        std::string l = gen_label(c, used);
        what = "new channel " + quote(l);
        c.note(what + "\n"); note += what + "\n";
        new_longer |= l.size() > label_width();
        Ch x;
        x.c = new_channel(l);
        x.label = l;
        x.name = upper(l.substr(0, l.find(' ')));
        x.cnt = 0;
        g_ch.push_back(x);
        mine.cnt[x.c] = 0;
        for (auto& v : views) v.cnt[x.c] = 0;
        break;
      }
      case 7: // Another stream and lock.
        os = new std::ostream(new Capture);
        what = "main: set_ostream";
        c.note(what + "\n"); note += what + "\n";
        libcwd::libcw_do.set_ostream(os, stream == 2 ? lock : lock2);
        break;
    }
    check_all(what);
    c.check(libcwd::libcw_do.get_ostream() == os, "stream", what + ": the stream was replaced");
  }
  if (new_longer) c.label("longer channel name after init");
  if (w.size() >= 2 && effects) c.nontrivial(note);
  for (size_t i = 0; i < w.size(); ++i)
  {
    w[i].start([&] { r = exact_counts(views[i]); });
    w[i].wait();
    c.check(r.empty(), "count", "thread " + std::to_string(i) + ": " + r);
  }
  r = exact_counts(mine);
  c.check(r.empty(), "count", "main thread: " + r);
}

static void done(Case& c, int status)
{
  c.check(WIFEXITED(status) && WEXITSTATUS(status) == 0, "end", "the process ended with status " + std::to_string(status));
}

int main(int argc, char** argv)
{
  auto cfg = config("R03", 20000, "at least two threads were initialized and at least one channel had to be on in one of them");
  cfg.body = body;
  cfg.verify = done;
  return pbt::Runner(cfg).main(argc, argv);
}
