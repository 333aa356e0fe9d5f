// L04: the format in which locations are printed, per thread.
#include "loc.h"
#include <condition_variable>
#include <mutex>
#include <optional>
#include <thread>
using namespace loc;
using libcwd::Location;

// A thread that runs what it is given.
struct Thread
{
  std::mutex m;
  std::condition_variable cv;
  std::function<void()> job;
  bool stop = false, joined = false;
  std::thread t;
  Thread() : t([this] { loop(); }) { }
  ~Thread()
  {
    { std::lock_guard<std::mutex> l(m); stop = true; }
    cv.notify_all();
    t.join();
  }
  void loop()
  {
    LIBCWD_TSD_DECLARATION;
    while (!libcwd::libcw_do.is_on(LIBCWD_TSD)) libcwd::libcw_do.on();
    Debug(if (!dc::notice.is_on()) dc::notice.on());
    std::unique_lock<std::mutex> l(m);
    for (;;)
    {
      cv.wait(l, [&] { return stop || job; });
      if (job) { job(); job = nullptr; cv.notify_all(); }
      else return;
    }
  }
  void run(std::function<void()> f)
  {
    std::unique_lock<std::mutex> l(m);
    job = std::move(f);
    cv.notify_all();
    cv.wait(l, [&] { return !job; });
  }
};

static std::ostringstream debug_out;
static std::mutex debug_mutex;

int main(int argc, char** argv)
{
  init();
  for (auto& x : sites) Location l(x.pc);
  Debug(dc::notice.on());
  Debug(libcw_do.on());
  Debug(libcw_do.set_ostream(&debug_out, &debug_mutex));
  pbt::Config cfg;
  cfg.property = "L04";
  cfg.quick_cases = 30000;
  cfg.thorough_cases = 3000000;
  cfg.case_timeout = 20;
  cfg.rule = "a history in which at least two threads printed known locations in different formats and an unknown location was printed";
  cfg.body = [](Case& c) {
    int const N = 4; // 0 is the main thread.
    std::optional<Thread> th[N];
    unsigned format[N] = {};
    std::set<std::pair<int, unsigned>> printed;
    bool unknown = false;
    std::string history;
    auto on = [&](int t, std::function<void()> f) { if (t) th[t]->run(std::move(f)); else f(); };
    libcwd::location_format(0);
    int steps = 2 + c.small(4, 30);
    for (int step = 0; step < steps; ++step)
    {
      int t = c.draw(N - 1);
      std::string what = "thread " + std::to_string(t);
      if (t && !th[t])
      {
        c.note("start " + what);
        th[t].emplace();
        format[t] = 0;
      }
      switch (c.weighted({4, 8, 3, 1}))
      {
        case 0:
        {
          unsigned f = c.draw(7), previous = 99;
          what += ": location_format(" + std::to_string(f) + ")";
          c.note(what);
          on(t, [&] { previous = libcwd::location_format(f); });
          c.check(previous == format[t], "previous", what + " returned " + std::to_string(previous) + " instead of " + std::to_string(format[t]));
          format[t] = f;
          break;
        }
        case 1:
        {
          size_t s = c.draw(sites.size() + 1);
          int base = c.draw(2), looker = c.coin() ? t : 0, via = c.draw(2);
          static char const* const ways[] = {"the location", "a copy", "an assigned location"};
          Site const* x = s < sites.size() ? &sites[s] : nullptr;
          what += ": print " + (x ? ways[via] + (" of " + x->what) : s == sites.size() ? "a default location" : "a cleared location") + " in format " + std::to_string(format[t]);
          c.note(what);
          Location l, k;
          if (x) on(looker, [&] { l.pc_location(x->pc); });
          else if (s > sites.size()) { l.pc_location(sites[0].pc); l.clear(); }
          if (x)
          {
            std::string d = differs(l, *x);
            c.check(d.empty(), "lookup", d);
          }
          Location copy(l);
          k = copy;
          Location const& p = via == 0 ? l : via == 1 ? copy : k;
          std::ostringstream o;
          o << "x" << (base == 1 ? std::hex : base == 2 ? std::oct : std::dec);
          on(t, [&] { o << p << "y"; });
          std::string want = "x" + text(p, x, format[t]) + "y";
          c.check(o.str() == want, "print", what + " writes " + quote(o.str()) + " instead of " + quote(want));
          if (x && x->known) printed.insert({t, format[t]});
          else unknown = true;
          break;
        }
        case 2:
        {
          size_t s = c.draw(sites.size() - 1);
          what += ": debug output of a location of " + sites[s].what + " in format " + std::to_string(format[t]);
          c.note(what);
          debug_out.str("");
          Location l(sites[s].pc);
          on(t, [&] { Dout(dc::notice, "at " << l << '.'); });
          std::string want = "NOTICE  : at " + text(l, &sites[s], format[t]) + ".\n";
          c.check(debug_out.str() == want, "print", what + " writes " + quote(debug_out.str()) + " instead of " + quote(want));
          break;
        }
        case 3:
          if (t)
          {
            c.note(what + ": end");
            th[t].reset();
          }
          break;
      }
      history += what + ";";
    }
    std::set<int> threads;
    std::set<unsigned> formats;
    for (auto& [t, f] : printed) { threads.insert(t); formats.insert(f); }
    if (threads.size() > 1 && formats.size() > 1 && unknown) c.nontrivial(history);
  };
  return pbt::Runner(cfg).main(argc, argv);
}
