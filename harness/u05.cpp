// U05: lockable_auto_ptr against an ownership model.
#include "sys.h"
#include "debug.h"
#include <libcwd/lockable_auto_ptr.h>
#include "pbt.h"
#include <optional>

static std::vector<int> destroyed; // Destruction log: ids.
struct Base
{
  int id;
  static int next;
  Base() : id(next++) { }
  virtual ~Base() { destroyed.push_back(id); id = -1; }
  int value() const { return id; }
};
int Base::next;
struct Derived : Base
{
  std::string payload = "a payload that lives on the heap, so that skipping the destructor of Derived leaks";
  ~Derived() override { payload.clear(); }
};
// Arrays are deleted last element first; their objects are not polymorphic.
struct Plain
{
  int id;
  static int next;
  Plain() : id(next++) { }
  ~Plain() { destroyed.push_back(id); id = -1; }
};
int Plain::next;

using PB = libcwd::lockable_auto_ptr<Base>;
using PD = libcwd::lockable_auto_ptr<Derived>;
using PA = libcwd::lockable_auto_ptr<Plain, true>;
using PV = libcwd::lockable_auto_ptr<Base const>;

struct Obj { bool alive; int first, count; void* p; };
struct M { int kind; int obj = -1; bool owner = false, locked = false; }; // kind: 0 PB, 1 PD, 2 PA, 3 PV (const).

struct World
{
  pbt::Case& c;
  std::vector<Obj> objs;
  std::vector<M> m;
  std::vector<std::unique_ptr<PB>> b;
  std::vector<std::unique_ptr<PD>> d;
  std::vector<std::unique_ptr<PA>> a;
  std::vector<std::unique_ptr<PV>> v;
  std::vector<int> loose; // Objects that were released.
  std::vector<int> expect; // Expected destruction log.

  template<class F> auto on(int i, F f)
  {
    switch (m[i].kind)
    {
      case 0: return f(*b[i]);
      case 1: return f(*d[i]);
      case 2: return f(*a[i]);
      default: return f(*v[i]);
    }
  }
  void die(int o)
  {
    if (o < 0)
      return;
    objs[o].alive = false;
    for (int k = objs[o].count - 1; k >= 0; --k)
      expect.push_back(objs[o].first + k);
  }
  void verify(char const* what)
  {
    if (destroyed != expect)
    {
      auto s = [](std::vector<int> const& x) { std::string r; for (int i : x) r += std::to_string(i) + " "; return r; };
      c.fail("destroy", std::string("after ") + what + " the destroyed objects are " + s(destroyed) + "instead of " + s(expect));
    }
    for (size_t i = 0; i < m.size(); ++i)
    {
      if (m[i].kind < 0)
        continue;
      void const* want = m[i].obj < 0 ? nullptr : objs[m[i].obj].p;
      void const* got = on(i, [](auto& p) -> void const* { return p.get(); });
      c.check(want == got, "get", std::string("after ") + what + " p" + std::to_string(i) + " points to something else");
      bool ow = on(i, [](auto& p) { return p.is_owner(); });
      c.check(ow == m[i].owner, "owner", std::string("after ") + what + " is_owner() of p" + std::to_string(i) + " is " + (ow ? "true" : "false"));
      if (ow)
      {
        bool st = on(i, [](auto& p) { return p.strict_owner(); });
        c.check(st == m[i].locked, "strict", std::string("after ") + what + " strict_owner() of p" + std::to_string(i) + " is " + (st ? "true" : "false"));
      }
      if (m[i].obj >= 0 && objs[m[i].obj].alive)
      {
        int id = on(i, [](auto& p) { return p->id == (*p).id ? (*p).id : -2; });
        c.check(id == objs[m[i].obj].first, "deref", std::string("after ") + what + " p" + std::to_string(i) + " refers to object " + std::to_string(id));
      }
    }
  }
};

int main(int argc, char** argv)
{
  pbt::Config cfg;
  cfg.property = "U05";
  cfg.rule = "histories of up to 60 operations on up to 7 pointers (base, derived, const, array form): construct, copy, convert, assign, "
             "self-assign, lock, unlock, release, adopt, reset, destroy. Non-trivial: at least one transfer from an unlocked owner and "
             "one copy from a locked owner or a release";
  cfg.quick_cases = 400000;
  cfg.thorough_cases = 12000000;
  cfg.case_timeout = 20;
  cfg.body = [](pbt::Case& c) {
    destroyed.clear();
    Base::next = 0;
    Plain::next = 1000;
    World w{c};
    bool transferred = false, kept = false, released = false;
    std::string history;
    int ops = 1 + c.small(3, 59);
    auto add = [&](M mm) {
      w.m.push_back(mm);
      w.b.emplace_back();
      w.d.emplace_back();
      w.a.emplace_back();
      w.v.emplace_back();
      return w.m.size() - 1;
    };
    auto live = [&]() {
      std::vector<int> r;
      for (size_t i = 0; i < w.m.size(); ++i)
        if (w.m[i].kind >= 0)
          r.push_back(i);
      return r;
    };
    auto transfer = [&](M& to, M& from, bool construct) {
      to.obj = from.obj;
      to.owner = from.owner && !from.locked;
      if (from.owner)
        (from.locked ? kept : transferred) = true;
      if (!from.locked)
        from.owner = false;
      if (construct)
        to.locked = false;
    };
    auto doing = [&](std::string const& s) { c.note(s); history += s; return s; };
    for (int step = 0; step < ops; ++step)
    {
      auto l = live();
      auto pickp = [&]() { return l[c.draw(l.size() - 1)]; };
      int op = l.empty() ? 0 : c.weighted({l.size() < 7 ? 4 : 0, l.size() < 7 ? 5 : 0, 7, 3, 2, 2, 2, 2, 1});
      std::string what;
      auto n = [](int i) { return "p" + std::to_string(i); };
      switch (op)
      {
        case 0: // New pointer.
        {
          int kind = c.weighted({3, 2, 2, 1});
          int src = c.weighted({5, 1, w.loose.empty() ? 0 : 3});
          size_t i = add({kind});
          M& mm = w.m[i];
          if (src == 1)
          {
            what = doing(n(i) + " = null pointer of kind " + std::to_string(kind));
            switch (kind) { case 0: w.b[i].reset(new PB); break; case 1: w.d[i].reset(new PD(nullptr)); break; case 2: w.a[i].reset(new PA); break; case 3: w.v[i].reset(new PV); }
            break;
          }
          if (src == 2)
          {
            // Adopt a released object.
            int at = c.draw(w.loose.size() - 1);
            int o = w.loose[at];
            bool arr = w.objs[o].count > 1 || w.objs[o].first >= 1000;
            mm.kind = kind = arr ? 2 : 0;
            w.loose.erase(w.loose.begin() + at);
            mm.obj = o;
            mm.owner = true;
            what = doing(n(i) + " adopts object " + std::to_string(o));
            if (arr) w.a[i].reset(new PA((Plain*)w.objs[o].p)); else w.b[i].reset(new PB((Base*)w.objs[o].p));
            break;
          }
          Obj o{true, 0, 1, nullptr};
          switch (kind)
          {
            case 0:
            case 3:
            {
              o.first = Base::next;
              Base* x = c.coin() ? new Base : new Derived;
              o.p = x;
              if (kind == 0) w.b[i].reset(new PB(x)); else w.v[i].reset(new PV(x));
              break;
            }
            case 1: { o.first = Base::next; Derived* x = new Derived; o.p = static_cast<Base*>(x); w.d[i].reset(new PD(x)); break; }
            case 2: { o.first = Plain::next; o.count = 1 + c.draw(3); Plain* x = new Plain[o.count]; o.p = x; w.a[i].reset(new PA(x)); break; }
          }
          w.objs.push_back(o);
          mm.obj = w.objs.size() - 1;
          mm.owner = true;
          what = doing(n(i) + " = new object " + std::to_string(mm.obj) + " of kind " + std::to_string(kind) + " x" + std::to_string(o.count));
          break;
        }
        case 1: // Copy construct.
        {
          int j = pickp();
          int fk = w.m[j].kind;
          int kind = fk;
          if (fk == 1) kind = std::vector<int>{1, 0, 3}[c.draw(2)];
          else if (fk == 0) kind = c.chance(1, 4) ? 3 : 0;
          size_t i = add({kind});
          what = doing(n(i) + "(" + n(j) + ") of kind " + std::to_string(kind));
          if (kind == 0) w.b[i].reset(fk == 0 ? new PB(*w.b[j]) : new PB(*w.d[j]));
          else if (kind == 1) w.d[i].reset(new PD(*w.d[j]));
          else if (kind == 2) w.a[i].reset(new PA(*w.a[j]));
          else w.v[i].reset(fk == 0 ? new PV(*w.b[j]) : fk == 1 ? new PV(*w.d[j]) : new PV(*w.v[j]));
          transfer(w.m[i], w.m[j], true);
          if (kind != fk) c.label("converting copy");
          break;
        }
        case 2: // Assign.
        {
          int i = pickp(), j = pickp();
          int k = w.m[i].kind, fk = w.m[j].kind;
          bool possible = k == fk || (k == 0 && fk == 1) || (k == 3 && fk != 2);
          if (!possible)
            continue;
          what = doing(n(i) + " = " + n(j));
          if (i != j)
          {
            if (w.m[i].owner)
              w.die(w.m[i].obj);
            w.m[i].owner = false;
            transfer(w.m[i], w.m[j], false);
          }
          else
            c.label("self-assignment");
          if (k == 0) { PB& r = fk == 0 ? *w.b[i] = *w.b[j] : *w.b[i] = *w.d[j]; c.check(&r == w.b[i].get(), "return", "assignment returns another object"); }
          else if (k == 1) *w.d[i] = *w.d[j];
          else if (k == 2) *w.a[i] = *w.a[j];
          else if (fk == 0) *w.v[i] = *w.b[j];
          else if (fk == 1) *w.v[i] = *w.d[j];
          else *w.v[i] = *w.v[j];
          break;
        }
        case 3: // Lock.
        {
          int i = pickp();
          if (!w.m[i].owner)
            continue;
          what = doing(n(i) + ".lock()");
          w.on(i, [](auto& p) { p.lock(); });
          w.m[i].locked = true;
          break;
        }
        case 4:
        {
          int i = pickp();
          what = doing(n(i) + ".unlock()");
          w.on(i, [](auto& p) { p.unlock(); });
          w.m[i].locked = false;
          break;
        }
        case 5: // Release.
        {
          int i = pickp();
          if (!w.m[i].owner || w.m[i].kind == 3)
            continue;
          what = doing(n(i) + ".release()");
          void const* r = w.on(i, [](auto& p) -> void const* { return p.release(); });
          c.check(r == w.objs[w.m[i].obj].p, "release", "release() returns another pointer");
          w.m[i].owner = false;
          w.loose.push_back(w.m[i].obj);
          released = true;
          break;
        }
        case 6:
        case 7: // Reset or destroy.
        {
          int i = pickp();
          what = doing(n(i) + (op == 6 ? ".reset()" : ".~()"));
          if (w.m[i].owner)
            w.die(w.m[i].obj);
          w.m[i].owner = false;
          if (op == 6)
          {
            w.on(i, [](auto& p) { p.reset(); });
            w.m[i].obj = -1;
          }
          else
          {
            w.b[i].reset(); w.d[i].reset(); w.a[i].reset(); w.v[i].reset();
            w.m[i].kind = -1;
          }
          break;
        }
        case 8: // Free a released object by hand.
        {
          if (w.loose.empty())
            continue;
          int at = c.draw(w.loose.size() - 1);
          int o = w.loose[at];
          w.loose.erase(w.loose.begin() + at);
          what = doing("delete released object " + std::to_string(o));
          bool arr = w.objs[o].first >= 1000;
          void* p = w.objs[o].p;
          w.die(o);
          if (arr) delete[] (Plain*)p; else delete (Base*)p;
          break;
        }
      }
      w.verify(what.c_str());
    }
    for (size_t i = 0; i < w.m.size(); ++i)
      if (w.m[i].kind >= 0)
      {
        if (w.m[i].owner)
          w.die(w.m[i].obj);
        w.b[i].reset(); w.d[i].reset(); w.a[i].reset(); w.v[i].reset();
        w.m[i].kind = -1;
        w.verify("the destruction at the end");
      }
    for (int o : w.loose)
    {
      bool arr = w.objs[o].first >= 1000;
      void* p = w.objs[o].p;
      w.die(o);
      if (arr) delete[] (Plain*)p; else delete (Base*)p;
    }
    for (auto& o : w.objs)
      c.check(!o.alive, "leak", "the model left an object alive");
    w.verify("the end");
    if (transferred) c.label("transfer");
    if (kept) c.label("copy of a locked owner");
    if (released) c.label("release");
    if (transferred && (kept || released))
      c.nontrivial(history);
  };
  return pbt::Runner(cfg).main(argc, argv);
}
