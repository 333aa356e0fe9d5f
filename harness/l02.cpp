// L02: Location objects as values, with the documented ownership of the path.
#include "loc.h"
#include <new>
#include <optional>
using namespace loc;
using libcwd::Location;

// The paths are allocated with new [].
static long arrays;
void* operator new[](size_t n)
{
  ++arrays;
  if (void* p = malloc(n ? n : 1)) return p;
  throw std::bad_alloc();
}
void operator delete[](void* p) noexcept { if (p) --arrays; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) --arrays; free(p); }

struct M
{
  enum K { none, fresh, cleared, located } k = none;
  int site = -1;
  int path = -1;      // Index in alive, of a known location.
  bool owner = false, locked = false;
};

int main(int argc, char** argv)
{
  init();
  for (auto& x : sites) Location l(x.pc);
  pbt::Config cfg;
  cfg.property = "L02";
  cfg.quick_cases = 200000;
  cfg.thorough_cases = 10000000;
  cfg.case_timeout = 20;
  cfg.rule = "a history in which ownership of a path moved to a copy, stayed with a locked location, and a location was looked up again, cleared or assigned over while it had a path";
  cfg.body = [](Case& c) {
    int const N = 6;
    std::optional<Location> v[N];
    M m[N];
    std::vector<bool> alive;
    bool moved = false, stayed = false, replaced = false;
    std::string history;
    long base = arrays;
    auto n = [](int i) { return std::string(1, 'a' + i); };
    // The path of m[i] is given up.
    auto drop = [&](M& x) {
      if (x.path >= 0) replaced = true;
      if (x.path >= 0 && x.owner) alive[x.path] = false;
      x.path = -1;
      x.owner = false;
    };
    auto give = [&](M& to, M& from) {
      to.k = from.k;
      to.site = from.site;
      to.path = from.path;
      to.owner = false;
      if (from.path >= 0)
      {
        to.owner = from.owner && !from.locked;
        if (from.owner) (from.locked ? stayed : moved) = true;
        if (!from.locked) from.owner = false;
      }
    };
    auto look = [&](M& x, int s) {
      x.k = M::located;
      x.site = s;
      if (sites[s].known)
      {
        x.path = alive.size();
        x.owner = true;
        alive.push_back(true);
      }
    };
    auto usable = [&](M const& x) { return x.k != M::none && (x.path < 0 || alive[x.path]); };
    int steps = 2 + c.small(4, 40);
    for (int step = 0; step <= steps; ++step)
    {
      std::string what;
      if (step == steps) // Destroy everything, in some order.
      {
        what = "destroy all";
        int at = c.draw(N - 1);
        for (int k = 0; k < N; ++k)
        {
          int i = (at + k * 5) % N;
          v[i].reset();
          drop(m[i]);
          m[i] = M();
        }
      }
      else
      {
        int i = c.draw(N - 1), j = c.draw(N - 1), s = c.draw(sites.size() - 1);
        if (!v[i])
          switch (c.weighted({6, 1, v[j] && usable(m[j]) ? 6 : 0}))
          {
            case 0:
              what = "Location " + n(i) + "(" + sites[s].what + ")";
              v[i].emplace(sites[s].pc);
              look(m[i], s);
              break;
            case 1:
              what = "Location " + n(i);
              v[i].emplace();
              m[i].k = M::fresh;
              break;
            case 2:
              what = "Location " + n(i) + "(" + n(j) + ")";
              if (c.coin()) v[i].emplace(*v[j]); else v[i].emplace(std::move(*v[j]));
              give(m[i], m[j]);
              break;
          }
        else
          switch (c.weighted({3, 2, 2, v[j] && usable(m[j]) ? 6 : 0, m[i].owner ? 3 : 0, v[j] && i != j && usable(m[j]) && usable(m[i]) ? 1 : 0}))
          {
            case 0:
              what = n(i) + ".pc_location(" + sites[s].what + ")";
              v[i]->pc_location(sites[s].pc);
              drop(m[i]);
              look(m[i], s);
              break;
            case 1:
              what = n(i) + ".clear()";
              v[i]->clear();
              drop(m[i]);
              m[i].k = M::cleared;
              break;
            case 2:
              what = "destroy " + n(i);
              v[i].reset();
              drop(m[i]);
              m[i] = M();
              break;
            case 3:
              what = n(i) + " = " + n(j);
              *v[i] = *v[j];
              if (i != j)
              {
                // Assigning the owner of the path that is still shared with the source would free it.
                drop(m[i]);
                give(m[i], m[j]);
              }
              break;
            case 4:
              what = n(i) + ".lock_ownership()";
              v[i]->lock_ownership();
              m[i].locked = true;
              break;
            case 5:
            {
              what = "swap(" + n(i) + ", " + n(j) + ")";
              using std::swap;
              swap(*v[i], *v[j]);
              M t;
              give(t, m[i]);
              drop(m[i]);
              give(m[i], m[j]);
              drop(m[j]);
              give(m[j], t);
              drop(t);
              break;
            }
          }
      }
      if (what.empty()) continue;
      c.note(what);
      history += what + ";";
      long live = 0;
      for (bool b : alive) live += b;
      c.check(arrays - base == live, "leak", "after " + what + " there are " + std::to_string(arrays - base) + " paths allocated instead of " + std::to_string(live));
      for (int i = 0; i < N; ++i)
      {
        if (!usable(m[i])) continue;
        std::string d;
        if (m[i].k == M::located)
          d = differs(*v[i], sites[m[i].site]);
        else if (v[i]->is_known() || v[i]->filename_length() || v[i]->filepath_length() || v[i]->object_file() || v[i]->unknown_pc() || v[i]->initialization_delayed())
          d = "it is not unknown";
        else if (v[i]->mangled_function_name()[0] != '<')
          d = std::string("it has a function: ") + v[i]->mangled_function_name();
        if (d.empty())
        {
          std::ostringstream o;
          o << *v[i];
          std::string t = text(*v[i], m[i].site < 0 || m[i].k != M::located ? nullptr : &sites[m[i].site], 0);
          if (o.str() != t) d = "it is printed as " + quote(o.str()) + " instead of " + quote(t);
        }
        c.check(d.empty(), "value", "after " + what + " " + n(i) + (m[i].k == M::located ? ", a location of " + sites[m[i].site].what : " that has no location") + ": " + d);
      }
    }
    if (moved && stayed && replaced) c.nontrivial(history);
  };
  return pbt::Runner(cfg).main(argc, argv);
}
