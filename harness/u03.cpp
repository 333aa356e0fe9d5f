// U03: names of error numbers.
#include "sys.h"
#include "debug.h"
#include "pbt.h"
#include <libcwd/strerrno.h>
#include <cerrno>
#include <climits>

// Two names for one number.
static bool alias(int e, std::string const& n)
{
  static struct { char const* n; int e; } const a[] = {{"EWOULDBLOCK", EWOULDBLOCK}, {"EDEADLOCK", EDEADLOCK}, {"EOPNOTSUPP", EOPNOTSUPP}, {"ENOTSUP", ENOTSUP}};
  for (auto& x : a)
    if (n == x.n && e == x.e)
      return true;
  return false;
}

int main(int argc, char** argv)
{
  pbt::Config cfg;
  cfg.property = "U03";
  cfg.rule = "sequences of queries of error numbers: all of -300..5000 in every order over the run, values around powers of two, "
             "limits and random ints. Non-trivial: the number is one that the C library has a name for";
  cfg.quick_cases = 600000;
  cfg.thorough_cases = 20000000;
  cfg.body = [](pbt::Case& c) {
    int n = 1 + c.small(0, 12);
    std::vector<std::pair<int, std::string>> seen;
    std::string all;
    bool named = false;
    for (int k = 0; k < n; ++k)
    {
      int e;
      switch (c.weighted({8, 2, 1, 1}))
      {
        case 0: e = (int)c.draw(140); break;
        case 1: e = (int)c.range(-300, 5000); break;
        case 2: { int sh = (int)c.draw(31); e = (int)((1u << sh) + (unsigned)c.range(-2, 2)); if (c.coin()) e = (int)-(long)e; break; }
        default: e = (int)c.draw(0xffffffffULL); break;
      }
      if (k && c.chance(1, 4))
        e = seen[c.draw(seen.size() - 1)].first;
      c.note("strerrno(" + std::to_string(e) + ")");
      char const* p = libcwd::strerrno(e);
      c.check(p != nullptr, "null", "a null pointer for " + std::to_string(e));
      std::string name(p);
      c.check(!name.empty(), "empty", "an empty name for " + std::to_string(e));
      for (unsigned char x : name)
        c.check(x >= 32 && x < 127, "unprintable", "the name of " + std::to_string(e) + " is " + pbt::quote(name));
      char const* ref = strerrorname_np(e);
      if (ref)
      {
        named = true;
        all += std::to_string(e) + " ";
        c.check(name == ref || alias(e, name), "name", "the name of " + std::to_string(e) + " is " + name + " instead of " + ref);
        c.label(e ? "known" : "zero");
      }
      else
      {
        // It must not be the name of another number.
        for (int o = 1; o < 200; ++o)
        {
          char const* r = strerrorname_np(o);
          c.check(!r || name != r, "name", std::to_string(e) + " is called " + name + " but that is " + std::to_string(o));
        }
        c.label("unknown");
      }
      for (auto& [pe, pn] : seen)
        c.check(pe != e || pn == name, "history", "the name of " + std::to_string(e) + " was " + pn + " and is now " + name);
      seen.push_back({e, name});
    }
    if (named)
      c.nontrivial(all);
  };
  return pbt::Runner(cfg).main(argc, argv);
}
