// U06: the map of function symbol ranges against a winner-per-address reference.
#include "sys.h"
#include "debug.h"
#include "dwarf_symbol_ranges.h"
#include "pbt.h"
using namespace libcwd::dwarf;

struct Sym { uintptr_t s, e; bool elf; std::string name; };

int main(int argc, char** argv)
{
  pbt::Config cfg;
  cfg.property = "U06";
  cfg.rule = "sequences of up to 24 insertions of [start, end) ranges in a window of 12..400 addresses at a random base (also at the "
             "ends of the address space): random, copied, shifted, nested, touching and empty ranges of either provenance, checked "
             "after every insertion. Non-trivial: some range was split or lost a part";
  cfg.quick_cases = 400000;
  cfg.thorough_cases = 12000000;
  cfg.body = [](pbt::Case& c) {
    static Dwarf_Die dies[64];
    static char cookie[64];
    FunctionSymbolRanges map;
    uintptr_t win = std::vector<int>{12, 24, 60, 400}[c.weighted({3, 3, 3, 1})];
    uintptr_t base;
    switch (c.weighted({3, 3, 1, 1}))
    {
      case 0: base = 0; break;
      case 1: base = 0x401000 + c.draw(0xffffff); break;
      case 2: base = ~(uintptr_t)0 - win; break;
      default: base = c.draw(~(uint64_t)0 - win); break;
    }
    std::vector<Sym> syms;
    syms.reserve(32);
    int n = 1 + c.small(1, 23);
    bool split = false;
    std::string h;
    std::vector<int> winner(win, -1);
    for (int k = 0; k < n; ++k)
    {
      uintptr_t s, e;
      int how = syms.empty() ? 0 : c.weighted({5, 2, 2, 2, 2, 1});
      if (how == 0)
      {
        s = c.draw(win);
        e = c.draw(win);
        if (e < s && !c.chance(1, 8))
          std::swap(s, e);
      }
      else
      {
        Sym const& o = syms[c.draw(syms.size() - 1)];
        s = o.s - base;
        e = o.e - base;
        switch (how)
        {
          case 1: break; // Equal.
          case 2: s += c.range(0, 3); e -= std::min<uintptr_t>(e, c.draw(3)); break;
          case 3: s -= std::min<uintptr_t>(s, c.draw(3)); e += c.draw(3); break;
          case 4: { uintptr_t len = e - s; int64_t d = c.range(-3, 3); s = (int64_t)s + d < 0 ? 0 : s + d; e = s + len; break; }
          case 5: { uintptr_t len = e - s; s = e; e = s + (c.coin() ? len : c.draw(4)); break; } // Touching.
        }
        s = std::min(s, win);
        e = std::min(e, win);
      }
      Sym y{base + s, base + e, c.coin(), "f" + std::to_string(k)};
      c.note("insert [" + std::to_string(s) + ", " + std::to_string(e) + ") " + (y.elf ? "elf " : "dwarf ") + y.name + (k ? "" : " base " + std::to_string(base)));
      h += std::to_string(s) + "-" + std::to_string(e) + (y.elf ? "e" : "d");
      dies[k].addr = &cookie[k];
      syms.push_back(y);
      // The reference.
      bool owns = false, loses = false;
      if (s < e)
        for (uintptr_t a = s; a < e; ++a)
        {
          int w = winner[a];
          bool wins = w < 0;
          if (!wins)
          {
            Sym const& o = syms[w];
            wins = o.elf != y.elf ? o.elf : e - s < o.e - o.s;
          }
          (wins ? owns : loses) = true;
          if (wins)
            winner[a] = k;
        }
      split = split || (owns && loses);
      bool got = insert_function_symbol_range(map, y.s, y.e, syms[k].name.c_str(), y.elf ? nullptr : &dies[k]);
      c.check(got == owns, "result", std::string("the result of the insertion is ") + (got ? "true" : "false"));
      std::vector<int> have(win, -1);
      uintptr_t prev_end = 0;
      bool first = true;
      for (auto const& [key, r] : map)
      {
        c.check(r.start_addr() < r.end_addr(), "empty", "an empty range");
        c.check(key == r.end_addr(), "key", "a range is filed under another address than its end");
        c.check(first || prev_end <= r.start_addr(), "overlap", "overlapping ranges");
        prev_end = r.end_addr();
        first = false;
        int id = atoi(r.name() + 1);
        c.check(id <= k && syms[id].name == r.name(), "name", "unknown name");
        c.check(r.size() == syms[id].e - syms[id].s, "size", "the range of " + syms[id].name + " has another original size");
        c.check(r.is_elf_symbol() == syms[id].elf, "provenance", "the range of " + syms[id].name + " changed its provenance");
        c.check(r.start_addr() >= syms[id].s && r.end_addr() <= syms[id].e, "extent", "a fragment of " + syms[id].name + " sticks out");
        for (uintptr_t a = r.start_addr(); a < r.end_addr(); ++a)
          have[a - base] = id;
      }
      for (uintptr_t a = 0; a < win; ++a)
        if (have[a] != winner[a])
          c.fail("winner", "address " + std::to_string(a) + " belongs to " + (have[a] < 0 ? "nothing" : syms[have[a]].name) + " instead of " +
                               (winner[a] < 0 ? "nothing" : syms[winner[a]].name));
    }
    if (split)
      c.nontrivial(h);
    c.label(split ? "split" : "no split");
  };
  return pbt::Runner(cfg).main(argc, argv);
}
