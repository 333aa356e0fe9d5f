// U01: the wildcard matcher against a dynamic programming reference.
#include "sys.h"
#include "debug.h"
#include "pbt.h"
namespace libcwd::_private_ { bool match(char const* mask, size_t masklen, char const* name); }

static bool reference(std::string const& m, std::string const& n)
{
  // row[j]: the first i mask characters match the first j name characters.
  std::vector<char> row(n.size() + 1, 0);
  row[0] = 1;
  for (char c : m)
  {
    std::vector<char> next(n.size() + 1, 0);
    if (c == '*')
    {
      bool any = false;
      for (size_t j = 0; j <= n.size(); ++j)
        next[j] = any = any || row[j];
    }
    else
      for (size_t j = 0; j < n.size(); ++j)
        next[j + 1] = row[j] && n[j] == c;
    row = next;
  }
  return row[n.size()];
}

int main(int argc, char** argv)
{
  pbt::Config cfg;
  cfg.property = "U01";
  cfg.rule = "masks over a small alphabet with runs of asterisks, derived from the name or random, in a heap block of exactly the "
             "mask's length or in front of other text; names that are derived from the mask, damaged, or random. Non-trivial: "
             "the mask has an asterisk and another character and the name is not empty";
  cfg.quick_cases = 3000000;
  cfg.thorough_cases = 60000000;
  cfg.case_timeout = 30;
  cfg.body = [](pbt::Case& c) {
    int alpha = c.weighted({4, 2, 1, 1});
    auto ch = [&]() -> char {
      switch (alpha)
      {
        case 0: return (char)('A' + c.draw(1));
        case 1: return (char)('A' + c.draw(3));
        case 2: return "AB_ ,?.[]\\"[c.draw(9)];
        default: { char x = (char)(1 + c.draw(254)); return x == '*' ? 'x' : x; }
      }
    };
    std::string m, n;
    int len = c.small(0, 14);
    int stars = 0;
    for (int k = 0; k < len; ++k)
    {
      // Matching takes time that is exponential in the number of asterisks.
      if (stars < 6 && c.chance(2, 5))
      {
        m += '*';
        ++stars;
      }
      else
        m += ch();
    }
    switch (c.weighted({4, 3, 2}))
    {
      case 0:
        for (char x : m)
          if (x == '*')
            for (int k = c.small(0, 4); k > 0; --k)
              n += ch();
          else
            n += x;
        c.label("instance of the mask");
        break;
      case 1:
        for (char x : m)
          if (x == '*')
            for (int k = c.small(0, 3); k > 0; --k)
              n += ch();
          else
            n += x;
        for (int k = 1 + c.draw(1); k > 0; --k)
        {
          size_t at = c.draw(n.size());
          switch (c.draw(2))
          {
            case 0: if (at < n.size()) n.erase(at, 1); break;
            case 1: n.insert(at, 1, ch()); break;
            case 2: if (at < n.size()) n[at] = ch(); break;
          }
        }
        c.label("damaged instance");
        break;
      case 2:
        for (int k = c.small(0, 12); k > 0; --k)
          n += c.chance(1, 12) ? '*' : ch();
        c.label("random name");
        break;
    }
    // What stands behind the mask.
    int tail = c.weighted({3, 2, 2, 2});
    std::string behind;
    switch (tail)
    {
      case 1: behind = "*"; break;
      case 2: behind = n.substr(std::min(n.size(), m.size())) + "*"; break;
      case 3: for (int k = c.small(1, 5); k > 0; --k) behind += c.coin() ? '*' : ch(); break;
    }
    c.note("mask: " + pbt::quote(m) + " followed by " + pbt::quote(behind) + "\nname: " + pbt::quote(n));
    std::unique_ptr<char[]> buf(new char[m.size() + behind.size()]);
    memcpy(buf.get(), m.data(), m.size());
    memcpy(buf.get() + m.size(), behind.data(), behind.size());
    std::unique_ptr<char[]> name(new char[n.size() + 1]);
    memcpy(name.get(), n.c_str(), n.size() + 1);
    bool got = libcwd::_private_::match(buf.get(), m.size(), name.get());
    bool want = reference(m, n);
    c.label(want ? "matches" : "does not match");
    if (stars > 1)
      c.label("several asterisks");
    if (m.empty())
      c.label("empty mask");
    c.check(got == want, "match", std::string("the result is ") + (got ? "true" : "false"));
    if (stars && stars < (int)m.size() && !n.empty())
      c.nontrivial(m + '\0' + n);
  };
  return pbt::Runner(cfg).main(argc, argv);
}
