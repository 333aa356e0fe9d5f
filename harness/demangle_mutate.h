// Corrupted, truncated and adversarial manglings.
#pragma once
#include "demangle_common.h"

namespace mut {

inline char const* const tokens[] = {
  "_Z", "N", "E", "I", "K", "V", "r", "P", "R", "A", "A5_", "A_", "M", "F", "FY", "v", "i", "z", "S_", "S0_", "S1_", "S2_", "S9_",
  "SZ_", "S10_", "SZZZZZZZ_", "St", "Sa", "Sb", "Ss", "Si", "So", "Sd", "T_", "T0_", "T1_", "T9_", "T99999999999_", "L", "Li5E", "Lb1E", "Lin7E",
  "Ld3ff0000000000000E", "Lf3f800000E", "LdE", "LfE", "Lf3f8E", "Lx", "L_Z1fvE", "LZ1fvE", "X", "XadL_Z1fvEE", "Xpl", "st", "sr", "ad", "pl", "mi", "ml", "qu",
  "cv", "cvT_", "nw", "na", "cl", "ix", "pt", "lt", "gt", "ls", "rs", "eq", "co", "C1", "C2", "C3", "D0", "D1", "D2", "C", "D", "G", "GV", "TV",
  "TT", "TI", "TS", "TC", "Th", "Tv", "Tc", "T", "h0_", "hn8_", "v0_n24_", "Z", "s", "d", "_", "__", "_1", "__10_", "0", "1", "1a", "2", "3foo",
  "10", "99999999999999999999", "2147483647", "2147483648", "4294967295", "n", "12_GLOBAL__N_1", "U", "U3foo", "u", "u3foo", "C_", "G_", "_GLOBAL__I_x", "J", "O", "Dp", "DT",
  "n1", "nan", "1T", "1TI", "IiE", "ES_", "PS_", "PKc", "MS_", "M1C", "M1CF", "FvvE", "PFvvE", "A3_A4_", "A3_PS_", "$", ".", "@", " ",
};
inline char const* const nesters[] = {
  "P", "R", "K", "V", "r", "PK", "A1_", "A_", "M", "M1C", "F", "PF", "FP", "I", "N", "N1a", "1aI", "N1aI", "Z", "Z1f", "ZN", "X", "Xad", "XadL", "LZ", "L_Z",
  "XLZ", "XL_Z", "st", "Xst", "sr", "Xsr", "cv", "cvP", "N1acv", "T", "Tv0_0_", "Th0_", "Tch0_h0_", "GV", "TV", "TC", "TV1TI", "_Z", "S", "St", "S_", "P1a", "U1a", "Xpl",
  "Xqu", "XplLi1E", "1aIX", "C", "G", "n", "d", "PA1_", "A1_P", "FvP", "PM1aF", "M1aFi", "1aIPF", "0", "9", "1", "__", "aa",
};

// Some text over the whole range; the flag says whether it is one that makes sense as a type.
inline std::string generate(pbt::Case& c, bool& as_type)
{
  as_type = c.coin();
  std::string s;
  auto valid = [&] {
    mg::Gen g(c);
    if (as_type)
      return mg::mangle_type(g.type(0));
    return mg::mangle_symbol(g.symbol());
  };
  switch (c.weighted({10, 4, 3, 3}))
  {
    case 0:
    {
      s = valid();
      int n = c.weighted({2, 6, 3, 2, 1, 1});
      for (int k = 0; k < n; ++k)
      {
        size_t at = c.draw(s.size());
        switch (c.draw(8))
        {
          case 0: s.resize(at); c.label("truncated"); break;
          case 1: if (at < s.size()) s.erase(at, 1 + c.draw(3)); c.label("deleted"); break;
          case 2: s.insert(at, c.pick(tokens)); c.label("token inserted"); break;
          case 3: if (at < s.size()) s[at] = (char)(1 + c.draw(254)); c.label("byte replaced"); break;
          case 4: if (at < s.size()) { std::string t = c.pick(tokens); s.replace(at, t.size(), t); } c.label("token replaced"); break;
          case 5:
          {
            size_t b = c.draw(s.size());
            std::string piece = s.substr(std::min(at, b), std::max(at, b) - std::min(at, b));
            s.insert(c.draw(s.size()), piece);
            c.label("piece duplicated");
            break;
          }
          case 6: if (at + 1 < s.size()) std::swap(s[at], s[at + 1]); c.label("swapped"); break;
          case 7: s.insert(at, 1, "0123456789EISNTL_nX"[c.draw(18)]); c.label("character inserted"); break;
          case 8:
          {
            std::string o = valid();
            size_t b = c.draw(o.size());
            s = s.substr(0, at) + o.substr(b);
            c.label("spliced");
            break;
          }
        }
        if (s.size() > 4000)
          s.resize(4000);
      }
      if (n == 0)
        c.label("valid");
      break;
    }
    case 1:
    {
      if (!as_type || c.chance(1, 4))
        s = "_Z";
      int n = c.small(0, 60);
      for (int k = 0; k < n; ++k)
        s += c.pick(tokens);
      c.label("token soup");
      break;
    }
    case 2:
    {
      if (c.coin())
        s = "_Z";
      int n = c.small(0, 200);
      for (int k = 0; k < n; ++k)
        s += (char)(1 + c.draw(254));
      c.label("random bytes");
      break;
    }
    case 3:
    {
      if (!as_type)
        s = "_Z";
      int levels = c.weighted({60, 30, 5, 1});
      static int const depth[] = {20, 300, 1200, 20000};
      int n = 1 + c.draw(depth[levels]);
      std::string a = c.pick(nesters);
      if (c.chance(1, 3))
        a += c.pick(nesters);
      for (int k = 0; k < n; ++k)
        s += a;
      s += c.pick(tokens);
      int e = c.weighted({1, 1, 1});
      for (int k = 0; k < (e == 0 ? 0 : e == 1 ? n : (int)c.draw(2 * n)); ++k)
        s += 'E';
      if (c.coin())
        s += c.pick(tokens);
      c.label(n > 256 ? "deep nest" : "nest");
      break;
    }
  }
  if (size_t z = s.find('\0'); z != std::string::npos)
    s.resize(z);
  return s;
}

} // namespace mut
