// D05: literals in template arguments.
#include "demangle_common.h"
#include <cmath>

static std::string hex(uint64_t v, int digits)
{
  char b[40];
  snprintf(b, sizeof b, "%0*lx", digits, v);
  return b;
}

int main(int argc, char** argv)
{
  pbt::Config cfg;
  cfg.property = "D05";
  cfg.rule = "template arguments and expression operands that are literals: integers of up to 40 digits of every integral, "
             "character and enumeration type, booleans, float and double bit patterns of every class (zero, subnormal, normal, "
             "infinity, not-a-number, random, one bit, near powers of two and ten), long double and __float128 digits. "
             "Non-trivial: any literal other than a single digit";
  cfg.quick_cases = 8000000;
  cfg.thorough_cases = 60000000;
  cfg.body = [](pbt::Case& c) {
    int kind = c.weighted({4, 1, 4, 3, 1});
    std::string lit, expect;
    uint64_t bits = 0;
    auto digits = [&] {
      std::string d;
      int n = c.small(1, 40);
      for (int k = 0; k < n; ++k)
        d += (char)('0' + (k == 0 && n > 1 ? 1 + c.draw(8) : c.draw(9)));
      if (c.chance(1, 4))
      {
        static char const* const lim[] = {"2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
          "18446744073709551615", "18446744073709551616", "32767", "32768", "65535", "127", "128", "255", "256", "0",
          "170141183460469231731687303715884105728", "340282366920938463463374607431768211455"};
        d = c.pick(lim);
      }
      return d;
    };
    if (kind == 0)
    {
      struct T { char const *m, *name; };
      static T const types[] = {{"i", ""}, {"j", "unsigned int"}, {"l", "long"}, {"m", "unsigned long"}, {"x", "long long"},
        {"y", "unsigned long long"}, {"s", "short"}, {"t", "unsigned short"}, {"c", "char"}, {"a", "signed char"}, {"h", "unsigned char"},
        {"w", "wchar_t"}, {"n", "__int128"}, {"o", "unsigned __int128"}, {"1E", "E"}, {"N1N4EnumE", "N::Enum"}, {"N3std1EE", "std::E"}, {"St1E", "std::E"},
        {"NSt1E1FE", "std::E::F"}, {"Pi", "int*"}, {"PKc", "char const*"}, {"PFvvE", "void (*)()"}};
      T const& t = c.pick(types);
      bool neg = c.chance(1, 3);
      std::string d = digits();
      lit = std::string("L") + t.m + (neg ? "n" : "") + d + "E";
      expect = (*t.name ? "(" + std::string(t.name) + ")" : "") + (neg ? "-" : "") + d;
      c.label("integer");
      if (neg) c.label("negative");
      if (d.size() > 10) c.label("more than 32 bits");
      if (d.size() > 20) c.label("more than 64 bits");
    }
    else if (kind == 1)
    {
      bool v = c.coin();
      lit = v ? "Lb1E" : "Lb0E";
      expect = v ? "true" : "false";
      c.label("bool");
    }
    else if (kind == 2 || kind == 3)
    {
      bool dbl = kind == 2;
      int fb = dbl ? 52 : 23, eb = dbl ? 11 : 8;
      uint64_t frac_mask = (1ULL << fb) - 1, exp_max = (1ULL << eb) - 1;
      uint64_t sign = c.draw(1), ex = 0, fr = 0;
      auto fraction = [&] {
        switch (c.draw(4))
        {
          case 0: return (uint64_t)0;
          case 1: return (uint64_t)1 << c.draw(fb - 1);
          case 2: return frac_mask ^ ((uint64_t)1 << c.draw(fb - 1));
          case 3: return frac_mask >> c.draw(fb - 1);
          default: return c.draw(frac_mask);
        }
      };
      switch (c.weighted({3, 2, 1, 2, 1, 3}))
      {
        case 0: ex = 1 + c.draw(exp_max - 2); fr = fraction(); c.label(dbl ? "double, normal" : "float, normal"); break;
        case 1: ex = 0; fr = std::max<uint64_t>(1, fraction()); c.label(dbl ? "double, subnormal" : "float, subnormal"); break;
        case 2: ex = 0; fr = 0; c.label(dbl ? "double, zero" : "float, zero"); break;
        case 3: ex = exp_max; fr = c.coin() ? 0 : std::max<uint64_t>(1, fraction()); c.label(fr ? "not a number" : "infinity"); break;
        case 4:
        {
          // A short decimal number.
          double v = (double)c.range(1, 9999);
          int e = (int)c.range(dbl ? -300 : -35, dbl ? 300 : 33);
          std::string t = std::to_string((int)v) + "e" + std::to_string(e);
          if (dbl) { double x = strtod(t.c_str(), nullptr); memcpy(&bits, &x, 8); }
          else { float x = strtof(t.c_str(), nullptr); memcpy(&bits, &x, 4); }
          ex = bits >> fb & exp_max;
          fr = bits & frac_mask;
          c.label("short decimal");
          break;
        }
        case 5: ex = c.draw(exp_max); fr = c.draw(frac_mask); c.label(dbl ? "double, any" : "float, any"); break;
      }
      bits = sign << (fb + eb) | ex << fb | fr;
      lit = (dbl ? "Ld" + hex(bits, 16) : "Lf" + hex(bits, 8)) + "E";
    }
    else
    {
      std::string d;
      for (int k = 0; k < 32; ++k)
        d += "0123456789abcdef"[c.draw(15)];
      bool ld = c.coin();
      lit = (ld ? "Le" : "Lg") + d + "E";
      expect = (ld ? "(long double)[" : "(__float128)[") + d + "]";
      c.label("long double or __float128");
    }
    // Where the literal stands.
    std::string pre, post, name;
    switch (c.draw(4))
    {
      case 0: name = "1TI" + lit + "E"; pre = "T<"; post = ">"; break;
      case 1: name = "1TIi" + lit + "cE"; pre = "T<int, "; post = ", char>"; break;
      case 2: name = "N1N1TI" + lit + "E1UE"; pre = "N::T<"; post = ">::U"; break;
      case 3: name = "P1TI" + lit + "E"; pre = "T<"; post = ">*"; break;
      case 4: name = "1TIXng" + lit + "EE"; pre = "T<-("; post = ")>"; break;
    }
    bool symbol = c.coin();
    if (symbol)
    {
      name = "_Z1f" + name;
      pre = "f(" + pre;
      post += ")";
    }
    c.note(std::string(symbol ? "symbol: " : "type: ") + name);
    std::string got = symbol ? dm_symbol(name) : dm_type(name);
    bool framed = got.size() >= pre.size() + post.size() && got.compare(0, pre.size(), pre) == 0 &&
                  got.compare(got.size() - post.size(), std::string::npos, post) == 0;
    c.check(framed, got == name ? "not demangled" : "frame", "gives " + got + "\nexpected " + pre + "..." + post);
    std::string v = got.substr(pre.size(), got.size() - pre.size() - post.size());
    if (kind == 2 || kind == 3)
    {
      bool dbl = kind == 2;
      std::string type = dbl ? "(double)" : "(float)";
      c.check(v.compare(0, type.size(), type) == 0, "type", "gives " + got);
      v = v.substr(type.size());
      char* end;
      double x = strtod(v.c_str(), &end);
      c.check(!v.empty() && *end == 0 && !isspace((unsigned char)v[0]), "not a number text", "the value is printed as " + v);
      double want;
      if (dbl)
        memcpy(&want, &bits, 8);
      else
      {
        float f;
        uint32_t b = (uint32_t)bits;
        memcpy(&f, &b, 4);
        want = f;
      }
      char w[64];
      snprintf(w, sizeof w, "%.*g", dbl ? 17 : 9, want);
      if (std::isnan(want))
        c.check(std::isnan(x), "value", "printed as " + v + " instead of not a number");
      else if (std::isinf(want))
        c.check(x == want, "value", "printed as " + v + " instead of " + w);
      else if (dbl)
        c.check(x == want && std::signbit(x) == std::signbit(want), "value", "printed as " + v + " which is not " + w);
      else
      {
        // Eight significant digits.
        double err = std::fabs(x - want);
        double unit = want == 0 ? 0 : std::pow(10.0, std::floor(std::log10(std::fabs(want))) - 7);
        c.check(err <= unit * 0.5000001 && std::signbit(x) == std::signbit(want), "value", "printed as " + v + " instead of " + w);
      }
    }
    else
      c.check(v == expect, "value", "printed as " + v + "\nexpected " + expect);
    if (lit.size() > 4)
      c.nontrivial(name);
  };
  return pbt::Runner(cfg).main(argc, argv);
}
