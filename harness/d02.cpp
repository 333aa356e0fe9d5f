// D02: what cannot be demangled is passed through; what was in the output stays; the answer depends on the input only.
#include "demangle_mutate.h"

static std::string prior_text(pbt::Case& c)
{
  static char const* const p[] = {"", ">", "<", "(", ")", " ", "a", "_", "operator", "::", "A::B", "std::", "*", "&", "[", "-", "~", "x<y>", "const", "_Z1fv", "\x80", "int (*", ",", "0"};
  std::string s = c.pick(p);
  if (c.chance(1, 4))
    s += std::string(c.draw(40), ' ') + c.pick(p);
  if (c.chance(1, 10))
    s += std::string(1, '\0') + c.pick(p);
  return s;
}

int main(int argc, char** argv)
{
  pbt::Config cfg;
  cfg.property = "D02";
  cfg.rule = "names that are invalid by construction (no mangling prefix; a valid name that was cut off or got a tail that "
             "cannot continue it, where the reference demangler takes the whole and rejects the result), valid names and "
             "arbitrary mutations, names with an unknown operator, a component in a place where it can not be, or almost the prefix of a static "
             "initializer, each demangled into outputs with prior content and again after other names. Non-trivial: "
             "at least three bytes and a prior content or an invalid name";
  cfg.quick_cases = 2500000;
  cfg.thorough_cases = 20000000;
  cfg.body = [](pbt::Case& c) {
    bool as_type = false, invalid = false;
    std::string s;
    int kind = c.weighted({8, 8, 4, 4, 6, 1, 2, 2});
    auto valid = [&](bool t) {
      mg::Gen g(c);
      return t ? mg::mangle_type(g.type(0)) : mg::mangle_symbol(g.symbol());
    };
    if (kind <= 1)
    {
      as_type = c.coin();
      s = valid(as_type);
      bool global = s.compare(0, 8, "_GLOBAL_") == 0;
      bool known = !global && !mg::reference(s).empty();
      if (kind == 0)
        s.resize(c.draw(s.size() - 1));
      else
        s += "E$@. ?\x80-"[c.draw(7)];
      // The reference takes a bare "_Z" prefix as text too.
      invalid = known && !s.empty() && mg::reference(s).empty();
      c.label(kind == 0 ? "cut off" : "tail");
    }
    else if (kind == 2)
    {
      // A symbol that does not start like one.
      s = valid(false);
      switch (c.draw(4))
      {
        case 0: s = s.substr(1); break;
        case 1: s = s.substr(2); break;
        case 2: s = "_" + s; break;
        case 3: s[1] = "zXNYz0"[c.draw(5)]; break;
        case 4: s.insert(c.draw(1), 1, " zZ.-a"[c.draw(5)]); break;
      }
      invalid = s.compare(0, 2, "_Z") != 0 && s.compare(0, 9, "_GLOBAL__") != 0;
      c.label("no prefix");
    }
    else if (kind == 3)
    {
      as_type = c.coin();
      s = valid(as_type);
      c.label("valid");
    }
    else if (kind == 5)
    {
      // Almost the prefix of a static initializer.
      std::string p = "_GLOBAL__";
      switch (c.draw(5))
      {
        case 0: p.resize(1 + c.draw(8)); break;
        case 1: p[2 + c.draw(6)] = "_AZgI"[c.draw(4)]; break;
        case 2: p += "_"; break;
        case 3: p = "_G" + std::string(c.draw(8), 'x'); break;
        case 4: break;
      }
      for (int n = c.draw(3); n > 0; --n) p += "DIN_xsub"[c.draw(7)];
      if (c.coin()) p += "_";
      if (c.coin()) p += valid(false);
      s = p;
      invalid = s.compare(0, 2, "_Z") != 0 && s.compare(0, 11, "_GLOBAL__D_") != 0 && s.compare(0, 11, "_GLOBAL__I_") != 0;
      c.label("almost a static initializer");
    }
    else if (kind == 6)
    {
      // An operator that does not exist, as name and in an expression.
      static char const first[] = "acdegilmnopqrstvxzACLZ0_", second[] = "wlsepnihdvtamoczrSLIDVMRNOgqx1_E";
      static std::string const known = " nw na dl da ps ng ad de co pl mi ml dv rm an or eo aS pL mI mL dV rM aN oR eO ls rs lS rS eq ne lt gt le ge nt aa oo pp mm cm pm pt cl ix qu st sz sr cv ";
      std::string op{first[c.draw(sizeof first - 2)], second[c.draw(sizeof second - 2)]}, arg[3] = {"Li1E", "T_", "Lb0E"};
      bool digits = isdigit(op[0]) || isdigit(op[1]);
      if (known.find(" " + op + " ") == std::string::npos && !digits)
      {
        invalid = true;
        std::string operands;
        for (int n = 0; n <= 3; ++n) // The reference also knows newer ones.
        {
          if (!mg::reference("_Z1fIiEvN1aIX" + op + operands + "EE1tE").empty() || !mg::reference("_Z" + op + operands + "v").empty() || !mg::reference("_ZN1a" + op + "Ev").empty()) invalid = false;
          if (n < 3) operands += arg[n];
        }
      }
      std::string operands;
      for (int n = c.draw(3), i = 0; i < n; ++i) operands += c.pick(arg);
      switch (c.draw(2))
      {
        case 0: s = "_Z1fIiEvN1aIX" + op + operands + "EE1tE"; break;
        case 1: s = "_ZN1a" + op + "Ev"; break;
        case 2: s = "_Z" + op + "1aS_"; break;
      }
      if (op[0] == 'L' || op[0] == 'T' || op[0] == 'S' || op[0] == 'N' || op[0] == 'Z' || op[1] == 'E' || op[0] == 'C') invalid = false;
      c.label("operator");
    }
    else if (kind == 7)
    {
      // Something in a nested name that can only be its start, or a nested name that is not one.
      static char const* const start[] = {"S_", "S0_", "St", "Sa", "Sb", "Ss", "Si", "So", "Sd", "T_"};
      std::string pre[3] = {"1a", "2bcIiE", "3fooI1aE"}, name;
      if (c.chance(1, 3)) name = c.pick(start);
      else if (c.chance(1, 4)) name = "IiE1a";
      else
      {
        for (int n = 1 + c.draw(2); n > 0; --n) name += c.pick(pre);
        name += c.pick(start);
        if (c.coin()) name += c.pick(pre);
      }
      std::string n = (c.coin() ? "NK" : "N") + name + "E";
      switch (c.draw(3))
      {
        case 0: s = "_Z" + n + "v"; break;
        case 1: s = "_Z1fI1a2bcEv" + n; break;
        case 2: s = "_Z1fI1a2bcEvP1cI" + n + "E"; break;
        case 3: s = "P1a1dI1bP" + n + "E"; as_type = true; break;
      }
      invalid = true;
      c.label("nested name");
    }
    else
    {
      s = mut::generate(c, as_type);
      // Back references make long inputs explode.
      if (s.size() > 80)
        s.resize(80);
      c.label("mutated");
    }
    auto dm = [&](std::string const& x, std::string const& prior) { return as_type ? dm_type(x, prior) : dm_symbol(x, prior); };
    std::string prior = prior_text(c);
    c.note(std::string(as_type ? "type: " : "symbol: ") + pbt::quote(s) + "\nprior content: " + pbt::quote(prior));
    std::string alone = dm(s, "");
    if (invalid)
    {
      c.check(alone == s, "invalid name changed", "the invalid name " + pbt::quote(s) + " gives " + pbt::quote(alone));
      c.label("invalid");
    }
    std::string got = dm(s, prior);
    c.check(got == prior + alone, "prior content",
            "into an empty string: " + pbt::quote(alone) + "\nappended: " + pbt::quote(got) + "\nexpected: " + pbt::quote(prior + alone));
    // Other names in between do not matter.
    int others = c.draw(2);
    std::string acc = prior, expect = prior;
    for (int k = 0; k < others; ++k)
    {
      bool t;
      std::string o = mut::generate(c, t);
      if (o.size() > 80)
        o.resize(80);
      c.note(std::string("then ") + (t ? "type: " : "symbol: ") + pbt::quote(o));
      std::string r = t ? dm_type(o) : dm_symbol(o);
      {
        Exact e(o);
        t ? libcwd::demangle_type(e.p, acc) : libcwd::demangle_symbol(e.p, acc);
      }
      expect += r;
      c.check(acc == expect, "accumulated", "accumulating gives " + pbt::quote(acc) + "\nexpected " + pbt::quote(expect));
    }
    if (others)
    {
      std::string again = dm(s, "");
      c.check(again == alone, "history", "first: " + pbt::quote(alone) + "\nafter other names: " + pbt::quote(again));
      c.label("repeated after others");
    }
    if (c.chance(1, 20))
    {
      std::string o = prior;
      as_type ? libcwd::demangle_type(nullptr, o) : libcwd::demangle_symbol(nullptr, o);
      c.check(o == prior + "(null)", "null", "a null pointer gives " + pbt::quote(o) + " after " + pbt::quote(prior));
      c.label("null pointer");
    }
    if (s.size() >= 3 && (invalid || !prior.empty()))
      c.nontrivial(s + '\0' + prior);
  };
  return pbt::Runner(cfg).main(argc, argv);
}
