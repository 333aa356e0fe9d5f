// D03: types.
#include "demangle_common.h"
int main(int argc, char** argv)
{
  pbt::Config cfg;
  cfg.property = "D03";
  cfg.rule = "the type is compound (at least one pointer, reference, qualifier, array, function, member pointer, nested name "
             "or template argument) and the reference demangler confirms the generated name";
  cfg.quick_cases = 4000000;
  cfg.thorough_cases = 200000000;
  cfg.body = [](pbt::Case& c) {
    mg::Gen g(c);
    mg::TP t = g.type(0);
    int used = 0;
    std::string m = mg::mangle_type(t, &used);
    mg::Printer p;
    std::string expect = p.type(t);
    c.note("type: " + m + "\nexpect: " + expect);
    {
      mg::Printer f;
      f.filt = true;
      if (!confirmed(c, g, m, f.type(t)))
        c.discard();
    }
    std::string got = dm_type(m);
    c.check(got == expect, got == m ? "not demangled" : "wrong text", "demangle_type gives: " + got + "\nexpected:            " + expect);
    for (auto& f : g.features)
      c.label(f);
    if (used)
      c.label("substitutions");
    if (m.size() > 2)
      c.nontrivial(m);
  };
  return pbt::Runner(cfg).main(argc, argv);
}
