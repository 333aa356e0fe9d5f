// D04: symbols.
#include "demangle_common.h"
int main(int argc, char** argv)
{
  pbt::Config cfg;
  cfg.property = "D04";
  cfg.rule = "the symbol names an entity with at least one of: nested scope, template arguments, parameters, operator, "
             "substitution, special prefix; and the reference demangler confirms the generated name";
  cfg.quick_cases = 3000000;
  cfg.thorough_cases = 200000000;
  cfg.body = [](pbt::Case& c) {
    mg::Gen g(c);
    mg::EP e = g.symbol();
    int used = 0;
    std::string m = mg::mangle_symbol(e, &used);
    mg::Printer p;
    std::string expect = p.encoding(*e);
    c.note("symbol: " + m + "\nexpect: " + expect);
    if (e->kind != mg::Encoding::GlobalInit)
    {
      mg::Printer f;
      f.filt = true;
      if (!confirmed(c, g, m, f.encoding(*e)))
        c.discard();
    }
    std::string got = dm_symbol(m);
    c.check(got == expect, got == m ? "not demangled" : "wrong text", "demangle_symbol gives: " + got + "\nexpected:              " + expect);
    for (auto& f : g.features)
      c.label(f);
    if (used)
      c.label("substitutions");
    if (used || m.size() > 12)
      c.nontrivial(m);
  };
  return pbt::Runner(cfg).main(argc, argv);
}
