#include "engine.h"

int main(int argc, char** argv)
{
  auto cfg = eng::config("E03", 60000, "at least two messages nested, of which at least one interrupted a continued message");
  cfg.body = [](pbt::Case& c) {
    eng::Profile p;
    p.more_threads = 20;
    p.continued = 30; p.nested = 60; p.null_str = 1; p.force = 2;
    eng::run_history(c, p, [&]([[maybe_unused]] eng::Gen& g, eng::Model& m) {
      if (m.ninterrupt >= 1 && m.nnested >= 2) c.nontrivial(m.log);
      if (m.ninterrupt) c.label("interrupted");
    });
  };
  return pbt::Runner(cfg).main(argc, argv);
}
