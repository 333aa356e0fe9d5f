#include "engine.h"

int main(int argc, char** argv)
{
  auto cfg = eng::config("E12", 60000, "at least two debug objects wrote output, or one wrote to more than one stream");
  cfg.body = [](pbt::Case& c) {
    eng::Profile p;
    p.objects = 2 + c.draw(2); p.stream = 12; p.nested = 50; p.cerr_bias = 20; p.obj = 6;
    eng::run_history(c, p, [&]([[maybe_unused]] eng::Gen& g, eng::Model& m) {
      if (m.sids.size() >= 2) c.nontrivial(m.log);
    });
  };
  return pbt::Runner(cfg).main(argc, argv);
}
