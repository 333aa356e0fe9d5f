#include "engine.h"

int main(int argc, char** argv)
{
  auto cfg = eng::config("E10", 60000, "at least one message that flushes and one that does not");
  eng::compare_flush = true;
  cfg.body = [](pbt::Case& c) {
    eng::Profile p;
    p.more_threads = 20;
    p.nflags = 50; p.flush_bias = 40; p.always_flush = 14; p.nested = 40; p.continued = 20; p.objects = 1 + c.draw(1);
    eng::run_history(c, p, [&]([[maybe_unused]] eng::Gen& g, eng::Model& m) {
      if (m.nflush && m.nnoflush) c.nontrivial(m.log);
    });
  };
  return pbt::Runner(cfg).main(argc, argv);
}
