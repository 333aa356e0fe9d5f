#include "engine.h"

int main(int argc, char** argv)
{
  auto cfg = eng::config("E06", 40000, "at least two threads wrote output and at least one of them changed state that the other has too");
  cfg.body = [](pbt::Case& c) {
    eng::Profile p;
    p.threads = 2 + c.draw(3); p.on_thread = 40; p.end_thread = 4; p.objects = 1 + c.draw(1); p.text = 10; p.chan = 12; p.obj = 6; p.continued = 24;
    p.colors = 30; p.stream = 0; p.cerr_cf = false; p.budget = 90;
    eng::run_history(c, p, [&]([[maybe_unused]] eng::Gen& g, eng::Model& m) {
      if (m.writers.size() >= 2 && g.nedit + g.nswitch >= 4) c.nontrivial(m.log);
      if (m.nresumed) c.label("resumed by another thread");
      if (g.nended) c.label("ended thread");
    });
  };
  return pbt::Runner(cfg).main(argc, argv);
}
