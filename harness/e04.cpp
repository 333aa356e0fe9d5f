#include "engine.h"

int main(int argc, char** argv)
{
  auto cfg = eng::config("E04", 60000, "at least six switches, or a misuse");
  cfg.body = [](pbt::Case& c) {
    eng::Profile p;
    p.more_threads = 20;
    p.stmt = 15; p.chan = 40; p.obj = 20; p.force = 30; p.text = 0; p.stack = 3; p.indent = 0; p.scopes = 0; p.stream = 0; p.always_flush = 0;
    p.nflags = 5; p.continued = 8; p.objects = 1 + c.draw(2); p.misuse = 30; p.chan_on = 50;
    eng::run_history(c, p, [&]([[maybe_unused]] eng::Gen& g, eng::Model& m) {
      if (g.nswitch >= 6 || g.terminal) c.nontrivial(m.log);
      if (g.terminal) c.label("misuse");
    });
  };
  return pbt::Runner(cfg).main(argc, argv);
}
