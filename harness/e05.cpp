#include "engine.h"

int main(int argc, char** argv)
{
  auto cfg = eng::config("E05", 60000, "at least four changes of margin, marker, colors or indentation, followed by a message");
  cfg.body = [](pbt::Case& c) {
    eng::Profile p;
    p.more_threads = 20;
    p.stmt = 40; p.text = 40; p.stack = 20; p.indent = 12; p.scopes = 12; p.query = 12; p.colors = 40; p.odd_text = 30; p.chan = 3; p.chan_on = 90;
    p.objects = 1 + c.draw(1);
    eng::run_history(c, p, [&]([[maybe_unused]] eng::Gen& g, eng::Model& m) {
      if (g.nedit >= 4 && m.nstmt_on) c.nontrivial(m.log);
    });
  };
  return pbt::Runner(cfg).main(argc, argv);
}
