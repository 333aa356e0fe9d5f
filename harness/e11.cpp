#include "engine.h"

int main(int argc, char** argv)
{
  auto cfg = eng::config("E11", 60000, "at least three user channels, and at least one search, iteration or listing");
  cfg.body = [](pbt::Case& c) {
    eng::Profile p;
    // Up to the number of channels that is supported.
    p.channels = c.chance(1, 12) ? 225 : 12; p.new_channel = 12; p.fatal = 25; p.registry = 40; p.stmt = 20; p.chan = 15; p.scopes = 0; p.nflags = 5;
    eng::run_history(c, p, [&]([[maybe_unused]] eng::Gen& g, eng::Model& m) {
      if (m.labels.size() >= 8 && g.nregistry) c.nontrivial(m.log);
    });
  };
  return pbt::Runner(cfg).main(argc, argv);
}
