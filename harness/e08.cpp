#include "engine.h"

int main(int argc, char** argv)
{
  auto cfg = eng::config("E08", 60000, "at least one message with error text while errno was changed by an operand or by a nested message");
  cfg.body = [](pbt::Case& c) {
    eng::Profile p;
    p.more_threads = 20;
    p.nflags = 80; p.error_bias = 60; p.nested = 50; p.errno_items = 12;
    eng::run_history(c, p, [&]([[maybe_unused]] eng::Gen& g, eng::Model& m) {
      if (m.nerror && (m.nnested || g.nerrno)) c.nontrivial(m.log);
    });
  };
  return pbt::Runner(cfg).main(argc, argv);
}
