#include "engine.h"

int main(int argc, char** argv)
{
  auto cfg = eng::config("E09", 40000, "the fatal statement came while a message was unfinished or after at least one message was written");
  cfg.body = [](pbt::Case& c) {
    eng::Profile p;
    p.fatal = 100; p.objects = 1 + c.draw(1); p.threads = 1 + c.draw(2); p.on_thread = p.threads > 1 ? 15 : 0; p.obj = 8;
    if (p.threads > 1) { p.stream = 0; p.cerr_cf = false; }
    eng::run_history(c, p, [&]([[maybe_unused]] eng::Gen& g, eng::Model& m) {
      if (g.fatal_depth || m.nstmt_on >= 2) c.nontrivial(m.log);
      if (g.fatal_depth) c.label("nested");
    });
  };
  return pbt::Runner(cfg).main(argc, argv);
}
