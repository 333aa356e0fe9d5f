#include "engine.h"

int main(int argc, char** argv)
{
  auto cfg = eng::config("E01", 60000, "at least two statements wrote output and at least two were suppressed");
  cfg.body = [](pbt::Case& c) {
    eng::Profile p;
    p.more_threads = 20;
    p.chan = 24; p.obj = 10; p.force = 8; p.text = 2; p.stack = 1; p.indent = 1; p.stream = 0; p.flush_cf = false; p.wait_cf = false;
    p.chan_on = 55; p.channels = 6;
    eng::run_history(c, p, [&]([[maybe_unused]] eng::Gen& g, eng::Model& m) {
      if (m.nstmt_on >= 2 && m.nstmt_off >= 2) c.nontrivial(m.log);
    });
  };
  return pbt::Runner(cfg).main(argc, argv);
}
