#include "engine.h"

int main(int argc, char** argv)
{
  auto cfg = eng::config("E02", 60000, "at least two messages were written, of which one with control flags or with a changed margin, marker or indentation");
  cfg.body = [](pbt::Case& c) {
    eng::Profile p;
    p.more_threads = 20;
    p.stmt = 80; p.nflags = 70; p.text = 10; p.indent = 8; p.new_channel = 4; p.odd_text = 20; p.nested = 8; p.continued = 6; p.null_str = 1;
    p.colors = 50; p.items = 8; p.chan_on = 80;
    eng::run_history(c, p, [&]([[maybe_unused]] eng::Gen& g, eng::Model& m) {
      if (m.nstmt_on >= 2 && m.nflagged) c.nontrivial(m.log);
    });
  };
  return pbt::Runner(cfg).main(argc, argv);
}
