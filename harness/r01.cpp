#include "rc.h"
using namespace rc;

static void body(Case& c)
{
  std::set<std::string> used{"DEBUG", "NOTICE", "SYSTEM"};
  std::string dir = scratch();
  int n = c.small(0, 8);
  for (int i = 0; i < n; ++i) new_channel(gen_label(c, used));
  Model m;
  m.ch = registry();
  std::string note = "channels:";
  for (auto& x : m.ch)
  {
    note += " " + x.name;
    if (c.chance(1, 4))
    {
      if (x.cnt == -1) { x.c->off(); x.cnt = 0; }
      else { x.c->on(); x.cnt = -1; }
    }
    if (x.cnt >= 0 && x.name != "WARNING" && x.name != "ELFUTILS" && c.chance(1, 8))
      for (int k = c.range(1, 3); k > 0; --k) { x.c->off(); ++x.cnt; }
    note += x.cnt == -1 ? "=on" : "=off" + std::to_string(x.cnt + 1);
  }
  m.object_on = !c.chance(1, 10);
  if (m.object_on) libcwd::libcw_do.on();
  bool mine = c.chance(1, 3);
  MyRc* my = new MyRc;
  if (mine)
  {
    m.handled.insert("custom1");
    if (c.coin()) m.handled.insert("custom2");
    my->handled = m.handled;
  }
  FileText f = gen_file(c, m.ch, 10, true), o;
  bool have_override = c.chance(2, 5);
  if (have_override) o = gen_file(c, m.ch, 6, true);
  std::string oname = "override";
  write_file(".libcwdrc", f.text());
  if (have_override)
  {
    write_file(oname, o.text());
    setenv("LIBCWD_RCFILE_OVERRIDE_NAME", oname.c_str(), 1);
  }
  note += std::string(m.object_on ? "" : " object off") + (mine ? " custom RcFile" : "") + "\n" + show(".libcwdrc", f) + (have_override ? show(oname, o) : "");
  c.note(note);
  m.read(".libcwdrc", &f, have_override ? &oname : nullptr, have_override ? &o : nullptr);
  // Sometimes it is read once more, after it was changed.
  bool again = !m.fatal && c.chance(1, 4), again_override = false;
  FileText f2, o2;
  if (again)
  {
    f2 = gen_file(c, m.ch, 8, true);
    if ((again_override = c.chance(2, 5))) o2 = gen_file(c, m.ch, 5, true);
    c.note("again:\n" + show(".libcwdrc", f2) + (again_override ? show(oname, o2) : ""));
    m.env_set = false;
    m.read(".libcwdrc", &f2, again_override ? &oname : nullptr, again_override ? &o2 : nullptr);
    c.label("read twice");
  }
  if (m.settings >= 2 && m.effects >= 2) c.nontrivial(note);
  if (have_override) c.label("override");
  if (m.fatal) c.label("fatal");
  send_expected(c, m);
  auto* buf = new Out;
  buf->c = &c;
  libcwd::libcw_do.set_ostream(new std::ostream(buf));
  if (mine) my->read(); else libcwd::read_rcfile();
  if (again)
  {
    write_file(".libcwdrc", f2.text());
    if (again_override)
    {
      write_file(oname, o2.text());
      setenv("LIBCWD_RCFILE_OVERRIDE_NAME", oname.c_str(), 1);
    }
    else
      unsetenv("LIBCWD_RCFILE_OVERRIDE_NAME");
    if (mine) my->read(); else libcwd::read_rcfile();
  }
  c.check(!m.fatal, "end", "the file was accepted");
  if (m.object_on) libcwd::libcw_do.off();
  libcwd::RcFile& r = mine ? *my : libcwd::rcfile;
  c.check(r.gdb_bin() == m.gdb, "gdb", "gdb is " + quote(r.gdb_bin()));
  c.check(r.konsole_command() == m.xterm, "xterm", "xterm is " + quote(r.konsole_command()));
  c.check(r.read_called(), "read_called", "read_called() is false");
  c.check(my->seen == m.handled_seen, "custom", "the custom keywords were not passed on");
  check_states(c, m);
}

int main(int argc, char** argv)
{
  auto cfg = config("R01", 40000, "at least two settings, that together switched at least two channels");
  cfg.body = body;
  return pbt::Runner(cfg).main(argc, argv);
}
