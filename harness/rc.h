// The runtime configuration file: a reference model of how it is found and what it does, against the real thing.
#pragma once
#include "sys.h"
#include "debug.h"
#include "pbt.h"
#include <fstream>
#include <iomanip>
#include <pwd.h>
#include <set>
#include <sys/resource.h>
#include <sys/stat.h>
#include <thread>

// The home directory according to the password file, as this process wants it to be.
inline std::string g_pw_dir;
inline bool g_pw_exists = true;
extern "C" __attribute__((visibility("default"))) struct passwd* getpwuid(uid_t)
{
  static struct passwd pw;
  pw.pw_dir = const_cast<char*>(g_pw_dir.c_str());
  return g_pw_exists ? &pw : nullptr;
}

namespace rc {

using pbt::Case;
using pbt::quote;

inline std::string upper(std::string s)
{
  for (auto& ch : s) ch = toupper((unsigned char)ch);
  return s;
}

// Reference matcher; only '*' is special.
inline bool matches(std::string const& m, std::string const& s)
{
  std::vector<char> ok(s.size() + 1, 0);
  ok[0] = 1;
  for (char ch : m)
  {
    std::vector<char> n(s.size() + 1, 0);
    if (ch == '*')
    {
      bool any = false;
      for (size_t i = 0; i <= s.size(); ++i) { any |= ok[i]; n[i] = any; }
    }
    else
      for (size_t i = 0; i < s.size(); ++i) n[i + 1] = ok[i] && s[i] == ch;
    ok = n;
  }
  return ok[s.size()];
}

struct Ch
{
  libcwd::Channel* c;
  std::string label, name; // As registered; upper case up to the first space.
  int cnt;                 // The number of times it must be switched on.
};

struct FileText
{
  std::vector<std::string> lines;
  bool last_newline = true;
  std::string text() const
  {
    std::string s;
    for (size_t i = 0; i < lines.size(); ++i)
      s += lines[i] + (i + 1 < lines.size() || last_newline ? "\n" : "");
    return s;
  }
};

struct Model
{
  std::vector<Ch> ch;          // In label order.
  bool object_on = true;
  bool fatal = false;
  bool env_set = false;
  bool silent = false;
  std::set<std::string> handled; // Keywords that an override of unknown_keyword handles.
  std::vector<std::pair<std::string, std::string>> handled_seen;
  std::string gdb, xterm;
  bool elf_on = false;
  std::vector<std::string> out; // Label-less messages.
  int effects = 0, settings = 0;

  void rcmsg(std::string const& s) { if (object_on && !silent) out.push_back("RCFILE|" + s); }
  void warning(std::string const& s) { if (object_on) out.push_back("WARNING|" + s); }
  void die(std::string const& s) { out.push_back("FATAL|" + s); fatal = true; }

  void all_on()
  {
    rcmsg("Turning all channels on by default.");
    for (auto& c : ch)
      if (c.name != "ELFUTILS") { effects += c.cnt != -1; c.cnt = -1; }
    elf_on = true;
  }
  void all_off(bool except_warning)
  {
    rcmsg(std::string("Turning all channels") + (except_warning ? ", except WARNING," : "") + " off by default.");
    for (auto& c : ch)
      if (c.cnt == -1) { c.cnt = 0; ++effects; }
    if (except_warning)
      for (auto& c : ch)
        if (c.name == "WARNING") --c.cnt;
    elf_on = false;
  }
  static std::string trim(std::string s)
  {
    size_t b = s.find_first_not_of(" \t\n\v");
    if (b == std::string::npos) return "";
    return s.substr(b, s.find_last_not_of(" \t\n\v") - b + 1);
  }
  void list(std::string const& value, char action)
  {
    std::string token;
    for (size_t i = 0; i <= value.size(); ++i)
    {
      if (i < value.size() && !strchr(", \t\n\v", value[i])) { token += value[i]; continue; }
      if (token.empty()) continue;
      std::string mask = upper(token);
      token.clear();
      for (auto& c : ch)
      {
        if (!matches(mask, c.name)) continue;
        bool elf = c.name == "ELFUTILS";
        bool on = elf ? elf_on : c.cnt == -1;
        if (!on && action != '-')
        {
          if (elf) elf_on = true; else c.cnt = -1;
          ++effects;
          rcmsg("Turned on " + c.name);
        }
        else if (on && action != '+')
        {
          if (elf) elf_on = false;
          if (c.cnt == -1) c.cnt = 0;
          ++effects;
          rcmsg("Turned off " + c.name);
        }
      }
    }
  }
  // files: the file itself, and the override file if any; `override_named' when the environment variable is set.
  void read(std::string const& name, FileText const* main_file, std::string const* override_name, FileText const* override_file)
  {
    int default_line[2] = {0, 0};
    bool default_on = false, did_reset = false;
    silent = false;
    for (auto& c : ch)
      if (c.name == "ELFUTILS") elf_on = c.cnt == -1;
    for (int f = 0; f < 2 && !fatal; ++f)
    {
      if (f == 1 && !override_name) break;
      if (f == 1) env_set = true;
      did_reset = false;
      std::string const& nm = f ? *override_name : name;
      FileText const* ft = f ? override_file : main_file;
      if (!ft) continue;
      int ln = 0;
      for (auto& raw : ft->lines)
      {
        ++ln;
        std::string l = trim(raw);
        if (l.empty() || l[0] == '#') continue;
        std::string at = nm + ":" + std::to_string(ln);
        size_t eq = l.find('=');
        if (eq == std::string::npos || eq == 0) { die("read_rcfile: " + at + ": syntax error."); return; }
        std::string key = l.substr(0, l.find_first_of(" \t\n\v=")), value = trim(l.substr(eq + 1));
        ++settings;
        if (key == "silent")
        {
          if (value == "on") silent = true;
          else if (value == "off") silent = false;
          continue;
        }
        if (env_set)
        {
          rcmsg(std::string("Using environment variable ") + (f ? "LIBCWD_RCFILE_OVERRIDE_NAME" : "LIBCWD_RCFILE_NAME") + " with value \"" + nm + "\".");
          env_set = false;
        }
        rcmsg(at + ": " + key + " = " + value);
        if (key == "gdb") gdb = value;
        else if (key == "xterm") xterm = value;
        else if (key == "channels_default")
        {
          if (default_line[f])
          {
            warning("rcfile: " + at + ": channels_default already set in line " + std::to_string(default_line[f]) + "!  Entry ignored!");
            continue;
          }
          default_line[f] = ln;
          if (value == "on") { all_on(); default_on = true; }
          else if (value == "off") { all_off(false); default_on = false; }
          else { die("read_rcfile: " + at + ": syntax error."); return; }
        }
        else if (key == "channels_toggle")
        {
          if (!default_line[0] && !default_line[1]) { die("read_rcfile: " + at + ": channels_toggle used before channels_default."); return; }
          list(value, '~');
        }
        else if (key == "channels_on")
        {
          bool saw_default = default_line[0] || default_line[1];
          if (f == 1 && !did_reset)
          {
            all_off(!saw_default);
            did_reset = true;
          }
          list(value, '+');
        }
        else if (key == "channels_off")
        {
          bool saw_default = default_line[0] || default_line[1];
          if (f == 1 && !did_reset && saw_default && !default_on)
          {
            all_on();
            did_reset = true;
          }
          list(value, '-');
        }
        else if (handled.count(key)) handled_seen.push_back({key, value});
        else warning("read_rcfile: " + at + ": Unknown keyword '" + key + "'.");
      }
    }
    for (auto& c : ch)
      if (c.name == "ELFUTILS" && elf_on) c.cnt = -1;
  }
};

// Everything written by libcwd is sent to the parent.
struct Out : std::streambuf
{
  Case* c;
  int overflow(int ch) override { char b = ch; if (ch != EOF) c->blob(&b, 1); return 0; }
  std::streamsize xsputn(char const* s, std::streamsize n) override { c->blob(s, n); return n; }
};

struct MyRc : libcwd::RcFile
{
  std::set<std::string> handled;
  std::vector<std::pair<std::string, std::string>> seen;
  bool unknown_keyword(std::string const& k, std::string const& v) override
  {
    if (!handled.count(k)) return true;
    seen.push_back({k, v});
    return false;
  }
};

inline std::vector<Ch> registry()
{
  std::vector<Ch> v;
  ForAllDebugChannels({
    Ch x;
    x.c = const_cast<libcwd::Channel*>(&debugChannel);
    std::string l = debugChannel.get_label();
    x.label = l;
    x.name = upper(l.substr(0, l.find(' ')));
    x.cnt = debugChannel.is_on() ? -1 : 0;
    v.push_back(x);
  });
  return v;
}

inline std::string gen_label(Case& c, std::set<std::string>& used)
{
  for (int tries = 0;; ++tries)
  {
    static char const* const stems[] = {"A", "AB", "ABC", "NOT", "NOTICES", "WARN", "DEB", "ELF", "ELFUTIL", "SYS", "X", "MALLOC", "RCFILE2", "ZZ", "my_chan", "io"};
    std::string s = c.pick(stems);
    for (int k = c.small(0, 5); k > 0; --k) s += c.chance(1, 6) ? "_" : std::string(1, "ABCabcNOTxyz012"[c.draw(14)]);
    if (c.chance(1, 10)) s += " TAIL";
    if (tries > 4) s = "U" + std::to_string(used.size());
    s = s.substr(0, 16);
    while (s.back() == ' ') s.pop_back();
    std::string u = upper(s);
    u = u.substr(0, u.find(' '));
    if (u == "WARNING" || u == "ELFUTILS" || u == "RCFILE" || !used.insert(u).second) continue;
    return s;
  }
}

inline libcwd::Channel* new_channel(std::string const& label)
{
  // Channels are global objects: their memory is zero before they are constructed.
  alignas(libcwd::Channel) static unsigned char storage[64][sizeof(libcwd::Channel)];
  static int n;
  auto* copy = new std::string(label);
  return new (storage[n++]) libcwd::Channel(copy->c_str());
}

inline std::string gen_mask(Case& c, std::vector<Ch> const& ch)
{
  std::string s = c.pick(ch).name;
  switch (c.weighted({5, 3, 2, 2, 2, 2, 1, 1}))
  {
    case 0: break;
    case 1: s = s.substr(0, c.range(1, s.size())) + "*"; break;
    case 2: s = "*" + s.substr(c.range(0, s.size() - 1)); break;
    case 3: { size_t p = c.range(0, s.size()); s = s.substr(0, p) + "*" + s.substr(p); break; }
    case 4: { size_t p = c.range(0, s.size() - 1); s = s.substr(0, p) + "*" + s.substr(p + 1); break; }
    case 5: s = "*"; break;
    case 6: s = s.substr(0, c.range(1, s.size())); break;
    case 7: s += c.coin() ? "X" : "**"; break;
  }
  for (auto& x : s)
    if (c.chance(1, 3)) x = tolower(x);
  return s;
}

inline std::string ws(Case& c)
{
  switch (c.weighted({6, 6, 2, 1, 1}))
  {
    case 0: return "";
    case 1: return " ";
    case 2: return "\t";
    case 3: return " \v ";
    default: return "   ";
  }
}

inline FileText gen_file(Case& c, std::vector<Ch> const& ch, int max_lines, bool errors)
{
  FileText f;
  int n = c.small(0, max_lines);
  for (int i = 0; i < n; ++i)
  {
    std::string l, v;
    switch (c.weighted({i == 0 ? 8 : 2, 8, 6, 5, 1, 2, 2, 1, errors ? 1 : 0, 1}))
    {
      case 0: l = "channels_default"; v = c.coin() ? "on" : "off"; if (errors && c.chance(1, 20)) v = c.coin() ? "ON" : "maybe"; break;
      case 1: l = "channels_on"; break;
      case 2: l = "channels_off"; break;
      case 3: l = "channels_toggle"; break;
      case 4: l = "silent"; v = c.chance(1, 10) ? "maybe" : c.coin() ? "on" : "off"; break;
      case 5: f.lines.push_back(ws(c) + "# channels_on = *"); continue;
      case 6: f.lines.push_back(ws(c)); continue;
      case 7:
      {
        static char const* const k[] = {"gdb", "xterm", "custom1", "custom2", "Channels_on", "channels_onn", "unknown", "gdb2"};
        static char const* const val[] = {"/usr/bin/gdb -x $F", "konsole --name \"a\" -e %s", "a=b", "# x", "", "*"};
        l = c.pick(k); v = c.pick(val);
        break;
      }
      case 8:
      {
        static char const* const bad[] = {"channels_on", "garbage", "= on", "channels_on *", "x # = y"};
        f.lines.push_back(ws(c) + c.pick(bad));
        continue;
      }
      case 9: l = "channels_on"; v = ""; f.lines.push_back(l + "="); continue;
    }
    if (l == "channels_on" || l == "channels_off" || l == "channels_toggle")
    {
      for (int k = c.small(1, 5); k > 0; --k)
      {
        static char const* const sep[] = {",", ", ", " ", " ,", "\t", ",,", " , "};
        v += gen_mask(c, ch);
        if (k > 1 || c.chance(1, 10)) v += c.pick(sep);
      }
    }
    f.lines.push_back(ws(c) + l + ws(c) + "=" + ws(c) + v + ws(c));
  }
  f.last_newline = !c.chance(1, 8);
  return f;
}

inline void write_file(std::string const& name, std::string const& text)
{
  std::ofstream o(name, std::ios::binary | std::ios::trunc);
  o << text;
}

inline std::string show(std::string const& name, FileText const& f)
{
  std::string s = name + ":\n";
  for (auto& l : f.lines) s += "  " + quote(l) + "\n";
  return s;
}

// A private directory of this worker, empty.
inline std::string scratch()
{
  std::string d = "rc." + std::to_string(getppid());
  mkdir(d.c_str(), 0755);
  if (chdir(d.c_str()))
    _exit(99);
  static char const* const dirs[] = {"cwd-datadir", "cwd-datadir/libcwd", "home", "pwhome", "other"};
  for (auto* x : dirs) mkdir(x, 0755);
  static char const* const names[] = {".libcwdrc", "rcA", "override", "cwd-datadir/libcwd/libcwdrc", "home/.libcwdrc", "home/rcA", "pwhome/.libcwdrc", "pwhome/rcA", "other/rcA", "home/override", "cwd-datadir/libcwd/rcA"};
  for (auto* x : names) { unlink(x); rmdir(x); }
  char b[4096];
  if (!getcwd(b, sizeof b))
    _exit(99);
  for (auto* e : {"LIBCWD_RCFILE_NAME", "LIBCWD_RCFILE_OVERRIDE_NAME", "HOME"}) unsetenv(e);
  return b;
}

inline void send_expected(Case& c, Model const& m)
{
  std::string e;
  for (auto& o : m.out) e += o + "\n";
  c.slot->user[0] = e.size();
  c.slot->user[1] = m.fatal;
  c.blob(e.data(), e.size());
}

inline void check_states(Case& c, Model const& m)
{
  size_t i = 0;
  std::vector<Ch> now = registry();
  c.check(now.size() == m.ch.size(), "registry", "channels appeared or vanished");
  for (auto& x : m.ch)
  {
    libcwd::Channel& d = *x.c;
    std::string what = "channel " + quote(x.label);
    c.check(d.is_on() == (x.cnt == -1), "state", what + (d.is_on() ? " is on" : " is off"));
    if (x.cnt > -1)
    {
      for (int k = x.cnt; k > 0; --k)
      {
        d.on();
        c.check(!d.is_on(), "count", what + " came on too early");
      }
      d.on();
      c.check(d.is_on(), "count", what + " did not come on");
    }
    ++i;
  }
}

// Turns what was written into messages without layout.
inline std::vector<std::string> parse(std::string const& s)
{
  std::vector<std::string> v;
  for (size_t b = 0; b < s.size();)
  {
    size_t e = s.find('\n', b);
    if (e == std::string::npos) e = s.size();
    std::string l = s.substr(b, e - b);
    b = e + 1;
    size_t p = l.find(": ");
    if (p == std::string::npos) { v.push_back("?|" + l); continue; }
    std::string lab = l.substr(0, p), t = l.substr(p + 2);
    while (!lab.empty() && lab.back() == ' ') lab.pop_back();
    t.erase(0, t.find_first_not_of(' '));
    if (lab == "ELFUTILS") continue;
    v.push_back(lab + "|" + t);
  }
  return v;
}

inline std::vector<std::string> split(std::string const& s)
{
  std::vector<std::string> v;
  for (size_t b = 0; b < s.size();)
  {
    size_t e = s.find('\n', b);
    v.push_back(s.substr(b, e - b));
    b = e + 1;
  }
  return v;
}

inline void compare_messages(Case& c, std::vector<std::string> want, std::vector<std::string> got)
{
  for (auto& w : want)
    while (!w.empty() && w.back() == ' ') w.pop_back();
  for (auto& g : got)
    while (!g.empty() && g.back() == ' ') g.pop_back();
  // A channel that must be switched on several times, is reported as often.
  auto same = [](std::string const& a, std::string const& b) { return a == b && a.compare(0, 17, "RCFILE|Turned on ") == 0; };
  got.erase(std::unique(got.begin(), got.end(), same), got.end());
  want.erase(std::unique(want.begin(), want.end(), same), want.end());
  for (size_t i = 0; i < std::max(want.size(), got.size()); ++i)
  {
    std::string w = i < want.size() ? want[i] : "nothing", g = i < got.size() ? got[i] : "nothing";
    c.check(w == g, "messages", "message " + std::to_string(i) + " is " + quote(g) + " instead of " + quote(w));
  }
}

inline void verify(Case& c, int status)
{
  auto& u = c.slot->user;
  std::string blob = c.blob_text();
  auto want = split(blob.substr(0, u[0])), got = parse(blob.substr(u[0]));
  std::string fatal;
  if (u[1] && !want.empty()) { fatal = want.back(); }
  if (u[1])
    c.check(WIFEXITED(status) && WEXITSTATUS(status) == 180, "end", "no fatal end but status " + std::to_string(status) + ", expected " + quote(fatal));
  else
    c.check(WIFEXITED(status) && WEXITSTATUS(status) == 0, "end", "the process ended with status " + std::to_string(status));
  compare_messages(c, want, got);
}

inline pbt::Config config(char const* property, uint64_t quick, std::string const& rule)
{
  pbt::Config cfg;
  cfg.property = property;
  cfg.fork_per_case = true;
  cfg.quick_cases = quick;
  cfg.thorough_cases = quick * 40;
  cfg.case_timeout = 20;
  cfg.rule = rule;
  cfg.verify = verify;
  return cfg;
}

} // namespace rc
