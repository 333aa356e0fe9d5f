// U02: escaped characters and buffers.
#include "sys.h"
#include "debug.h"
#include "pbt.h"
#include <libcwd/char2str.h>
#include <libcwd/buf2str.h>
#include <iomanip>
#include <string_view>
#include <array>

static std::string one(unsigned char c)
{
  switch (c)
  {
    case 7: return "\\a";
    case 8: return "\\b";
    case 9: return "\\t";
    case 10: return "\\n";
    case 11: return "\\v";
    case 12: return "\\f";
    case 13: return "\\r";
    case 27: return "\\e";
    case '\\': return "\\\\";
  }
  if (c >= 32 && c < 127)
    return std::string(1, (char)c);
  char b[8];
  snprintf(b, sizeof b, "\\x%02X", c);
  return b;
}

int main(int argc, char** argv)
{
  pbt::Config cfg;
  cfg.property = "U02";
  cfg.rule = "byte buffers of 0 to 600 bytes (any byte, control characters, text with embedded zeros, UTF-8), as pointer and size, "
             "string, view or container, at the end of a heap block, on streams with random width, fill, base, case and other "
             "flags. Non-trivial: at least two bytes of which one needs an escape";
  cfg.quick_cases = 1500000;
  cfg.thorough_cases = 40000000;
  cfg.body = [](pbt::Case& c) {
    std::string s;
    int n = c.weighted({6, 6, 2}) ;
    n = n == 0 ? c.draw(3) : n == 1 ? c.small(0, 40) : c.small(0, 600);
    int flavour = c.draw(3);
    for (int k = 0; k < n; ++k)
      switch (flavour)
      {
        case 0: s += (char)c.draw(255); break;
        case 1: s += "\a\b\t\n\v\f\r\033\\\0 ~\177x\"'?0"[c.draw(17)]; break;
        case 2: s += c.chance(1, 4) ? (char)c.draw(31) : (char)(32 + c.draw(94)); break;
        case 3: s += (char)(c.coin() ? 128 + c.draw(127) : 92 + c.draw(40)); break;
      }
    std::ostringstream os;
    std::string state;
    if (c.coin())
    {
      int w = c.small(0, 20);
      os << std::setfill(c.coin() ? '*' : '0');
      switch (c.draw(3)) { case 0: break; case 1: os << std::hex; break; case 2: os << std::oct; break; case 3: os << std::hex << std::uppercase << std::showbase; break; }
      switch (c.draw(3)) { case 0: break; case 1: os << std::left; break; case 2: os << std::internal; break; case 3: os << std::showpos << std::boolalpha; break; }
      os.width(w);
      state = " on a stream with width " + std::to_string(w) + " and changed flags";
      c.label("stream with state");
    }
    auto flags = os.flags();
    auto fill = os.fill();
    auto prec = os.precision();
    auto width = os.width();
    std::string want;
    for (unsigned char x : s)
      want += one(x);
    std::unique_ptr<char[]> buf(new char[s.size()]);
    memcpy(buf.get(), s.data(), s.size());
    int how = c.draw(4);
    c.note("bytes: " + pbt::quote(s) + state);
    switch (how)
    {
      case 0: os << libcwd::buf2str(buf.get(), s.size()); c.label("pointer and size"); break;
      case 1: os << libcwd::buf2str(s); c.label("string"); break;
      case 2: os << libcwd::buf2str(std::string_view(buf.get(), s.size())); c.label("view"); break;
      case 3: os << libcwd::buf2str(std::vector<char>(s.begin(), s.end())); c.label("vector"); break;
      case 4:
        for (char x : s)
          os << libcwd::char2str(x);
        c.label("characters");
        break;
    }
    std::string got = os.str();
    c.check(got == want, "text", "printed  " + pbt::quote(got) + "\nexpected " + pbt::quote(want));
    c.check(os.flags() == flags && os.fill() == fill && os.precision() == prec && os.width() == width && os.good(), "stream state",
            "the formatting state of the stream changed");
    if (s.size() >= 2 && want.size() > s.size())
      c.nontrivial(s);
  };
  return pbt::Runner(cfg).main(argc, argv);
}
