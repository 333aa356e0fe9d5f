#pragma once
#include "sys.h"
#include "debug.h"
#include <libcwd/demangle.h>
#include "mangle_gen.h"
#include <cstring>

// The input is handed over in a heap block of exactly its size, so that the sanitizer sees every byte read past its end.
struct Exact
{
  char* p;
  explicit Exact(std::string const& s) : p(new char[s.size() + 1]) { memcpy(p, s.c_str(), s.size() + 1); }
  ~Exact() { delete[] p; }
};
inline std::string dm_symbol(std::string const& s, std::string const& prior = "")
{
  Exact e(s);
  std::string out = prior;
  libcwd::demangle_symbol(e.p, out);
  return out;
}
inline std::string dm_type(std::string const& s, std::string const& prior = "")
{
  Exact e(s);
  std::string out = prior;
  libcwd::demangle_type(e.p, out);
  return out;
}

// Compare the text that the generator expects from a c++filt-like demangler with what the system's demangler says, as a
// check of the generator. Returns false if the two contradict each other. No answer at all (the reference gives up on
// types that contain themselves as a substitution) is no contradiction.
inline bool confirmed(pbt::Case& c, mg::Gen const& g, std::string const& m, std::string const& filt_text)
{
  char const* dev = getenv("MG_DEV");
  int mode = dev ? atoi(dev) : 0;
  std::string ref = mg::reference(m);
  if (ref.empty())
  {
    c.label("the reference does not demangle this");
    if (mode & 2)
      c.fail("dev-ref-none", "");
  }
  else if (!g.has_abbrev_member && !g.features.count("address literal") &&
           !g.features.count("template member of a local class") &&
           mg::normalize(ref, g.has_expr) != mg::normalize(filt_text, g.has_expr))
  {
    c.label("the reference differs");
    if (mode & 1)
      c.fail("dev-ref-differs", "ref " + ref + "\nmy  " + filt_text);
    return false;
  }
  else
    c.label("confirmed by the reference");
  return true;
}
