// D01: any string. Runs under the address and undefined behaviour sanitizers; the input sits at the end of its heap block.
#include "demangle_mutate.h"
#include <new>

// Counts what the demangler allocates. Back references make that explode for some long inputs; those are given up.
static bool metered;
static size_t spent, budget;
struct Exploded { };
void* operator new(size_t n)
{
  if (metered && (spent += n) > budget)
  {
    metered = false;
    throw Exploded();
  }
  void* p = malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

int main(int argc, char** argv)
{
  pbt::Config cfg;
  cfg.property = "D01";
  cfg.rule = "valid manglings of generated types and symbols that were truncated, spliced, had bytes or tokens inserted, "
             "replaced, deleted or duplicated; token soups; random bytes; nests of up to 20000 levels. Non-trivial: at least "
             "four bytes long and not passed to the demangler as it came from the generator of valid names";
  cfg.quick_cases = 800000;
  cfg.thorough_cases = 30000000;
  cfg.case_timeout = 20;
  cfg.body = [](pbt::Case& c) {
    bool as_type;
    std::string s = mut::generate(c, as_type);
    bool both = c.chance(1, 4);
    c.note(std::string(as_type ? "type: " : "symbol: ") + pbt::quote(s));
    // Without a back reference the output is linear in the input, and a short input has no room for many of them.
    bool may_explode = s.size() > 1500 || (s.size() > 64 && s.find_first_of("ST") != std::string::npos);
    for (int k = 0; k < (both ? 2 : 1); ++k)
    {
      Exact e(s);
      std::string out;
      spent = 0;
      budget = 200u << 20;
      metered = true;
      try
      {
        if (as_type != (k == 1))
          libcwd::demangle_type(e.p, out);
        else
          libcwd::demangle_symbol(e.p, out);
        metered = false;
      }
      catch (Exploded const&)
      {
        if (may_explode)
        {
          c.label("output explodes");
          c.discard();
        }
        c.fail("runaway", "the demangler allocated 200 MB for " + std::to_string(s.size()) + " bytes of input");
      }
      metered = false;
      c.check(strlen(e.p) == s.size() && s == e.p, "input changed", "the input was written to");
      c.check(!out.empty() || s.empty(), "empty", "nothing was output for " + pbt::quote(s));
      c.label(out == s ? "passed through" : "demangled");
    }
    if (s.size() >= 4)
      c.nontrivial(s);
  };
  return pbt::Runner(cfg).main(argc, argv);
}
