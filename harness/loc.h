// Code addresses of which it is known what they are, for the checks of Location.
#pragma once
#include "sys.h"
#include "debug.h"
#include "pbt.h"
#include <dlfcn.h>
#include <link.h>

namespace loc {

using pbt::Case;
using pbt::quote;

struct Site
{
  std::string what;
  char const* pc = nullptr;
  bool known = false;         // Source file and line are known.
  bool object = false;        // Inside a loaded object.
  std::string path;           // As in the line directive or __FILE__; the path ends on this.
  unsigned line = 0;
  std::string function;       // Mangled; empty when undecided.
  std::string object_path;    // Empty when undecided.
};
inline std::vector<Site> sites;

inline std::string base_name(std::string const& p) { return p.substr(p.rfind('/') + 1); }

inline char const* here_pc;
[[gnu::noinline]] inline void here()
{
  here_pc = (char const*)__builtin_return_address(0) + libcwd::builtin_return_address_offset;
  asm volatile("" ::: "memory");
}
inline void add(std::string const& what, std::string const& path, unsigned line, std::string const& function)
{
  sites.push_back({what, here_pc, true, true, path, line, function, ""});
}

namespace nspace {
struct Struct
{
  [[gnu::noinline]] static void static_member(int)
  {
    here(); add("static member", __FILE__, __LINE__, "_ZN3loc6nspace6Struct13static_memberEi");
  }
  [[gnu::noinline]] void member() const
  {
    here(); add("member", __FILE__, __LINE__, "_ZNK3loc6nspace6Struct6memberEv");
  }
  [[gnu::noinline]] Struct& operator+=(char)
  {
    here(); add("operator", __FILE__, __LINE__, "_ZN3loc6nspace6StructpLEc");
    return *this;
  }
};
} // namespace nspace
template<int N> [[gnu::noinline]] void tmpl()
{
  here(); add("template", __FILE__, __LINE__, "_ZN3loc4tmplILi" + std::to_string(N) + "EEEvv");
}
inline char const* inlined_pc;
[[gnu::always_inline]] inline void inlined(unsigned& line)
{
  here(); line = __LINE__;
}
[[gnu::noinline]] inline void outer()
{
  unsigned line;
  inlined(line);
  add("inlined function", __FILE__, line, "_ZN3loc7inlinedERj");
}
extern "C" [[gnu::noinline]] inline void c_function_of_harness(int)
{
  here(); add("C function", __FILE__, __LINE__, "c_function_of_harness");
}
[[gnu::noinline]] inline void directives()
{
  char const* const f = "_ZN3loc10directivesEv";
#line 7 "/an/absolute/path/to a file.cc"
  here(); add("absolute line directive", __FILE__, __LINE__, f);
#line 123456 "relative/path/x.tcc"
  here(); add("relative line directive", __FILE__, __LINE__, f);
#line 1 "noslash"
  here(); add("line directive without slash", __FILE__, __LINE__, f);
#line 99 "/rootfile.h"
  here(); add("line directive of a file in the root", __FILE__, __LINE__, f);
#line 100 "harness/loc.h"
}

extern "C" void nodebug_function();
extern "C" void nodebug_stray();
void nodebug_cxx(int);
inline void init()
{
  Debug(main_reached());
  nspace::Struct s;
  nspace::Struct::static_member(0);
  s.member();
  s += 'c';
  tmpl<3>();
  tmpl<-0 + 42>();
  outer();
  c_function_of_harness(1);
  directives();
  char exe[4096];
  ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
  std::string self(exe, n > 0 ? n : 0);
  for (auto& x : sites) x.object_path = self;
  auto symbol = [](char const* what, void* p, char const* name) {
    Dl_info i;
    Site x;
    x.what = what;
    x.pc = (char const*)p + 1;
    x.object = true;
    x.function = name;
    if (dladdr(p, &i) && i.dli_fname) x.object_path = i.dli_fname;
    sites.push_back(x);
  };
  symbol("function without debug information", (void*)nodebug_function, "nodebug_function");
  symbol("function without debug information", (void*)nodebug_cxx, "_ZN3loc11nodebug_cxxEi");
  symbol("code without symbol", (void*)nodebug_stray, "<unknown function>");
  for (size_t i = sites.size() - 3; i < sites.size(); ++i) sites[i].object_path = self;
  symbol("data", (void*)&sites, "<unknown function>");
  static int some_static;
  symbol("data", (void*)&some_static, "<unknown function>");
  sites.back().object_path = sites[sites.size() - 2].object_path = self;
  auto unknown = [](char const* what, void const* p) {
    Site x;
    x.what = what;
    x.pc = (char const*)p;
    sites.push_back(x);
  };
  unknown("null", nullptr);
  static std::unique_ptr<int> heap(new int);
  unknown("heap", heap.get());
  unknown("stack", &n);
  unknown("highest address", (void*)~0UL);
  unknown("one", (void*)1);
  unknown("mapped page", mmap(nullptr, 4096, PROT_READ | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
}

// What is wrong with l as the location of x; empty if nothing.
inline std::string differs(libcwd::Location const& l, Site const& x)
{
  if (l.is_known() != x.known)
    return std::string("is_known() returns ") + (x.known ? "false" : "true");
  if (x.known)
  {
    if (l.line() != x.line) return "line() returns " + std::to_string(l.line()) + " instead of " + std::to_string(x.line);
    if (l.file() != base_name(x.path)) return "file() returns " + quote(l.file()) + " instead of " + quote(base_name(x.path));
    if (l.filename_length() != base_name(x.path).size()) return "filename_length() returns " + std::to_string(l.filename_length());
    std::ostringstream p, f;
    l.print_filepath_on(p);
    l.print_filename_on(f);
    std::string s = p.str();
    if (l.filepath_length() != s.size()) return "filepath_length() returns " + std::to_string(l.filepath_length()) + " while the path is " + quote(s);
    if (f.str() != base_name(x.path)) return "print_filename_on() writes " + quote(f.str());
    bool ok = x.path[0] == '/' ? s == x.path : s.size() > x.path.size() && s.substr(s.size() - x.path.size() - 1) == "/" + x.path;
#ifdef __clang__
    // The debug information of clang names the directory "/", to which libdw adds a slash and the name.
    if (x.path.rfind('/') == 0 && s == "/" + x.path) ok = true;
#endif
    if (!ok && s != x.path) return "the path is " + quote(s) + " instead of " + quote(x.path);
  }
  else if (l.filename_length() || l.filepath_length())
    return "the length of the name of the file of an unknown location is not 0";
  if (!x.object)
  {
    if (l.object_file()) return std::string("the object file is ") + l.object_file()->filepath();
    if (strcmp(l.mangled_function_name(), "<unknown function>")) return std::string("the function is ") + quote(l.mangled_function_name());
    if (l.unknown_pc() != x.pc) return "unknown_pc() differs";
  }
  else
  {
    if (!l.object_file()) return "there is no object file";
    if (!x.object_path.empty() && x.object_path != l.object_file()->filepath()) return "the object file is " + quote(l.object_file()->filepath()) + " instead of " + quote(x.object_path);
    if (base_name(l.object_file()->filepath()) != l.object_file()->filename()) return "the name of the object file is " + quote(l.object_file()->filename());
    if (!x.function.empty() && x.function != l.mangled_function_name()) return "the function is " + quote(l.mangled_function_name()) + " instead of " + quote(x.function);
  }
  if (l.initialization_delayed()) return "the lookup is delayed";
  return "";
}

// The text of l, given its accessors and a format.
inline std::string text(libcwd::Location const& l, Site const* x, unsigned format)
{
  std::string r;
  if (x && x->known)
  {
    if (format & libcwd::show_objectfile) r += std::string(l.object_file()->filename()) + ":";
    if (format & libcwd::show_function) r += std::string(l.mangled_function_name()) + ":";
    if (format & libcwd::show_path)
    {
      std::ostringstream p;
      l.print_filepath_on(p);
      r += p.str();
    }
    else
      r += base_name(x->path);
    return r + ":" + std::to_string(x->line);
  }
  if (x && x->object)
    return std::string(l.object_file()->filename()) + ":" + l.mangled_function_name();
  std::ostringstream p;
  p << (void const*)(x ? x->pc : nullptr);
  return "<unknown object file> (at " + p.str() + ")";
}

} // namespace loc

asm(R"(
.pushsection .text.nodebug,"ax",@progbits
.globl nodebug_function
.type nodebug_function,@function
nodebug_function: nop
nop
ret
.size nodebug_function, .-nodebug_function
nop
nop
.globl _ZN3loc11nodebug_cxxEi
.type _ZN3loc11nodebug_cxxEi,@function
_ZN3loc11nodebug_cxxEi: nop
nop
ret
.size _ZN3loc11nodebug_cxxEi, .-_ZN3loc11nodebug_cxxEi
nop
.globl nodebug_stray
nodebug_stray: nop
nop
nop
.popsection
)");
