// Generates random C++98 entities (as syntax trees) together with their Itanium ABI mangling and the text that a
// demangler must print for them. The tree is the specification: both strings are derived from it independently of the
// code under test.
#pragma once
#include "pbt.h"
#include <cxxabi.h>
#include <memory>
#include <algorithm>

namespace mg {

struct Type;
struct Encoding;
struct Name;
using TP = std::shared_ptr<Type>;
using EP = std::shared_ptr<Encoding>;
using NP = std::shared_ptr<Name>;

struct Expr;
using XP = std::shared_ptr<Expr>;
struct Arg
{
  enum K { Ty, Lit, X, Addr, TplName } kind = Ty;
  TP type;             // Ty; Lit: the type of the literal.
  std::string value;   // Lit: the mangled value.
  XP expr;             // X
  EP enc;              // Addr: L_Z...E or (when viaad) XadL_Z...EE
  bool viaad = false;
};
struct Expr
{
  enum K { Par, Lit, Un, Bin, Tri, Cast, SizeT, SizeX } kind;
  int par = 0;
  Arg lit;
  int op = 0;
  std::vector<XP> sub;
  TP type;
};
struct Comp
{
  enum K { Id, Anon, Std, Abbrev, TPar, Op, Conv, Ctor, Dtor } kind = Id;
  std::string id;      // Identifier; operator code for Op; "Sa" for Abbrev; digit for Ctor, Dtor.
  int par = 0;         // TPar.
  TP conv;             // Conv.
  bool hasargs = false;
  std::vector<Arg> args;
};
struct Name
{
  EP local;            // Enclosing function for a local entity.
  bool string_literal = false;
  int discriminator = -1;
  std::vector<Comp> comps;
};
struct Type
{
  enum K { Builtin, Named, Abbrev, Ptr, Ref, CV, Array, Func, MemPtr, MemFun, TPar, TTApp } kind;
  char code = 0;              // Builtin.
  std::string abbrev;         // Abbrev.
  NP name;                    // Named; the class of MemPtr and MemFun is in cls.
  TP inner;                   // Ptr Ref CV Array MemPtr; Func, MemFun: the return type.
  std::string cv;             // CV: in mangled order, subset of "rVK". MemFun: of the member function.
  std::string dim;            // Array.
  std::vector<TP> params;     // Func, MemFun.
  TP cls;
  int par = 0;                // TPar, TTApp.
  std::vector<Arg> args;      // TTApp.
};
struct Encoding
{
  enum K { Function, Data, Special, GlobalInit } kind = Data;
  NP name;
  std::string cv;             // Member function qualifiers.
  bool has_ret = false;
  TP ret;
  std::vector<TP> params;     // Function. Empty means (void).
  std::string special;        // "TV" "TT" "TI" "TS" "GV" "TC" "Th" "Tv" "Tc"
  std::string offsets;
  TP type, type2;
  EP target;
  std::string raw;            // GlobalInit.
};

struct Operator { char const* code; char const* text; int arity; };
inline Operator const operators[] = {
  {"nw", "operator new", 0}, {"na", "operator new[]", 0}, {"dl", "operator delete", 0}, {"da", "operator delete[]", 0},
  {"ps", "operator+", 1}, {"ng", "operator-", 1}, {"ad", "operator&", 1}, {"de", "operator*", 1}, {"co", "operator~", 1},
  {"pl", "operator+", 2}, {"mi", "operator-", 2}, {"ml", "operator*", 2}, {"dv", "operator/", 2}, {"rm", "operator%", 2},
  {"an", "operator&", 2}, {"or", "operator|", 2}, {"eo", "operator^", 2}, {"aS", "operator=", 2}, {"pL", "operator+=", 2},
  {"mI", "operator-=", 2}, {"mL", "operator*=", 2}, {"dV", "operator/=", 2}, {"rM", "operator%=", 2}, {"aN", "operator&=", 2},
  {"oR", "operator|=", 2}, {"eO", "operator^=", 2}, {"ls", "operator<<", 2}, {"rs", "operator>>", 2}, {"lS", "operator<<=", 2},
  {"rS", "operator>>=", 2}, {"eq", "operator==", 2}, {"ne", "operator!=", 2}, {"lt", "operator<", 2}, {"gt", "operator>", 2},
  {"le", "operator<=", 2}, {"ge", "operator>=", 2}, {"nt", "operator!", 1}, {"aa", "operator&&", 2}, {"oo", "operator||", 2},
  {"pp", "operator++", 1}, {"mm", "operator--", 1}, {"cm", "operator,", 2}, {"pm", "operator->*", 2}, {"pt", "operator->", 2},
  {"cl", "operator()", 0}, {"ix", "operator[]", 0}};
inline int const expr_first = 4, expr_last = 38; // Those used in expressions: ps .. oo, without the assignments.

inline char const* builtin_text(char c)
{
  switch (c)
  {
    case 'v': return "void"; case 'w': return "wchar_t"; case 'b': return "bool"; case 'c': return "char";
    case 'a': return "signed char"; case 'h': return "unsigned char"; case 's': return "short"; case 't': return "unsigned short";
    case 'i': return "int"; case 'j': return "unsigned int"; case 'l': return "long"; case 'm': return "unsigned long";
    case 'x': return "long long"; case 'y': return "unsigned long long"; case 'n': return "__int128"; case 'o': return "unsigned __int128";
    case 'f': return "float"; case 'd': return "double"; case 'e': return "long double"; case 'g': return "__float128"; case 'z': return "...";
  }
  return "?";
}
inline char const* abbrev_text(std::string const& a)
{
  switch (a[1])
  {
    case 'a': return "std::allocator"; case 'b': return "std::basic_string"; case 's': return "std::string";
    case 'i': return "std::istream"; case 'o': return "std::ostream"; case 'd': return "std::iostream";
  }
  return "std";
}
inline char const* abbrev_last(std::string const& a) { return abbrev_text(a) + 5; }

//---------------------------------------------------------------------------------------------------------------------
// Mangling.

struct Mangler
{
  bool abbreviate;
  std::string out;
  std::vector<std::string> table;
  int unique = 0;
  int used = 0; // Number of S<n>_ written.

  explicit Mangler(bool a = true) : abbreviate(a) { }

  static std::string seq(size_t i)
  {
    if (i == 0)
      return "S_";
    --i;
    std::string d;
    do
    {
      d.insert(d.begin(), "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[i % 36]);
      i /= 36;
    } while (i);
    return "S" + d + "_";
  }
  bool sub(std::string const& key)
  {
    if (!abbreviate)
      return false;
    for (size_t i = 0; i < table.size(); ++i)
      if (table[i] == key)
      {
        out += seq(i);
        ++used;
        return true;
      }
    return false;
  }
  void add(std::string const& key)
  {
    if (abbreviate)
      table.push_back(key);
  }
  void add_unique() { add("#" + std::to_string(unique++)); }

  static std::string canon(TP const& t) { Mangler m(false); m.type(t); return m.out; }
  static std::string canon(Name const& n, size_t count, bool without_args)
  {
    Mangler m(false);
    for (size_t i = 0; i < count; ++i)
    {
      m.component(n.comps[i]);
      if (n.comps[i].hasargs && !(without_args && i + 1 == count))
        m.args(n.comps[i].args);
    }
    return m.out;
  }
  static std::string number(int v) { return v < 0 ? "n" + std::to_string(-v) : std::to_string(v); }
  void id(std::string const& s) { out += std::to_string(s.size()) + s; }
  bool saw_par = false;
  void par(int n) { saw_par = true; out += n ? "T" + std::to_string(n - 1) + "_" : "T_"; }
  void component(Comp const& c)
  {
    switch (c.kind)
    {
      case Comp::Id: id(c.id); break;
      case Comp::Anon: out += "12_GLOBAL__N_1"; break;
      case Comp::Std: out += "St"; break;
      case Comp::Abbrev: case Comp::Op: out += c.id; break;
      case Comp::TPar: par(c.par); break;
      case Comp::Conv: out += "cv"; type(c.conv); break;
      case Comp::Ctor: out += "C" + c.id; break;
      case Comp::Dtor: out += "D" + c.id; break;
    }
  }
  void literal(Arg const& a)
  {
    out += 'L';
    type(a.type);
    out += a.value;
    out += 'E';
  }
  void expr(Expr const& x)
  {
    switch (x.kind)
    {
      case Expr::Par: par(x.par); break;
      case Expr::Lit: literal(x.lit); break;
      case Expr::Tri: out += "qu"; break;
      case Expr::Un: case Expr::Bin: out += operators[x.op].code; break;
      case Expr::Cast: out += "cv"; type(x.type); break;
      case Expr::SizeT: out += "st"; type(x.type); break;
      case Expr::SizeX: out += "sz"; break;
    }
    for (auto& s : x.sub)
      expr(*s);
  }
  void args(std::vector<Arg> const& as)
  {
    out += 'I';
    for (auto& a : as)
      switch (a.kind)
      {
        case Arg::Ty: case Arg::TplName: type(a.type); break;
        case Arg::Lit: literal(a); break;
        case Arg::X: out += 'X'; expr(*a.expr); out += 'E'; break;
        case Arg::Addr:
          out += a.viaad ? "XadL_Z" : "L_Z";
          encoding(*a.enc);
          out += a.viaad ? "EE" : "E";
          break;
      }
    out += 'E';
  }
  // The first count components as a prefix.
  void prefix(Name const& n, size_t count, bool is_local)
  {
    if (count == 0)
      return;
    Comp const& c = n.comps[count - 1];
    std::string key = canon(n, count, false);
    bool candidate = !(count == 1 && !c.hasargs && (c.kind == Comp::Std || c.kind == Comp::Abbrev));
    if (candidate && !is_local && sub(key))
      return;
    if (c.hasargs)
    {
      template_prefix(n, count, is_local);
      args(c.args);
    }
    else
    {
      prefix(n, count - 1, is_local);
      component(c);
    }
    if (candidate)
      is_local ? add_unique() : add(key);
  }
  // As prefix, but without the template arguments of the last one.
  void template_prefix(Name const& n, size_t count, bool is_local)
  {
    Comp const& c = n.comps[count - 1];
    if (count == 1 && c.kind == Comp::Abbrev)
    {
      component(c);
      return;
    }
    std::string key = canon(n, count, true);
    if (!is_local && sub(key))
      return;
    prefix(n, count - 1, is_local);
    component(c);
    is_local ? add_unique() : add(key);
  }
  void name(Name const& n, bool is_type, std::string const& cv = "")
  {
    bool is_local = false;
    if (n.local)
    {
      out += 'Z';
      encoding(*n.local);
      out += 'E';
      is_local = true;
      if (n.string_literal)
      {
        out += 's';
        discriminator(n);
        return;
      }
    }
    size_t cnt = n.comps.size();
    Comp const& last = n.comps[cnt - 1];
    bool unscoped = cv.empty() && (cnt == 1 || (cnt == 2 && n.comps[0].kind == Comp::Std));
    if (unscoped)
    {
      if (last.hasargs)
      {
        if (cnt == 1)
          template_prefix(n, 1, is_local);
        else if (std::string key = canon(n, 2, true); is_local || !sub(key))
        {
          out += "St";
          component(last);
          is_local ? add_unique() : add(key);
        }
        args(last.args);
      }
      else
        for (auto& c : n.comps)
          component(c);
    }
    else
    {
      out += 'N';
      out += cv;
      if (last.hasargs)
      {
        template_prefix(n, cnt, is_local);
        args(last.args);
      }
      else
      {
        prefix(n, cnt - 1, is_local);
        component(last);
      }
      out += 'E';
    }
    discriminator(n);
  }
  void discriminator(Name const& n)
  {
    if (n.local && n.discriminator >= 0)
      out += n.discriminator < 10 ? "_" + std::to_string(n.discriminator) : "__" + std::to_string(n.discriminator) + "_";
  }
  void type(TP const& t)
  {
    if (t->kind == Type::Builtin)
    {
      out += t->code;
      return;
    }
    if (t->kind == Type::Abbrev)
    {
      out += t->abbrev;
      return;
    }
    std::string key;
    if (abbreviate)
    {
      key = canon_type_key(t);
      if (sub(key))
        return;
    }
    switch (t->kind)
    {
      case Type::Ptr: out += 'P'; type(t->inner); break;
      case Type::Ref: out += 'R'; type(t->inner); break;
      case Type::CV: out += t->cv; type(t->inner); break;
      case Type::Array: out += 'A' + t->dim + '_'; type(t->inner); break;
      case Type::Func: function(t); break;
      case Type::MemPtr: out += 'M'; type(t->cls); type(t->inner); break;
      case Type::MemFun:
        out += 'M';
        type(t->cls);
        out += t->cv;
        function(t);
        add_unique();
        break;
      case Type::TPar: par(t->par); break;
      case Type::TTApp:
      {
        std::string k = t->par ? "T" + std::to_string(t->par - 1) + "_" : "T_";
        if (!sub(k))
        {
          par(t->par);
          add(k);
        }
        args(t->args);
        break;
      }
      case Type::Named: name(*t->name, true); break;
      default: break;
    }
    add(key);
  }
  // The identity of a type; for a class it is that of the same class as a prefix.
  static std::string canon_type_key(TP const& t)
  {
    if (t->kind == Type::Named && !t->name->local)
      return canon(*t->name, t->name->comps.size(), false);
    return canon(t);
  }
  void function(TP const& t)
  {
    out += 'F';
    type(t->inner);
    params(t->params);
    out += 'E';
  }
  void params(std::vector<TP> const& ps)
  {
    if (ps.empty())
      out += 'v';
    for (auto& p : ps)
      type(p);
  }
  void encoding(Encoding const& e)
  {
    switch (e.kind)
    {
      case Encoding::Function:
        name(*e.name, false, e.cv);
        if (e.has_ret)
          type(e.ret);
        params(e.params);
        break;
      case Encoding::Data: name(*e.name, false); break;
      case Encoding::Special:
        out += e.special == "Th" || e.special == "Tv" ? "T" : e.special;
        if (e.special == "GV")
          name(*e.name, false);
        else if (e.special == "TC")
        {
          type(e.type);
          out += e.offsets + "_";
          type(e.type2);
        }
        else if (e.target)
        {
          out += e.offsets;
          encoding(*e.target);
        }
        else
          type(e.type);
        break;
      case Encoding::GlobalInit: break;
    }
  }
};

inline std::string mangle_type(TP const& t, int* used = nullptr)
{
  Mangler m;
  m.type(t);
  if (used)
    *used = m.used;
  return m.out;
}
inline std::string mangle_symbol(EP const& e, int* used = nullptr)
{
  if (e->kind == Encoding::GlobalInit)
    return "_GLOBAL__" + e->special + "_" + e->raw;
  Mangler m;
  m.out = "_Z";
  m.encoding(*e);
  if (used)
    *used = m.used;
  return m.out;
}

//---------------------------------------------------------------------------------------------------------------------
// The text.

struct Printer
{
  bool filt = false; // The style of c++filt, where that is different.
  std::vector<std::vector<Arg> const*> env;

  using PP = std::pair<std::string, std::string>;

  Arg const* bound(int i) const
  {
    if (env.empty() || !env.back() || (size_t)i >= env.back()->size())
      return nullptr;
    return &(*env.back())[i];
  }
  std::string type(TP const& t)
  {
    auto [a, b] = decl(t);
    return a + b;
  }
  std::string params(std::vector<TP> const& ps)
  {
    std::string r = "(";
    for (size_t i = 0; i < ps.size(); ++i)
      r += (i ? ", " : "") + type(ps[i]);
    return r + ")";
  }
  static std::string quals(std::string const& cv, bool filt)
  {
    std::string r;
    if (cv.find('K') != cv.npos) r += " const";
    if (cv.find('V') != cv.npos) r += " volatile";
    if (cv.find('r') != cv.npos) r += " restrict";
    return r;
  }
  PP decl(TP t)
  {
    std::vector<Type*> chain;
    std::vector<TP> keep;
    for (;;)
    {
      keep.push_back(t);
      if (t->kind == Type::TPar)
      {
        Arg const* a = bound(t->par);
        if (!a || !a->type)
          return {"?T", ""};
        // The argument was written outside the scope of the template.
        t = a->type;
        continue;
      }
      if (t->kind == Type::Ptr || t->kind == Type::Ref || t->kind == Type::CV || t->kind == Type::Array || t->kind == Type::MemPtr)
      {
        chain.push_back(t.get());
        t = t->inner;
        continue;
      }
      break;
    }
    std::string pre, post, tail;
    switch (t->kind)
    {
      case Type::Builtin: pre = builtin_text(t->code); break;
      case Type::Abbrev: pre = abbrev_text(t->abbrev); break;
      case Type::Named: pre = name(*t->name); break;
      case Type::TTApp:
      {
        Arg const* a = bound(t->par);
        pre = a && a->type ? type(a->type) : "?TT";
        pre += args(t->args);
        break;
      }
      case Type::Func: case Type::MemFun:
      {
        auto [rp, rq] = decl(t->inner);
        pre = rp;
        if (t->kind == Type::Func && filt && chain.empty())
        {
          pre += ' ';
          tail = params(t->params) + rq;
        }
        else if (t->kind == Type::Func)
        {
          if (rq.empty() || pre.back() != '*')
            pre += ' ';
          pre += '(';
          tail = ")" + params(t->params) + rq;
        }
        else
        {
          pre += " (" + type(t->cls) + "::*";
          tail = ")" + params(t->params) + quals(t->cv, filt) + rq;
        }
        break;
      }
      default: break;
    }
    std::string cv, dims;
    auto flush = [&](bool last) {
      pre += quals(cv, filt);
      if (!dims.empty())
      {
        if (last)
          post = " " + dims + post;
        else
        {
          pre += " (";
          post = ") " + dims + post;
        }
      }
      cv.clear();
      dims.clear();
    };
    for (size_t i = chain.size(); i-- > 0;)
    {
      Type& q = *chain[i];
      switch (q.kind)
      {
        case Type::CV: cv += q.cv; break;
        case Type::Array: dims = "[" + q.dim + "]" + dims; break;
        case Type::Ptr: flush(false); pre += '*'; break;
        case Type::Ref: flush(false); pre += '&'; break;
        case Type::MemPtr: flush(false); pre += " " + type(q.cls) + "::*"; break;
        default: break;
      }
    }
    flush(true);
    return {pre, post + tail};
  }
  static std::string number(std::string v)
  {
    if (!v.empty() && v[0] == 'n')
      v[0] = '-';
    return v;
  }
  std::string literal(Arg const& a)
  {
    char c = a.type->kind == Type::Builtin ? a.type->code : 0;
    if (c == 'b')
      return a.value == "0" ? "false" : "true";
    std::string v = number(a.value);
    if (c == 'i')
      return v;
    if (filt)
      switch (c)
      {
        case 'j': return v + "u";
        case 'l': return v + "l";
        case 'm': return v + "ul";
        case 'x': return v + "ll";
        case 'y': return v + "ull";
      }
    return "(" + type(a.type) + ")" + v;
  }
  std::string expr(Expr const& x)
  {
    switch (x.kind)
    {
      case Expr::Par:
      {
        Arg const* a = bound(x.par);
        return a && a->kind == Arg::Lit ? literal(*a) : "?X";
      }
      case Expr::Lit: return literal(x.lit);
      case Expr::Un: return std::string(operators[x.op].text + 8) + "(" + expr(*x.sub[0]) + ")";
      case Expr::Bin:
      {
        std::string op = operators[x.op].text + 8;
        std::string r = "(" + expr(*x.sub[0]) + ") " + op + " (" + expr(*x.sub[1]) + ")";
        return op == ">" ? "(" + r + ")" : r;
      }
      case Expr::Tri: return "(" + expr(*x.sub[0]) + ") ? (" + expr(*x.sub[1]) + ") : (" + expr(*x.sub[2]) + ")";
      case Expr::Cast: return "(" + type(x.type) + ")(" + expr(*x.sub[0]) + ")";
      case Expr::SizeT: return "sizeof (" + type(x.type) + ")";
      case Expr::SizeX: return "sizeof (" + expr(*x.sub[0]) + ")";
    }
    return "?";
  }
  std::string args(std::vector<Arg> const& as)
  {
    std::string r = "<";
    for (size_t i = 0; i < as.size(); ++i)
    {
      if (i)
        r += ", ";
      Arg const& a = as[i];
      switch (a.kind)
      {
        case Arg::Ty: case Arg::TplName: r += type(a.type); break;
        case Arg::Lit: r += literal(a); break;
        case Arg::X: r += expr(*a.expr); break;
        case Arg::Addr: r += a.viaad ? filt ? "&" + encoding(*a.enc, false, true) : "&(" + encoding(*a.enc) + ")" : encoding(*a.enc); break;
      }
    }
    if (r.back() == '>')
      r += ' ';
    return r + ">";
  }
  std::string component(Comp const& c, std::string const& previous)
  {
    switch (c.kind)
    {
      case Comp::Id: return c.id;
      case Comp::Anon: return "(anonymous namespace)";
      case Comp::Std: return "std";
      case Comp::Abbrev:
        return abbrev_text(c.id);
      case Comp::TPar:
      {
        Arg const* a = bound(c.par);
        return a && a->type ? type(a->type) : "?TN";
      }
      case Comp::Op:
        for (auto& o : operators)
          if (c.id == o.code)
            return std::string(o.text) + (c.hasargs && (c.id == "ls" || c.id == "lt" || c.id == "lS") ? " " : "");
        return "?op";
      case Comp::Conv: return "operator " + type(c.conv);
      case Comp::Ctor: return previous;
      case Comp::Dtor: return "~" + previous;
    }
    return "?";
  }
  std::string name(Name const& n)
  {
    std::string r;
    if (n.local)
    {
      r = encoding(*n.local, true) + "::";
      if (n.string_literal)
        return r + "string literal";
    }
    std::string previous;
    for (size_t i = 0; i < n.comps.size(); ++i)
    {
      if (i)
        r += "::";
      Comp const& c = n.comps[i];
      r += component(c, previous);
      if (c.kind == Comp::Id)
        previous = c.id;
      else if (c.kind == Comp::Abbrev)
        previous = abbrev_last(c.id);
      if (c.hasargs)
      {
        r += args(c.args);
      }
    }
    return r;
  }
  std::string encoding(Encoding const& e, bool enclosing = false, bool name_only = false)
  {
    switch (e.kind)
    {
      case Encoding::Data: { env.push_back(nullptr); std::string r = name(*e.name); env.pop_back(); return r; }
      case Encoding::GlobalInit:
        return (e.special == "I" ? "global constructors keyed to " : "global destructors keyed to ") + e.raw;
      case Encoding::Special:
      {
        env.push_back(nullptr);
        std::string r;
        if (e.special == "TV") r = "vtable for " + type(e.type);
        else if (e.special == "TT") r = "VTT for " + type(e.type);
        else if (e.special == "TI") r = "typeinfo for " + type(e.type);
        else if (e.special == "TS") r = "typeinfo name for " + type(e.type);
        else if (e.special == "GV") r = "guard variable for " + name(*e.name);
        else if (e.special == "TC") r = "construction vtable for " + type(e.type2) + "-in-" + type(e.type);
        else if (e.special == "Th") r = "non-virtual thunk to " + encoding(*e.target);
        else if (e.special == "Tv") r = "virtual thunk to " + encoding(*e.target);
        else r = "covariant return thunk to " + encoding(*e.target);
        env.pop_back();
        return r;
      }
      case Encoding::Function:
      {
        Comp const& last = e.name->comps.back();
        env.push_back(nullptr);
        // A template conversion operator converts to a type that depends on its own template arguments.
        if (last.kind == Comp::Conv && last.hasargs)
          env.back() = &last.args;
        std::string n = name(*e.name);
        env.back() = last.hasargs ? &last.args : nullptr;
        std::string r, post;
        if (filt && name_only)
        {
          env.pop_back();
          return n;
        }
        if (e.has_ret && !(filt && enclosing))
        {
          auto [a, b] = decl(e.ret);
          r = a + " ";
          post = b;
        }
        r += n + params(e.params) + quals(e.cv, filt) + post;
        env.pop_back();
        return r;
      }
    }
    return "?";
  }
};

// Everything that the two styles may do differently without changing the meaning.
inline std::string normalize(std::string const& s, bool strip_parens = false)
{
  std::string r;
  auto idc = [](char c) { return c == '_' || isalnum((unsigned char)c); };
  for (size_t i = 0; i < s.size(); ++i)
  {
    if (strip_parens && (s[i] == '(' || s[i] == ')'))
      continue;
    if (s[i] == ' ')
    {
      if (!r.empty() && idc(r.back()) && i + 1 < s.size() && idc(s[i + 1]))
        r += ' ';
      continue;
    }
    r += s[i];
  }
  return r;
}

// What the system's demangler says; empty if it is not a valid name for it.
inline std::string reference(std::string const& m)
{
  int st = 0;
  char* p = abi::__cxa_demangle(m.c_str(), nullptr, nullptr, &st);
  std::string r = p ? p : "";
  free(p);
  return r;
}

//---------------------------------------------------------------------------------------------------------------------
// Generation.

struct Gen
{
  pbt::Case& c;
  int budget;               // Rough limit on the number of nodes.
  bool has_expr = false;
  bool has_abbrev_member = false;
  bool has_local_in_type = false;
  std::vector<TP> types;    // Everything generated so far, for reuse.
  std::vector<Arg> const* tparams = nullptr;
  int nesting = 0;
  std::set<std::string> features;

  explicit Gen(pbt::Case& c_) : c(c_) { budget = 3 + c.size / 3; }

  void feature(char const* f) { features.insert(f); }

  std::string ident(char const* first)
  {
    static char const* const tails[] = {"", "a", "b", "1", "_", "E", "I1", "S_", "T_", "v", "Zz", "x23", "_1_2", "ii",
      "ReallyQuiteLong", "with_a_name_of_more_than_sixty_four_characters_in_order_to_have_two_digits_and_more_to_come_until_it_exceeds_a_hundred", "L", "N", "K", "C1", "D0", "GLOBAL"};
    std::string s = first;
    s += tails[c.draw(std::size(tails) - 1)];
    if (c.chance(1, 4))
      s += (char)('a' + c.draw(25));
    return s;
  }
  TP mk(Type::K k) { auto t = std::make_shared<Type>(); t->kind = k; return t; }
  TP builtin()
  {
    auto t = mk(Type::Builtin);
    t->code = "iclbdjfmahstxywneog"[c.draw(18)];
    return t;
  }
  TP remember(TP t)
  {
    types.push_back(t);
    return t;
  }
  TP wrap(Type::K k, TP inner)
  {
    auto t = mk(k);
    t->inner = inner;
    return t;
  }
  // What a type is after looking through template parameters.
  TP resolved(TP t)
  {
    while (t->kind == Type::TPar)
      t = (*tparams)[t->par].type;
    return t;
  }
  static bool mentions_tparam(Type const& t) { Mangler m(false); m.type(std::make_shared<Type>(t)); return m.saw_par; }
  bool is(TP t, Type::K k) { return resolved(t)->kind == k; }
  bool is_void(TP t) { t = resolved(t); while (t->kind == Type::CV) t = resolved(t->inner); return t->kind == Type::Builtin && t->code == 'v'; }
  bool functionish(TP t) { return is(t, Type::Func); }
  bool element_is_cv_or_ref(TP t)
  {
    t = resolved(t);
    while (t->kind == Type::Array)
      t = resolved(t->inner);
    return t->kind == Type::CV || t->kind == Type::Ref || t->kind == Type::Func;
  }

  Comp comp(Comp::K k, std::string const& id = "")
  {
    Comp r;
    r.kind = k;
    r.id = id;
    return r;
  }
  // Scopes: namespaces and classes.
  void scopes(Name& n)
  {
    int cnt = c.weighted({6, 4, 2, 1});
    if (c.chance(1, 8))
    {
      n.comps.push_back(comp(Comp::Std));
      feature("std");
    }
    for (int i = 0; i < cnt; ++i)
    {
      if (c.chance(1, 10))
      {
        n.comps.push_back(comp(Comp::Anon));
        feature("anonymous namespace");
      }
      else
        n.comps.push_back(comp(Comp::Id, ident("n")));
    }
  }
  // A class name, possibly a template.
  NP class_name(int depth, bool allow_local = true)
  {
    auto n = std::make_shared<Name>();
    --budget;
    if (allow_local && nesting == 0 && !tparams && depth < 3 && c.chance(1, 16))
    {
      // A class that is local to a function.
      ++nesting;
      auto save = types;
      types.clear();
      n->local = function(depth + 2, false);
      types = save;
      --nesting;
      n->comps.push_back(comp(Comp::Id, ident("C")));
      if (c.chance(1, 4))
        n->discriminator = c.draw(14);
      feature("local class");
      return n;
    }
    scopes(*n);
    // Extend a class that is already there.
    if (!types.empty() && c.chance(1, 4))
    {
      TP t = types[c.draw(types.size() - 1)];
      if (t->kind == Type::Named && !t->name->local && (tparams || !mentions_tparam(*t)))
      {
        n->comps = t->name->comps;
        feature("member of reused scope");
      }
    }
    class_comps(*n, depth);
    return n;
  }
  void class_comps(Name& n, int depth)
  {
    int cnt = 1 + c.weighted({8, 2, 1});
    for (int i = 0; i < cnt; ++i)
    {
      if (c.chance(1, 3) && depth < 4 && budget > 0)
      {
        Comp k = comp(Comp::Id, ident("T"));
        if (n.comps.empty() && c.chance(1, 5))
        {
          k = comp(Comp::Abbrev, c.coin() ? "Sa" : "Sb");
          feature("Sa, Sb");
        }
        k.hasargs = true;
        k.args = tmpl_args(depth + 1);
        n.comps.push_back(k);
        feature("class template");
      }
      else
        n.comps.push_back(comp(Comp::Id, ident("C")));
    }
  }
  std::vector<Arg> tmpl_args(int depth)
  {
    std::vector<Arg> as;
    int cnt = 1 + c.weighted({5, 3, 1, 1});
    for (int i = 0; i < cnt; ++i)
      as.push_back(arg(depth));
    return as;
  }
  Arg arg(int depth)
  {
    Arg a;
    int k = c.weighted({12, 4, 1, 1, tparams ? 2 : 0});
    if (k == 1)
      return literal();
    if (k == 2 && nesting == 0 && depth < 4)
    {
      a.kind = Arg::Addr;
      ++nesting;
      auto save = types;
      auto savet = tparams;
      tparams = nullptr;
      types.clear();
      a.enc = c.coin() ? data() : function(depth + 2, false);
      types = save;
      tparams = savet;
      --nesting;
      a.viaad = c.coin();
      feature("address literal");
      return a;
    }
    if (k == 3)
    {
      // A template as argument.
      a.kind = Arg::TplName;
      auto n = std::make_shared<Name>();
      scopes(*n);
      n->comps.push_back(comp(Comp::Id, ident("T")));
      a.type = mk(Type::Named);
      a.type->name = n;
      feature("template template argument");
      return a;
    }
    if (k == 4)
    {
      std::vector<int> vals;
      for (size_t i = 0; i < tparams->size(); ++i)
        if ((*tparams)[i].kind == Arg::Lit)
          vals.push_back(i);
      a.kind = Arg::X;
      a.expr = expr(vals, 0);
      has_expr = true;
      feature("expression");
      return a;
    }
    a.kind = Arg::Ty;
    a.type = type(depth + 1, true);
    return a;
  }
  Arg literal()
  {
    Arg a;
    a.kind = Arg::Lit;
    a.type = mk(Type::Builtin);
    a.type->code = "ibcjlmxyhastw"[c.draw(12)];
    if (a.type->code == 'b')
      a.value = c.coin() ? "1" : "0";
    else
    {
      uint64_t v = c.chance(1, 4) ? c.draw(~0ULL) >> c.draw(63) : c.draw(100);
      a.value = (v && c.chance(1, 3) ? "n" : "") + std::to_string(v);
      if (c.chance(1, 6))
      {
        // An enumeration.
        a.type = mk(Type::Named);
        a.type->name = std::make_shared<Name>();
        scopes(*a.type->name);
        a.type->name->comps.push_back(comp(Comp::Id, ident("e")));
        remember(a.type);
      }
    }
    feature("literal");
    return a;
  }
  XP expr(std::vector<int> const& vals, int d)
  {
    auto x = std::make_shared<Expr>();
    int k = d > 2 ? c.weighted({2, 2}) : c.weighted({3, 2, 2, 4, 1, 1, 1, 1});
    if (k == 0 && vals.empty())
      k = 1;
    switch (k)
    {
      case 0: x->kind = Expr::Par; x->par = vals[c.draw(vals.size() - 1)]; break;
      case 1: x->kind = Expr::Lit; x->lit = literal(); break;
      case 2: case 3:
      {
        x->kind = k == 2 ? Expr::Un : Expr::Bin;
        do
          x->op = c.range(expr_first, expr_last);
        while (operators[x->op].arity != k - 1 || (operators[x->op].code[1] < 'a') || !strcmp(operators[x->op].code, "ad"));
        for (int i = 0; i < k - 1; ++i)
          x->sub.push_back(expr(vals, d + 1));
        break;
      }
      case 4:
        x->kind = Expr::Tri;
        for (int i = 0; i < 3; ++i)
          x->sub.push_back(expr(vals, d + 1));
        break;
      case 5: x->kind = Expr::Cast; x->type = builtin(); x->sub.push_back(expr(vals, d + 1)); break;
      case 6: x->kind = Expr::SizeT; x->type = type(4, true); break;
      case 7: x->kind = Expr::SizeX; x->sub.push_back(expr(vals, d + 1)); break;
    }
    return x;
  }
  TP leaf(int depth)
  {
    int k = c.weighted({6, 8, 2, tparams ? 8 : 0});
    if (k == 1 && budget > 0)
    {
      auto t = mk(Type::Named);
      t->name = class_name(depth);
      return remember(t);
    }
    if (k == 2)
    {
      auto t = mk(Type::Abbrev);
      static char const* const ab[] = {"Ss", "Si", "So", "Sd"};
      t->abbrev = ab[c.draw(3)];
      feature("Ss, Si, So, Sd");
      return t;
    }
    if (k == 3)
    {
      std::vector<int> tys, tpl;
      for (size_t i = 0; i < tparams->size(); ++i)
        if ((*tparams)[i].kind == Arg::Ty)
          tys.push_back(i);
        else if ((*tparams)[i].kind == Arg::TplName)
          tpl.push_back(i);
      if (!tpl.empty() && (tys.empty() || c.chance(1, 3)) && depth < 5)
      {
        auto t = mk(Type::TTApp);
        t->par = tpl[c.draw(tpl.size() - 1)];
        t->args = tmpl_args(depth + 1);
        feature("template template parameter");
        return remember(t);
      }
      if (!tys.empty())
      {
        auto t = mk(Type::TPar);
        t->par = tys[c.draw(tys.size() - 1)];
        feature("template parameter");
        TP r = (*tparams)[t->par].type;
        if (r->kind == Type::Named && !r->name->local && c.chance(1, 5))
        {
          // A member of the template parameter.
          auto m = mk(Type::Named);
          m->name = std::make_shared<Name>();
          Comp tp = comp(Comp::TPar);
          tp.par = t->par;
          m->name->comps.push_back(tp);
          class_comps(*m->name, depth + 1);
          feature("member of template parameter");
          return remember(m);
        }
        return remember(t);
      }
    }
    return builtin();
  }
  TP type(int depth, bool as_arg = false)
  {
    --budget;
    if (!types.empty() && c.chance(2, 5))
    {
      TP t = types[c.draw(types.size() - 1)];
      if ((!as_arg || !is(t, Type::Ref)) && (tparams || !mentions_tparam(*t)))
      {
        feature("reused type");
        return t;
      }
    }
    if (depth > 5 || budget <= 0)
      return leaf(depth);
    switch (c.weighted({8, 6, as_arg ? 0 : 3, 4, 3, 3, 2, 2}))
    {
      case 0: return leaf(depth);
      case 1:
      {
        TP i = c.chance(1, 10) ? mk(Type::Builtin) : type(depth + 1, true);
        if (i->kind == Type::Builtin && !i->code)
          i->code = 'v';
        feature("pointer");
        return remember(wrap(Type::Ptr, i));
      }
      case 2: feature("reference"); return remember(wrap(Type::Ref, type(depth + 1, true)));
      case 3:
      {
        TP i = type(depth + 1, true);
        bool arr = is(i, Type::Array);
        if (functionish(i) || is(i, Type::CV) || is(i, Type::Ref) || element_is_cv_or_ref(i) || (arr && i->kind != Type::TPar))
          return i;
        auto t = wrap(Type::CV, i);
        static char const* const q[] = {"K", "V", "VK"};
        t->cv = q[c.weighted({6, 2, 2})];
        if (i->kind == Type::Ptr && c.chance(1, 5))
          t->cv = "r" + (c.coin() ? std::string() : t->cv);
        feature("cv-qualifier");
        return remember(t);
      }
      case 4:
      {
        TP i = type(depth + 1, true);
        if (functionish(i) || is_void(i))
          return i;
        auto t = wrap(Type::Array, i);
        t->dim = std::to_string(1 + c.draw(20));
        feature("array");
        return remember(t);
      }
      case 5:
      {
        auto t = mk(Type::Func);
        signature(*t, depth);
        feature("function type");
        return remember(t);
      }
      case 6:
      {
        auto t = mk(Type::MemPtr);
        t->cls = mk(Type::Named);
        t->cls->name = class_name(depth + 1);
        remember(t->cls);
        t->inner = type(depth + 1, true);
        if (functionish(t->inner) || is_void(t->inner))
          t->inner = builtin();
        feature("pointer to data member");
        return remember(t);
      }
      default:
      {
        auto t = mk(Type::MemFun);
        t->cls = mk(Type::Named);
        t->cls->name = class_name(depth + 1);
        remember(t->cls);
        signature(*t, depth);
        static char const* const q[] = {"", "K", "V", "VK"};
        t->cv = q[c.weighted({5, 3, 1, 1})];
        feature("pointer to member function");
        return remember(t);
      }
    }
  }
  TP ret_type(int depth)
  {
    if (c.chance(1, 3))
    {
      auto v = mk(Type::Builtin);
      v->code = 'v';
      return v;
    }
    TP t = type(depth + 1);
    if (functionish(t) || is(t, Type::Array))
      t = remember(wrap(Type::Ptr, t));
    return t;
  }
  // Parameters of array and function type decay to pointers.
  TP param_type(int depth)
  {
    TP t = type(depth + 1);
    return functionish(t) || is(t, Type::Array) ? remember(wrap(Type::Ptr, t)) : t;
  }
  void signature(Type& t, int depth)
  {
    t.inner = ret_type(depth);
    int cnt = c.weighted({3, 4, 2, 1});
    for (int i = 0; i < cnt; ++i)
      t.params.push_back(param_type(depth));
    if (cnt && c.chance(1, 12))
      t.params.push_back(ellipsis());
  }
  TP ellipsis()
  {
    auto z = mk(Type::Builtin);
    z->code = 'z';
    feature("ellipsis");
    return z;
  }
  EP data()
  {
    auto e = std::make_shared<Encoding>();
    e->kind = Encoding::Data;
    e->name = std::make_shared<Name>();
    if (nesting == 0 && c.chance(1, 4))
    {
      ++nesting;
      e->name->local = function(1, true);
      --nesting;
      if (c.chance(1, 8))
        e->name->string_literal = true;
      if (c.chance(1, 3))
        e->name->discriminator = c.draw(14);
      feature("local object");
      if (!e->name->string_literal)
      {
        if (c.chance(1, 3))
          e->name->comps.push_back(comp(Comp::Id, ident("C")));
        e->name->comps.push_back(comp(Comp::Id, ident("v")));
      }
      return e;
    }
    scopes(*e->name);
    if (c.coin())
      class_comps(*e->name, 1);
    e->name->comps.push_back(comp(Comp::Id, ident("v")));
    feature("object");
    return e;
  }
  EP function(int depth, bool allow_template = true)
  {
    auto e = std::make_shared<Encoding>();
    e->kind = Encoding::Function;
    e->name = std::make_shared<Name>();
    Name& n = *e->name;
    auto save = tparams;
    tparams = nullptr;
    bool member = c.chance(1, 2);
    bool local_member = member && nesting == 0 && c.chance(1, 12);
    if (local_member)
    {
      ++nesting;
      n.local = function(2, true);
      --nesting;
      n.comps.push_back(comp(Comp::Id, ident("C")));
      feature("member of a local class");
    }
    else if (member && c.chance(1, 8))
    {
      n.comps.push_back(comp(Comp::Abbrev, "Ss"));
      has_abbrev_member = true;
      feature("member of std::string");
    }
    else
    {
      scopes(n);
      if (member)
        class_comps(n, depth + 1);
    }
    // The name of the class itself is a type that will be used in the signature.
    bool cls = member && !n.local && n.comps.back().kind == Comp::Id;
    if (cls)
    {
      auto t = mk(Type::Named);
      t->name = std::make_shared<Name>(n);
      types.push_back(t);
      types.push_back(t);
    }
    enum { plain, op, conv, ctor, dtor } kind = plain;
    if (member)
      kind = (decltype(kind))c.weighted({6, 3, 1, 2, 1});
    else if (c.chance(1, 4))
      kind = op;
    bool tmpl = allow_template && kind != dtor && !local_member && c.chance(1, 3);   // A local class has no member templates.
    Comp f;
    switch (kind)
    {
      case plain: f = comp(Comp::Id, ident(tmpl ? "g" : "f")); break;
      case op: f = comp(Comp::Op, operators[c.draw(std::size(operators) - 1)].code); feature("operator"); break;
      case conv: f = comp(Comp::Conv); feature("conversion operator"); break;
      case ctor: f = comp(Comp::Ctor, std::to_string(1 + c.draw(2))); feature("constructor"); break;
      case dtor: f = comp(Comp::Dtor, std::to_string(c.draw(2))); feature("destructor"); break;
    }
    if (tmpl)
    {
      f.hasargs = true;
      if (kind == conv)
      {
        Arg a;
        a.kind = Arg::Ty;
        a.type = type(depth + 2, true);
        if (functionish(a.type) || is(a.type, Type::Array))
          a.type = builtin();
        f.args.push_back(a);
        f.conv = mk(Type::TPar);
      }
      else
      {
        f.args = tmpl_args(depth + 1);
        feature("function template");
      }
    }
    else if (kind == conv)
    {
      f.conv = type(depth + 2);
      if (functionish(f.conv) || is(f.conv, Type::Array))
        f.conv = wrap(Type::Ptr, f.conv);
    }
    n.comps.push_back(f);
    Comp const* last = &n.comps.back();
    if (tmpl && kind != conv)
      tparams = &last->args;
    if (kind == plain || kind == op)
    {
      if (tmpl)
      {
        e->has_ret = true;
        e->ret = ret_type(depth);
      }
    }
    if (member && (kind == plain || kind == op || kind == conv))
    {
      static char const* const q[] = {"", "K", "V", "VK"};
      e->cv = q[c.weighted({5, 3, 1, 1})];
    }
    if (kind != dtor && kind != conv)
    {
      int cnt = c.weighted({3, 4, 3, 2, 1});
      for (int i = 0; i < cnt; ++i)
        e->params.push_back(param_type(depth));
      if (cnt && c.chance(1, 12))
        e->params.push_back(ellipsis());
    }
    // Types that mention the template parameters have no meaning outside of this function.
    if (tparams)
      types.erase(std::remove_if(types.begin(), types.end(), [](TP const& t) { return mentions_tparam(*t); }), types.end());
    tparams = save;
    return e;
  }
  EP symbol()
  {
    auto e = std::make_shared<Encoding>();
    switch (c.weighted({12, 4, 4, 1}))
    {
      case 0: return function(0);
      case 1: return data();
      case 3:
        e->kind = Encoding::GlobalInit;
        e->special = c.coin() ? "I" : "D";
        e->raw = c.coin() ? ident("x") : mangle_symbol(function(2));
        feature("static initialization");
        return e;
    }
    e->kind = Encoding::Special;
    int k = c.draw(8);
    static char const* const sp[] = {"TV", "TT", "TI", "TS", "GV", "TC", "Th", "Tv", "Tc"};
    e->special = sp[k];
    feature(sp[k]);
    auto cls = [&] {
      auto t = mk(Type::Named);
      t->name = class_name(1);
      return remember(t);
    };
    auto num = [&] { return Mangler::number((int)c.range(0, 200) * (c.coin() ? -1 : 1)); };
    if (k < 2)
      e->type = cls();
    else if (k < 4)
      e->type = type(1, true);
    else if (k == 4)
      e->name = data()->name;
    else if (k == 5)
    {
      e->type = cls();
      e->offsets = std::to_string(c.draw(300));
      e->type2 = cls();
    }
    else
    {
      auto h = [&] { return "h" + num() + "_"; };
      auto v = [&] { return "v" + num() + "_" + num() + "_"; };
      e->offsets = k == 6 ? h() : k == 7 ? v() : (c.coin() ? h() : v()) + (c.coin() ? h() : v());
      do
        e->target = function(1);
      while (false);
    }
    return e;
  }
};

} // namespace mg
