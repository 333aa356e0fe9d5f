// Random C++ programs with debug statements in every statement context, and an interpreter that says what they do.
#pragma once
#include "progs.h"
#include <algorithm>

namespace proggen {
using pbt::Case;
using pbt::quote;

// What the generated program may contain.
struct Mode
{
  bool debug;  // Compiled with CWDEBUG.
};

// The state that debug statements depend on while interpreting.
struct State
{
  std::string log;              // What is written to the standard error stream.
  int cnt[4] = {0, 0, 0, 0};    // Channels AAA, BBB, NOTICE and WARNING; -1 is on.
  int obj[2] = {-1, -1};        // libcw_do and my_do.
  int executed = 0, shown = 0, hidden = 0;
  int indent = 0;               // Of libcw_do.
  std::string prefix(char const* label, int object) const { return std::string(label) + ": " + std::string(object ? 0 : indent, ' '); }
  bool ended = false;
  int exit_status = 0;
};

struct Node;
using NodePtr = std::unique_ptr<Node>;
struct Node
{
  std::function<std::string(bool)> text;  // The argument is true for the reference program, that has no debug statements.
  std::function<void(State&)> run;
  bool simple = false;                    // A single statement without sub statements.
  bool needs_brace = false;               // Ends in an if without else.
};

// The identifiers that occur in the debug macros: a debug statement must work also when the program has variables called so.
inline std::vector<std::string> const& macro_names()
{
  static std::vector<std::string> names = [] {
    std::set<std::string> have, skip{"do", "while", "if", "else", "using", "namespace", "bool", "true", "false", "int", "const", "char", "for", "void", "auto", "return", "std", "libcwd", "this", "struct", "class",
      "template", "static", "extern", "case", "switch", "new", "delete", "not", "and", "or", "inline", "private", "public", "operator", "include", "define", "debugChannel", "debugObject", "dc", "unsigned", "long", "signed",
      "try", "catch", "throw", "goto", "break", "continue", "default", "sizeof", "enum", "union", "typename", "typedef", "export", "register", "short", "float", "double", "friend", "mutable", "virtual", "explicit",
      "protected", "volatile", "asm", "bitand", "bitor", "xor", "compl", "concept", "requires", "module", "import", "constexpr", "consteval", "constinit", "decltype", "noexcept", "nullptr", "alignas", "alignof",
      "t", "k", "W", "my_do", "main", "flag", "errno", "stdin", "stdout", "stderr", "debug", "linux", "unix", "assert"};
    for (auto* f : {"macro_Libcwd_macros.h", "debug.h"})
    {
      std::string text = progs::read_file(progs::env("VP_REPO", "/repo") + "/include/libcwd/" + f);
      // Only macro definitions.
      std::istringstream in(text);
      bool macro = false;
      for (std::string l; std::getline(in, l);)
      {
        if (l.compare(0, 7, "#define") == 0) macro = true;
        if (macro)
          for (size_t i = 0; i < l.size();)
          {
            size_t b = i;
            while (i < l.size() && (isalnum((unsigned char)l[i]) || l[i] == '_')) ++i;
            if (i == b) { ++i; continue; }
            std::string w = l.substr(b, i - b);
            bool lower = islower((unsigned char)w[0]) && std::none_of(w.begin(), w.end(), [](unsigned char x) { return isupper(x); });
            if (lower && !skip.count(w)) have.insert(w);
          }
        if (l.empty() || l.back() != '\\') macro = false;
      }
    }
    have.insert("on");
    return std::vector<std::string>(have.begin(), have.end());
  }();
  return names;
}

struct Gen
{
  Case& c;
  Mode mode;
  int next = 1;
  int budget;
  std::string vars;   // Local variables of the function that is being generated.
  std::vector<std::pair<std::string, std::string>> locals; // Name and what it prints as.
  bool in_template = false;
  bool user_operators = false; // There are operators that only debug statements use: LIBCWD_USING_OSTREAM_PRELUDE.
  bool has_dead_fatal = false;
  std::set<std::string> labels;

  Gen(Case& c_, Mode m, int b) : c(c_), mode(m), budget(b) { }

  static std::string T(int id) { return "T" + std::to_string(id) + "\n"; }
  std::string num(int i) { return std::to_string(i); }

  struct Operand { std::string text, prints, traces; };

  Operand operand(bool garbage)
  {
    int id = next++;
    std::string n = num(id);
    switch (c.weighted({5, 3, 6, 2, 2, 2, 3, 1, garbage ? 4 : 0, user_operators ? 3 : 0}))
    {
      case 0: return {(c.coin() ? "t(" : "value(") + n + ")", n, T(id)};
      case 1:
      {
        static char const* const s[] = {"text", "a, b", "(", ")", "))", "; }", "a << b", "// no comment", "/* nor this */", "\\\"quoted\\\"", "#x ## y", "\\n", "%s %n", "{", "'", "", "?\?/", "\\\\"};
        static char const* const p[] = {"text", "a, b", "(", ")", "))", "; }", "a << b", "// no comment", "/* nor this */", "\"quoted\"", "#x ## y", "\n", "%s %n", "{", "'", "", "\?\?/", "\\"};
        int k = c.draw(sizeof(s) / sizeof(*s) - 1);
        return {std::string("\"") + s[k] + "\"", p[k], ""};
      }
      case 2:
        if (!locals.empty())
        {
          auto& l = c.pick(locals);
          return {l.first, l.second, ""};
        }
        return {"t(" + n + ")", n, T(id)};
      case 3: return {"std::pair<int, int>(t(" + n + "), 2).first", n, T(id)};
      case 4: return {"[&]{ t(" + n + "); return \"r\"; }()", "r", T(id)};
      case 5: return {"(t(" + n + ") > 0 ? 'y' : 'n')", "y", T(id)};
      case 6: return {"W<int, " + n + ">()", "W" + n, T(id)};
      case 7: return {"[&]{ for (int i = 0; i < 2; ++i) t(" + n + "); struct L { int a, b; } l = { 1, 2 }; return l.b; }()", "2", T(id) + T(id)};
      case 9: return {"theirs::V<" + n + ">()", "V" + n, T(id)};
      default:
      {
        static char const* const g[] = {"undeclared", "no_such_function(1, 2)", "obj->member.other<int, 3>()", "+ - * /", "new", "[&](auto... x) { return (x + ...); }",
          "[&]{ Dout(dc::notice, \"nested\" << t(1)); return 0; }()", "static_cast<Nothing const&>(nothing)", "\"unfinished\" << <<", "this->x", "(, ,)", "{ 1, 2, 3 }", "if (x) return", "__LINE__ << __FILE__ << CWDEBUG_NOT_DEFINED",
          "sizeof(Incomplete)", "42_km", "co_await x", "dc::notice.on()", "::libcwd::libcw_do", "throw 1", "decltype(auto)"};
        return {c.pick(g), "", ""};
      }
    }
  }

  struct Operands { std::string text, prints, traces, mixed; };
  Operands operands(bool garbage)
  {
    Operands o;
    for (int k = c.range(1, 4); k > 0; --k)
    {
      Operand x = operand(garbage);
      if (o.text.empty() && x.text[0] == '{') x.text = "0";
      o.text += (o.text.empty() ? "" : c.chance(1, 6) ? "\n      << " : c.chance(1, 6) ? "<<" : " << ") + x.text;
      o.prints += x.prints;
      o.traces += x.traces;
      o.mixed += x.traces + x.prints;
    }
    return o;
  }

  static char const* channel(int k) { static char const* const n[] = {"dc::aaa", "dc::bbb", "dc::notice", "dc::warning"}; return n[k]; }
  static char const* label(int k) { static char const* const n[] = {"AAA     ", "BBB     ", "NOTICE  ", "WARNING "}; return n[k]; }

  NodePtr leaf_trace()
  {
    auto n = std::make_unique<Node>();
    int id = next++;
    n->text = [id](bool) { return "t(" + std::to_string(id) + ");"; };
    n->run = [id](State& s) { s.log += T(id); };
    n->simple = true;
    return n;
  }

  // A statement that writes its text in several pieces, with other code in between.
  // That code is only executed when the text is written; what it writes is therefore the trace of an operand.
  std::string pieces(std::string const& begin, std::string const& stream, std::string const& end, Operands& o)
  {
    std::string s = begin + " " + stream + " << " + o.text;
    for (int n = c.draw(2); n > 0; --n)
    {
      if (c.coin())
      {
        int id = next++;
        s += "; if (int u = t(" + num(id) + ")) " + stream + " << u << \"" + std::string(c.coin() ? "," : "") + "\"";
        bool comma = s[s.size() - 2] == ',';
        o.traces += T(id);
        o.prints += num(id) + (comma ? "," : "");
        o.mixed += T(id) + num(id) + (comma ? "," : "");
      }
      else
      {
        Operands more = operands(false);
        s += "; " + stream + " << " + more.text;
        o.traces += more.traces;
        o.prints += more.prints;
        o.mixed += more.mixed;
      }
    }
    return s + "; " + end;
  }

  bool entering_ = false; // The next debug statement is a DoutEntering.
  NodePtr leaf_debug()
  {
    auto n = std::make_unique<Node>();
    n->simple = true;
    bool garbage = !mode.debug && c.chance(1, 3);
    int id = next++;
    std::string txt;
    std::string sid = num(id);
    switch (entering_ ? 0 : c.weighted({8, 3, 2, 2, 2, 2, 2, 2}))
    {
      case 0: case 3: // Dout, LibcwDout, the separate parts of LibcwDout, DoutEntering.
      {
        int k = c.draw(3);
        bool enter = entering_;
        int d = enter ? 0 : c.draw(1);
        bool scope = mode.debug && !enter && c.chance(1, 6);
        std::string entering = enter ? "Entering " : "";
        Operands o = operands(garbage);
        std::string ch = channel(k);
        bool noprefix = c.chance(1, 5);
        if (noprefix) ch += c.coin() ? "|noprefix_cf" : " | noprefix_cf";
        if (garbage && c.coin()) ch = c.coin() ? "dc::does_not_exist|what_cf" : "no idea";
        if (scope) txt = pieces("LibcwDoutScopeBegin(LIBCWD_DEBUG_CHANNELS, " + std::string(d ? "my_do" : "::libcwd::libcw_do") + ", " + ch + ")", "LibcwDoutStream", "LibcwDoutScopeEnd", o);
        else if (enter) txt = "DoutEntering(" + ch + ", " + o.text + ")";
        else txt = d ? "LibcwDout(LIBCWD_DEBUG_CHANNELS, my_do, " + ch + ", " + o.text + ")" : "Dout(" + ch + ", " + o.text + ")";
        n->run = [=](State& s) {
          ++s.executed;
          if (s.obj[d] != -1 || s.cnt[k] != -1) { ++s.hidden; return; }
          ++s.shown;
          s.log += o.traces + (noprefix ? "" : s.prefix(label(k), d)) + entering + o.prints + "\n";
        };
        break;
      }
      case 1: // Debug
      {
        int id2 = next++;
        bool lib = c.coin();
        std::string body = c.chance(1, 3) ? "t(" + sid + ")" : c.coin() ? "t(" + sid + "); int q = 3, r = 4; if (q > r) t(0); t(" + num(id2) + ")" :
            "for (int i = 0, j = 0; i < 1; ++i, ++j) { t(" + sid + "); }";
        bool two = body.find("int q") != std::string::npos;
        if (garbage) body = operand(true).text;
        txt = (lib ? "LibcwDebug(LIBCWD_DEBUG_CHANNELS, " : "Debug(") + body + ")";
        n->run = [=](State& s) { ++s.executed; s.log += T(id) + (two ? T(id2) : ""); };
        break;
      }
      case 2: // Switching.
      {
        int k = c.draw(3);
        bool on = c.coin();
        std::string ch = channel(k);
        txt = on ? "Debug(while (!" + ch + ".is_on()) " + ch + ".on())" : "Debug(" + ch + ".off())";
        n->run = [=](State& s) { ++s.executed; if (on) s.cnt[k] = -1; else ++s.cnt[k]; };
        break;
      }
      case 4:
      {
        int k = c.draw(3);
        std::string f = c.coin() ? "ForAllDebugChannels(" : "LibcwdForAllDebugChannels(LIBCWD_DEBUG_CHANNELS, ";
        txt = f + (garbage ? operand(true).text : std::string("if (&debugChannel == &") + channel(k) + ") t(" + sid + ")") + ")";
        n->run = [=](State& s) { ++s.executed; s.log += T(id); };
        break;
      }
      case 5:
      {
        int k = c.draw(1);
        std::string f = c.coin() ? "ForAllDebugObjects(" : "LibcwdForAllDebugObjects(LIBCWD_DEBUG_CHANNELS, ";
        txt = f + (garbage ? operand(true).text : std::string("if (&debugObject == &") + (k ? "my_do" : "libcwd::libcw_do") + ") { int a, b; t(" + sid + "); }") + ")";
        n->run = [=](State& s) { ++s.executed; s.log += T(id); };
        break;
      }
      case 6: // The debug object.
      {
        int d = c.draw(1);
        bool on = c.coin();
        std::string o = d ? "my_do" : "::libcwd::libcw_do";
        txt = on ? "Debug(force_on(" + o + "))" : "Debug(" + o + ".off())";
        n->run = [=](State& s) { ++s.executed; if (on) s.obj[d] = -1; else ++s.obj[d]; };
        break;
      }
      default: // The value of a control flag that is calculated.
      {
        int k = c.draw(3);
        Operands o = operands(false);
        bool w = c.coin();
        // Control flags are evaluated, as the channel is, when the debug object is on.
        txt = std::string("Dout(") + channel(k) + "|flag(" + (w ? "true" : "false") + ", " + sid + "), " + o.text + ")";
        n->run = [=](State& s) {
          ++s.executed;
          if (s.obj[0] != -1) { ++s.hidden; return; }
          s.log += T(id);
          if (s.cnt[k] != -1) { ++s.hidden; return; }
          ++s.shown;
          s.log += o.traces + (w ? "" : s.prefix(label(k), 0)) + o.prints + "\n";
        };
        break;
      }
    }
    bool dbg = mode.debug;
    auto run = n->run;
    n->run = [run, dbg](State& s) {
      if (dbg) run(s);
      else ++s.executed;
    };
    n->text = [txt](bool reference) { return reference ? std::string(";") : txt + ";"; };
    return n;
  }

  NodePtr leaf_fatal()
  {
    auto n = std::make_unique<Node>();
    n->simple = true;
    Operands o = operands(false);
    bool lib = c.chance(1, 3);
    std::string ch = c.chance(1, 4) ? "dc::fatal | noprefix_cf" : "dc::fatal";
    bool noprefix = ch != "dc::fatal";
    std::string txt = mode.debug && c.chance(1, 5) ? pieces("LibcwDoutFatalScopeBegin(LIBCWD_DEBUG_CHANNELS, ::libcwd::libcw_do, " + ch + ")", "LibcwDoutFatalStream", "LibcwDoutFatalScopeEnd", o) :
        lib ? "LibcwDoutFatal(LIBCWD_DEBUG_CHANNELS, libcwd::libcw_do, " + ch + ", " + o.text + ")" : "DoutFatal(" + ch + ", " + o.text + ")";
    bool dbg = mode.debug;
    n->run = [=](State& s) {
      ++s.executed;
      s.log += (dbg ? o.traces + (noprefix ? "" : s.prefix("FATAL   ", 0)) + o.prints : o.mixed) + "\n";
      s.ended = true;
      s.exit_status = dbg ? 180 : 1;
    };
    n->text = [txt](bool) { return txt + ";"; };
    return n;
  }

  static std::string indent(std::string const& s)
  {
    // String literals do not contain new lines, so this is safe.
    std::string r = "  ";
    for (char ch : s) { r += ch; if (ch == '\n') r += "  "; }
    return r;
  }

  std::string cond(int id, bool v) { return "k(" + num(id) + ", " + (v ? "true" : "false") + ")"; }

  // A fatal statement that is not executed.
  NodePtr dead_fatal(int depth)
  {
    auto n = std::make_unique<Node>();
    int id = next++;
    std::string sid = num(id);
    has_dead_fatal = true;
    std::shared_ptr<Node> a = leaf_fatal();
    bool br = c.chance(1, 4);
    auto sub = [br](std::shared_ptr<Node> const& x, bool r, bool need) { return br || need ? "{\n" + indent(x->text(r)) + "\n}" : "\n" + indent(x->text(r)); };
    switch (c.draw(6))
    {
      case 0: case 1: // if/else
      {
        bool v = c.chance(1, 3);
        std::shared_ptr<Node> b = stmt(depth - 1);
        n->text = [=, this](bool r) {
          return v ? "if (" + cond(id, true) + ") " + sub(b, r, b->needs_brace) + "\nelse " + sub(a, r, false) : "if (" + cond(id, false) + ") " + sub(a, r, false) + "\nelse " + sub(b, r, false); };
        n->needs_brace = !v && !br && b->needs_brace;
        n->run = [=](State& s) { s.log += T(id); b->run(s); };
        break;
      }
      case 2: // if
        n->text = [=, this](bool r) { return "if (" + cond(id, false) + ") " + sub(a, r, false); };
        n->needs_brace = true;
        n->run = [=](State& s) { s.log += T(id); };
        break;
      case 3: // while
        n->text = [=, this](bool r) { return "while (" + cond(id, false) + ") " + sub(a, r, false); };
        n->run = [=](State& s) { s.log += T(id); };
        break;
      case 4: // for
        n->text = [=](bool r) { return "for (int i" + sid + " = 0; i" + sid + " < 0; ++i" + sid + ") " + sub(a, r, false); };
        n->run = [](State&) { };
        break;
      case 5: // switch
      {
        int v = c.draw(1);
        std::shared_ptr<Node> b = stmt(depth - 1);
        n->text = [=](bool r) {
          return "switch (" + std::to_string(v) + ")\n{\n  case 2: " + a->text(r) + "\n  case 0: " + b->text(r) + "\n  break;\n  case 3: case 4: " + a->text(r) + "\n}"; };
        n->run = [=](State& s) { if (v == 0) b->run(s); };
        break;
      }
      default: // Behind a return.
      {
        std::shared_ptr<Node> b = stmt(depth - 1);
        n->text = [=](bool r) { return "[&]() { " + b->text(r) + " if (true) return; " + a->text(r) + " }();"; };
        n->run = [=](State& s) { b->run(s); };
        break;
      }
    }
    return n;
  }

  // The last node of a list can be a fatal statement.
  NodePtr stmt(int depth)
  {
    --budget;
    if (depth > 0 && budget > 0 && c.chance(1, 9)) return dead_fatal(depth);
    if (depth == 0 || budget <= 0 || c.chance(1, 3))
      return c.chance(2, 3) ? leaf_debug() : leaf_trace();
    return compound(depth, [this, depth] { return stmt(depth - 1); });
  }

  // The result executes what the first call of kid() returns exactly once, if it is the path to a fatal statement (must).
  template<typename K> NodePtr compound(int depth, K kid, bool must = false)
  {
    auto n = std::make_unique<Node>();
    int id = next++;
    std::string sid = num(id);
    int kind = c.draw(must ? mode.debug ? 10 : 9 : mode.debug ? 13 : 12);
    if (must && kind == 10) kind = 13;
    std::shared_ptr<Node> head;
    if (kind == 13)
    {
      entering_ = true;
      head = leaf_debug();
      entering_ = false;
    }
    auto saved = locals;
    if (kind == 12) locals.clear(); // Members of local classes can not use local variables.
    std::shared_ptr<Node> a = kid();
    std::shared_ptr<Node> b;
    auto braced = [](std::shared_ptr<Node> const& x, bool r) { return "{\n" + indent(x->text(r)) + "\n}"; };
    bool br = c.coin();
    // The text of a sub statement, with or without braces.
    auto sub = [br, braced](std::shared_ptr<Node> const& x, bool r, bool need) { return br || need ? braced(x, r) : "\n" + indent(x->text(r)); };
    switch (kind)
    {
      case 0: // if/else, the first being executed.
      case 1: // if/else, the second being executed.
      {
        b = stmt(depth - 1);
        bool v = kind == 0;
        if (!v) std::swap(a, b);
        n->text = [=, this](bool r) { return "if (" + cond(id, v) + ") " + sub(a, r, a->needs_brace) + "\nelse " + sub(b, r, false); };
        n->needs_brace = !br && b->needs_brace;
        n->run = [=](State& s) { s.log += T(id); (v ? a : b)->run(s); };
        break;
      }
      case 2: // if without else
      {
        bool v = must || c.coin();
        n->text = [=, this](bool r) { return "if (" + cond(id, v) + ") " + sub(a, r, false); };
        n->needs_brace = true;
        n->run = [=](State& s) { s.log += T(id); if (v) a->run(s); };
        break;
      }
      case 3: // for
      {
        int k = must ? 1 : c.draw(3);
        n->text = [=](bool r) { return "for (int i" + std::to_string(id) + " = 0; i" + std::to_string(id) + " < " + std::to_string(k) + "; ++i" + std::to_string(id) + ") " + sub(a, r, false); };
        n->needs_brace = !br && a->needs_brace;
        n->run = [=](State& s) { for (int i = 0; i < k && !s.ended; ++i) a->run(s); };
        break;
      }
      case 4: // do while
        n->text = [=, this](bool r) { return "do " + sub(a, r, false) + "\nwhile (" + cond(id, false) + ");"; };
        n->run = [=](State& s) { a->run(s); if (!s.ended) s.log += T(id); };
        break;
      case 5: // switch
      {
        int v = c.draw(2);
        b = stmt(depth - 1);
        bool fall = c.coin();
        if (must) v = 0;
        n->text = [=](bool r) {
          return "switch (" + std::to_string(v) + ")\n{\n  case 0: " + a->text(r) + (fall ? "" : "\n  break;") + "\n  case 1: " + b->text(r) + "\n  break;\n  default: ;\n}"; };
        n->run = [=](State& s) {
          if (v == 0) { a->run(s); if (fall && !s.ended) b->run(s); }
          else if (v == 1) b->run(s);
        };
        break;
      }
      case 6: // try
      {
        b = stmt(depth - 1);
        bool th = c.coin();
        n->text = [=](bool r) { return "try\n{\n" + indent(a->text(r)) + "\n" + (th ? "  throw 1;\n" : "") + "}\ncatch (int)\n{\n" + indent(b->text(r)) + "\n}"; };
        n->run = [=](State& s) { a->run(s); if (th && !s.ended) b->run(s); };
        break;
      }
      case 7: // lambda
        n->text = [=](bool r) { return "[&]() { " + a->text(r) + " }();"; };
        n->run = [=](State& s) { a->run(s); };
        break;
      case 8: // label and block
        b = stmt(depth - 1);
        n->text = [=](bool r) { return "{\n" + indent("label" + std::to_string(id) + ": " + a->text(r)) + "\n" + indent(b->text(r)) + "\n}"; };
        n->run = [=](State& s) { a->run(s); if (!s.ended) b->run(s); };
        break;
      case 9: // if constexpr
      {
        b = stmt(depth - 1);
        n->text = [=](bool r) { return "if constexpr (" + std::string("sizeof(int) > 1") + ") " + sub(a, r, a->needs_brace) + "\nelse " + sub(b, r, false); };
        n->needs_brace = !br && b->needs_brace;
        n->run = [=](State& s) { a->run(s); };
        break;
      }
      case 10: // while
      {
        int k = c.draw(2);
        n->text = [=](bool r) { return "{ int n" + std::to_string(id) + " = " + std::to_string(k) + "; while (n" + std::to_string(id) + "--) " + sub(a, r, false) + " }"; };
        n->run = [=](State& s) { for (int i = 0; i < k && !s.ended; ++i) a->run(s); };
        break;
      }
      case 11: // range based for
      {
        int k = c.range(1, 3);
        n->text = [=](bool r) {
          std::string l;
          for (int i = 0; i < k; ++i) l += (i ? ", " : "") + std::to_string(i);
          return "for (int e" + std::to_string(id) + " : {" + l + "}) " + sub(a, r, false); };
        n->needs_brace = !br && a->needs_brace;
        n->run = [=](State& s) { for (int i = 0; i < k && !s.ended; ++i) a->run(s); };
        break;
      }
      case 13: // A scope that is entered.
        n->text = [=](bool r) { return "{\n" + indent(head->text(r) + "\n" + a->text(r)) + "\n}"; };
        n->run = [=](State& s) { head->run(s); s.indent += 2; a->run(s); s.indent -= 2; };
        break;
      default: // A sequence in the body of a local struct. Clang 18 sometimes gives two local structs of the same name one symbol.
      {
        b = stmt(depth - 1);
        n->text = [=](bool r) { return "{\n  struct S" + sid + " { void operator()() const { " + a->text(r) + " } ~S" + sid + "() { " + b->text(r) + " } } s; s();\n}"; };
        n->run = [=](State& s) { a->run(s); if (!s.ended) b->run(s); };
        locals = saved;
        break;
      }
    }
    return n;
  }

  // A statement that ends in a fatal one.
  NodePtr fatal_stmt(int depth)
  {
    if (depth == 0) return leaf_fatal();
    return compound(depth, [this, depth] { return fatal_stmt(depth - 1); }, true);
  }

  struct Fn { std::function<std::string(bool)> definition; std::string call; std::function<void(State&)> run; };

  Fn function(bool fatal)
  {
    int id = next++;
    std::string name = "f" + num(id);
    locals.clear();
    std::string decl;
    // Names that a debug statement might use for its own purposes.
    static char const* const names[] = {"on", "off", "os", "out", "label", "channel", "object", "tsd", "set", "stream", "debug_object", "channel_set", "result", "mask", "flags", "len", "debugChannel2", "start", "finish",
      "off_count", "indent", "margin", "marker", "wat", "lock", "str", "buf", "cntrl", "data", "state", "n", "i", "x", "_", "debugObject2"};
    std::set<std::string> have;
    for (int k = c.draw(4); k > 0; --k)
    {
      std::string v = c.chance(2, 5) ? std::string(c.pick(names)) : c.pick(macro_names());
      if (!have.insert(v).second) continue;
      switch (c.draw(3))
      {
        case 0: decl += "  int " + v + " = " + num(id) + ";\n"; locals.push_back({v, num(id)}); break;
        case 1: decl += "  bool " + v + " = false;\n"; locals.push_back({v, mode.debug ? "false" : "0"}); break;
        case 2: decl += "  std::string " + v + "(\"s, t\");\n"; locals.push_back({v, "s, t"}); break;
        case 3: decl += "  char const* " + v + " = \"p\";\n"; locals.push_back({v, "p"}); break;
      }
    }
    auto body = std::make_shared<std::vector<NodePtr>>();
    int k = c.range(1, 4);
    int form = c.draw(5);
    if (form == 5) { decl.clear(); locals.clear(); }
    for (int i = 0; i < k; ++i) body->push_back(stmt(3));
    if (fatal) body->push_back(fatal_stmt(c.range(0, 3)));
    auto text = [body, decl](bool r) {
      std::string s = decl;
      for (auto& b : *body) s += indent(b->text(r)) + "\n";
      return s;
    };
    Fn f;
    f.run = [body](State& s) { for (auto& b : *body) if (!s.ended) b->run(s); };
    switch (form)
    {
      case 0: case 5: f.definition = [=](bool r) { return "void " + name + "()\n{\n" + text(r) + "}\n"; }; f.call = name + "();"; break;
      case 1: f.definition = [=](bool r) { return "template<typename T>\nvoid " + name + "(T)\n{\n" + text(r) + "}\n"; }; f.call = name + "(1);"; break;
      case 2: f.definition = [=](bool r) { return "struct " + name + "\n{\nvoid m()\n{\n" + text(r) + "}\n};\n"; }; f.call = name + "().m();"; break;
      case 3: f.definition = [=](bool r) { return "struct " + name + "\n{\n" + name + "()\n{\n" + text(r) + "}\n};\n"; }; f.call = "{ " + name + " x; }"; break;
      case 4: f.definition = [=](bool r) { return "inline auto " + name + " = [](auto...)\n{\n" + text(r) + "};\n"; }; f.call = name + "(1, 2);"; break;
    }
    return f;
  }
};

} // namespace proggen
