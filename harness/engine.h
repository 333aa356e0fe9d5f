// Random debug output histories, an independent model of the debug output engine, and the code that runs the same history
// through the real macros of libcwd.
//
// A history is a tree of operations: an operand of a statement can contain operations (that is how statements nest). The
// history is generated while the model executes it, so that the generator always knows what is valid next; the model
// produces the expected event log. Then the real library executes the tree, with every destination replaced by a stream
// buffer that appends to one common event log: bytes written to a stream, flushes, evaluations of operands and results of
// queries, all in order. verify() compares both logs in the parent process, also when the history ends the process.
#pragma once
#include "sys.h"
#include "debug.h"
#include "pbt.h"
#include <condition_variable>
#include <deque>
#include <iomanip>
#include <mutex>
#include <optional>
#include <thread>

namespace eng {

using pbt::Case;
using pbt::quote;

//----------------------------------------------------------------------------------------------------------------------
// Histories.

struct Op;
using OpP = std::shared_ptr<Op>;
using Ops = std::vector<OpP>;

struct Item
{
  enum K { Text, Write, CStr, Char, Int, Bool, Dbl, Manip, Errno, Run, NullStr } k;
  std::string s;
  long long v = 0;
  int m = 0;
  double d = 0;
  Ops ops;
};

enum Manips { m_hex, m_dec, m_showbase, m_upper, m_left, m_noboolalpha, m_fixed, m_prec, m_fill, m_setw_int, m_showpos, m_count };

struct Op
{
  enum K
  {
    Stmt, ChanOn, ChanOff, ObjOn, ObjOff, ForceChan, ForceObj, ObjOffScope, Text, StackPush, StackPop, Indent, IndentScope,
    MarkScope, Entering, SetStream, AlwaysFlushOn, AlwaysFlushOff, NewChannel, Find, Iterate, List, OnThread, EndThread,
    Query, Fatal, ChanMisuse, RestoreChanMisuse, RestoreObjMisuse, PopMisuse, FinishMisuse, ContinuedMisuse, LabelMisuse, TooManyMisuse, NoMutexMisuse,
    InitThread
  } k;
  enum Form { normal, start_continued, continued, finish };
  int id = 0;
  int obj = 0, thr = 0;
  Form form = normal;
  bool always = false;           // dc::always comes first.
  std::vector<int> ch;           // Indexes of channels.
  unsigned fl1 = 0, fl2 = 0;     // Flags in front of and behind continued_cf.
  bool plain = false;            // No flags were written in the source code.
  bool dout = false;             // Use the macros for the default debug object.
  bool core = false, in_dout = false; // Fatal: dc::core; dc::fatal behind ordinary channels in an ordinary statement.
  int err = 0;
  std::vector<std::vector<Item>> operands;
  int which = 0;                 // Text: margin, marker, color_on, color_off. Stack: margin, marker.
  int how = 0;                   // Text: assign, append, prepend, reserve. Indent: set, inc, dec. SetStream: with a mutex.
  bool as_string = false;        // Text: pass a std::string.
  int self = -1;                 // Text: pass a part of the text itself that starts here.
  std::string s;
  int n = 0;
  Ops ops;
};

//----------------------------------------------------------------------------------------------------------------------
// The event log: a byte string of records  type(1) stream(1) length(4) bytes.

inline void put_event(std::string& log, char type, int sid, std::string const& s)
{
  log += type;
  log += (char)sid;
  uint32_t n = s.size();
  log.append((char const*)&n, 4);
  log += s;
}

struct Ev
{
  char type;
  int sid;
  std::string s;
  bool operator==(Ev const& o) const { return type == o.type && sid == o.sid && s == o.s; }
  std::string str() const
  {
    switch (type)
    {
      case 'W': return "write(" + std::to_string(sid) + ") " + quote(s);
      case 'F': return "flush(" + std::to_string(sid) + ")";
      default: return "trace " + quote(s);
    }
  }
};

// Merges writes to the same stream and flushes that follow one another.
inline std::vector<Ev> parse_log(std::string const& log, bool with_flush = true)
{
  std::vector<Ev> r;
  for (size_t p = 0; p + 6 <= log.size();)
  {
    Ev e;
    e.type = log[p];
    e.sid = (unsigned char)log[p + 1];
    uint32_t n;
    memcpy(&n, log.data() + p + 2, 4);
    e.s = log.substr(p + 6, n);
    p += 6 + n;
    if ((e.type == 'W' && e.s.empty()) || (e.type == 'F' && !with_flush))
      continue;
    if (!r.empty() && r.back().type == e.type && r.back().sid == e.sid && e.type != 'T')
    {
      if (e.type == 'W')
        r.back().s += e.s;
      continue;
    }
    r.push_back(e);
  }
  return r;
}

inline constexpr int cerr_sid = 200;
inline char const* const text_names[] = {"margin", "marker", "color_on", "color_off"};

// libcwd's flags.
inline unsigned const all_flags[] = {libcwd::nonewline_cf, libcwd::noprefix_cf, libcwd::nolabel_cf, libcwd::blank_margin_cf,
    libcwd::blank_label_cf, libcwd::blank_marker_cf, libcwd::cerr_cf, libcwd::flush_cf, libcwd::wait_cf, libcwd::error_cf};
inline char const* const flag_names[] = {"nonewline_cf", "noprefix_cf", "nolabel_cf", "blank_margin_cf", "blank_label_cf",
    "blank_marker_cf", "cerr_cf", "flush_cf", "wait_cf", "error_cf"};

//----------------------------------------------------------------------------------------------------------------------
// Items are inserted into any ostream: the model's and libcwd's.

template<class RunOps>
void insert_item(std::ostream& os, Item const& it, RunOps&& run)
{
  switch (it.k)
  {
    case Item::Text: os << it.s; break;
    case Item::Write: os.write(it.s.data(), it.s.size()); break;
    case Item::CStr: os << it.s.c_str(); break;
    case Item::Char: os << (char)it.v; break;
    case Item::Int: os << it.v; break;
    case Item::Bool: os << (bool)it.v; break;
    case Item::Dbl: os << it.d; break;
    case Item::Manip:
      switch (it.m)
      {
        case m_hex: os << std::hex; break;
        case m_dec: os << std::dec; break;
        case m_showbase: os << std::showbase; break;
        case m_upper: os << std::uppercase; break;
        case m_left: os << std::left; break;
        case m_noboolalpha: os << std::noboolalpha; break;
        case m_fixed: os << std::fixed; break;
        case m_prec: os << std::setprecision(it.v); break;
        case m_fill: os << std::setfill('*'); break;
        case m_setw_int: os << std::setw(it.v) << 7; os.width(0); break;
        case m_showpos: os << std::showpos; break;
      }
      break;
    case Item::Errno: errno = it.v; break;
    case Item::Run: run(it.ops); break;
    case Item::NullStr: os << (char const*)nullptr; break;
  }
}

//----------------------------------------------------------------------------------------------------------------------
// The model.

struct Frame
{
  unsigned mask = 0;              // Flags.
  bool cont = false;              // Started with continued_cf.
  std::string label;
  int err = 0;
  std::ostringstream os;          // The text that was not written yet.
  std::string prefix;             // What the line starts with.
  bool resumed = false;           // Unused text starts with "<continued> ".
  bool marked = false;            // The last thing written for this message ended its line.
  bool resume_needed = false;     // Another thread marked this message as unfinished.
  bool indented = false;          // Nested output is being indented because of this message.
};

struct ThreadObj
{
  int off = 0;
  std::string text[4] = {"", ": ", "", ""};
  std::vector<std::string> stack[2];
  int indent = 0;
  std::vector<std::shared_ptr<Frame>> frames; // Open messages, innermost last.
  bool mark_expected = false;     // An interruption marks the innermost message as unfinished.
  std::vector<bool> scopes;       // Open continued messages, innermost last; false when it is switched off.
};

struct ThreadState
{
  std::map<int, int> off;         // Channel counts (0: off, -1: on).
  std::map<int, ThreadObj> obj;
};

struct SharedObj
{
  int sid = cerr_sid;
  int always_flush = 0;
  int newlineless = -1;           // The thread that left the last line without a newline.
  std::string newlineless_color_off;
  Frame* unfinished = nullptr;    // The continued message that the last line belongs to.
};

struct Model
{
  std::vector<std::string> labels; // By channel index, in order of creation.
  std::set<int> hidden;            // The channels that are not in the registry.
  size_t width = 8;
  std::map<int, ThreadState> threads;
  std::map<int, SharedObj> shared;
  std::map<int, bool> multi;
  std::string log;
  size_t cin_lines = 0;
  int nstmt_on = 0, nstmt_off = 0, ninterrupt = 0, nnested = 0, nresumed = 0, nevaluated = 0, nflagged = 0, nerror = 0, nflush = 0,
      nnoflush = 0;
  std::set<int> writers, sids;
  std::vector<std::string> tokens; // Every token must end up in the output exactly once.
  bool dead = false;

  ThreadObj& to(int thr, int obj) { return threads[thr].obj[obj]; }
  int& chan(int thr, int ch) { return threads[thr].off[ch]; }

  void write(int sid, std::string const& s) { put_event(log, 'W', sid, s); }
  void flush(int sid) { put_event(log, 'F', sid, ""); }
  void trace(std::string const& s) { put_event(log, 'T', 0, s); }

  int add_channel(std::string const& label)
  {
    labels.push_back(label);
    width = std::max(width, label.size());
    return labels.size() - 1;
  }
  std::string padded(std::string const& l) const { return l + std::string(width - l.size(), ' '); }

  // The registry's order.
  std::vector<int> sorted() const
  {
    std::vector<int> r(labels.size());
    for (size_t i = 0; i < r.size(); ++i) r[i] = i;
    std::erase_if(r, [&](int i) { return hidden.count(i) > 0; });
    std::stable_sort(r.begin(), r.end(), [&](int a, int b) { return padded(labels[a]) < padded(labels[b]); });
    return r;
  }
  int find(std::string const& p) const
  {
    int res = -1;
    for (int i : sorted())
      if (strncasecmp(p.c_str(), padded(labels[i]).c_str(), p.size()) == 0)
        res = i;
    return res;
  }

  // Write what is pending of a message.
  void emit(int thr, int obj, Frame& f, std::string text, bool request_unfinished, bool do_flush, bool ends_line,
            bool maybe_nonewline, unsigned mask)
  {
    SharedObj& so = shared[obj];
    ThreadObj& t = to(thr, obj);
    int sid = (mask & libcwd::cerr_cf) ? cerr_sid : so.sid;
    std::string out;
    if (so.newlineless != -1 && so.newlineless != thr)
    {
      out += so.newlineless_color_off;
      if (so.unfinished)
      {
        if (so.unfinished != &f)
        {
          out += "<unfinished>\n";
          so.unfinished->marked = true;
          so.unfinished->resume_needed = true;
        }
      }
      else
        out += "<no newline>\n";
    }
    if (f.resume_needed && !text.empty())
    {
      f.resume_needed = false;
      ++nresumed;
      out += f.prefix + t.text[3] + "<continued>" + t.text[2] + " ";
      f.marked = false;
    }
    out += text;
    if (request_unfinished && !f.marked)
      out += t.text[3] + "<unfinished>\n";
    write(sid, out);
    writers.insert(thr);
    sids.insert(sid);
    ++(do_flush ? nflush : nnoflush);
    if (do_flush)
      flush(sid);
    f.marked = ends_line;
    if (ends_line)
    {
      so.newlineless = -1;
      so.unfinished = nullptr;
    }
    else if (!text.empty())
    {
      so.newlineless = thr;
      so.newlineless_color_off = t.text[3];
      so.unfinished = maybe_nonewline ? nullptr : &f;
    }
  }

  static std::string take(Frame& f)
  {
    std::string s = f.os.str();
    f.os.str("");
    return s;
  }

  std::string make_prefix(ThreadObj const& t, unsigned mask, std::string const& label) const
  {
    std::string p = t.text[2];
    if (!(mask & libcwd::noprefix_cf))
    {
      p += (mask & libcwd::blank_margin_cf) ? std::string(t.text[0].size(), ' ') : t.text[0];
      if (!(mask & libcwd::nolabel_cf))
      {
        p += (mask & libcwd::blank_label_cf) ? std::string(width, ' ') : label;
        p += (mask & libcwd::blank_marker_cf) ? std::string(t.text[1].size(), ' ') : t.text[1];
        p += std::string(t.indent, ' ');
      }
    }
    return p;
  }

  // A statement starts a message.
  Frame& start(int thr, int obj, unsigned mask, bool cont, std::string const& label, int err)
  {
    ThreadObj& t = to(thr, obj);
    if (!t.frames.empty())
    {
      Frame& outer = *t.frames.back();
      ++nnested;
      if (outer.cont && t.mark_expected)
      {
        ++ninterrupt;
        outer.os.clear();
        emit(thr, obj, outer, take(outer), true, false, true, false, outer.mask);
        outer.resume_needed = false;
        outer.os << outer.prefix << t.text[3] << "<continued>" << t.text[2] << ' ';
        outer.resumed = true;
        outer.marked = false;
      }
      if (!outer.indented)
      {
        outer.indented = true;
        t.indent += 4;
      }
      mask |= outer.mask & libcwd::cerr_cf;
    }
    auto f = std::make_shared<Frame>();
    f->mask = mask;
    f->cont = cont;
    f->label = label;
    f->err = err;
    f->prefix = make_prefix(t, mask, label);
    f->os << f->prefix;
    t.frames.push_back(f);
    t.mark_expected = true;
    return *f;
  }

  // The statement ends. Returns false when the message continues.
  bool finish(int thr, int obj, bool message_ends, bool fatal = false)
  {
    ThreadObj& t = to(thr, obj);
    SharedObj& so = shared[obj];
    Frame& f = *t.frames.back();
    bool fl = so.always_flush > 0 || (f.mask & libcwd::flush_cf);
    f.os.clear();
    if (!message_ends)
    {
      t.mark_expected = true;
      if (fl)
        emit(thr, obj, f, take(f), false, true, false, false, f.mask);
      return false;
    }
    if (f.mask || t.indent || !t.text[0].empty() || t.text[1] != ": ")
      ++nflagged;
    if (f.mask & libcwd::error_cf)
    {
      ++nerror;
      char buf[512];
      char const* name = strerrorname_np(f.err);
      f.os << ": " << (f.err == 0 ? "0" : name ? name : "UNKNOWN ERROR") << " (" << strerror_r(f.err, buf, sizeof buf) << ')';
    }
    bool nl = !(f.mask & libcwd::nonewline_cf);
    if (nl)
      f.os << t.text[3] << '\n';
    if (fatal)
    {
      emit(thr, obj, f, take(f), false, true, nl, true, f.mask);
      dead = true;
      return true;
    }
    if (f.mask & libcwd::wait_cf)
    {
      emit(thr, obj, f, take(f), false, true, nl, true, f.mask);
      int sid = (f.mask & libcwd::cerr_cf) ? cerr_sid : so.sid;
      write(sid, "(type return)");
      flush(sid);
      ++cin_lines;
    }
    else
      emit(thr, obj, f, take(f), false, fl, nl, true, f.mask);
    if (f.indented)
      t.indent = std::max(0, t.indent - 4);
    if (so.unfinished == &f)
      so.unfinished = nullptr;
    t.frames.pop_back();
    t.mark_expected = false;
    if (!t.frames.empty() && fl)
      t.frames.back()->mask |= libcwd::flush_cf;
    return true;
  }
};

//----------------------------------------------------------------------------------------------------------------------
// The generator; it drives the model.

struct Profile
{
  // Weights of the operations.
  int stmt = 60, chan = 10, obj = 4, force = 4, text = 6, stack = 4, indent = 4, scopes = 4, stream = 2, always_flush = 2,
      new_channel = 1, query = 3, registry = 2, on_thread = 0, end_thread = 0, continued = 16, nested = 30;
  int objects = 1;                // Number of debug objects.
  int threads = 1;
  int channels = 4;               // Channels to create beforehand, at most.
  int nflags = 30;                // Percentage of statements with flags.
  int error_bias = 0, flush_bias = 0, cerr_bias = 0; // Percentage of those that have this flag anyway.
  int errno_items = 2;            // Weight of operands that change errno.
  bool error_cf = true, wait_cf = true, cerr_cf = true, nonewline_cf = true, flush_cf = true;
  int colors = 20;                // Percentage of histories with colors.
  int odd_text = 10;              // Percentage of texts with arbitrary bytes.
  int items = 4;
  int null_str = 0;               // Weight of operands that fail.
  int fatal = 0;                  // Percentage of histories that end in a fatal statement.
  int misuse = 0;                 // Percentage of histories that end in a misuse.
  int budget = 60;
  int more_threads = 0;           // Percentage of histories with a second thread (with `threads' equal to 1).
  int chan_on = 65;               // Percentage of the time that a channel is switched towards on.
};

// How the process must end.
struct Ending
{
  enum K { returns, exits, aborts } k = returns;
  int status = 0;
  std::vector<int> flushed;       // The streams that must have been flushed.
  bool prefix_only = false;       // The log may continue behind what is expected (it must contain `text').
  std::string text;
};

struct Gen
{
  Case& c;
  Profile const& p;
  Model& m;
  int next_id = 0;
  int next_token = 0;
  int budget;
  bool use_colors;
  int max_thread = 0;
  std::vector<int> alive{0};
  std::vector<int> chain{0};      // Threads that are executing, innermost last.
  std::map<std::pair<int, int>, int> group_depth; // Open continued messages or scopes for (thread, object).
  std::map<std::pair<int, int>, int> forced;      // Open force_on scopes for (thread, object).
  std::map<std::pair<int, int>, int> forced_chan;
  int terminal = 0;               // 0: none, 1: fatal, 2: misuse.
  bool terminal_nested = false;   // The program may end inside other things.
  size_t fatal_depth = 0;
  int nswitch = 0, nedit = 0, nended = 0, nerrno = 0, nregistry = 0;
  Ending ending;

  Gen(Case& c_, Profile const& p_, Model& m_) : c(c_), p(p_), m(m_), budget(5 + p_.budget * c_.size / 100)
  {
    use_colors = c.chance(p.colors, 100);
    if (c.chance(p.fatal, 100))
      terminal = 1;
    else if (c.chance(p.misuse, 100))
      terminal = 2;
    terminal_nested = terminal && c.chance(2, 3);
  }

  int thr() const { return chain.back(); }

  std::string token() { return "{" + std::to_string(next_token++) + "}"; }

  Item gen_item(bool live, int depth, int obj)
  {
    Item it;
    switch (c.weighted({8, 2, 1, 1, 3, 2, 1, 3, p.errno_items, depth < 5 && budget > 0 ? p.nested / 5 + 1 : 0, p.null_str}))
    {
      case 10:
        it.k = Item::NullStr;
        break;
      case 0:
        it.k = Item::Text;
        it.s = token();
        if (live) m.tokens.push_back(it.s);
        if (c.chance(p.odd_text, 100))
          it.s = odd_bytes() + it.s + odd_bytes();
        else if (c.chance(1, 40))
          it.s += std::string(c.range(1, 3) * 400 + c.draw(200), 'x');
        break;
      case 1:
        it.k = Item::Write;
        it.s = token();
        if (live) m.tokens.push_back(it.s);
        if (c.chance(p.odd_text, 100))
          it.s += odd_bytes();
        break;
      case 2:
        it.k = Item::CStr;
        it.s = c.coin() ? "" : "s";
        break;
      case 3:
        it.k = Item::Char;
        it.v = c.chance(p.odd_text, 100) ? c.draw(255) : 'c';
        break;
      case 4:
        it.k = Item::Int;
        it.v = c.chance(1, 8) ? (long long)c.draw(~0ULL) : c.range(-9, 200);
        break;
      case 5:
        it.k = Item::Bool;
        it.v = c.draw(1);
        break;
      case 6:
        it.k = Item::Dbl;
        it.d = c.range(-1000, 1000) / 8.0;
        break;
      case 7:
        it.k = Item::Manip;
        it.m = c.draw(m_count - 1);
        it.v = c.range(0, 12);
        break;
      case 8:
        it.k = Item::Errno;
        ++nerrno;
        it.v = gen_errno();
        break;
      case 9:
        it.k = Item::Run;
        if (live)
        {
          size_t n = c.small(1, 4);
          while (n--)
            if (budget > 0 && !m.dead)
              if (auto o = gen_op(depth + 1, obj))
                it.ops.push_back(o);
        }
        else
          it.ops.push_back(dummy_stmt(obj));
        break;
    }
    return it;
  }
  std::string odd_bytes()
  {
    static char const* const odd[] = {"\n", "<unfinished>\n", "<continued> ", "\\", "%s%n", "\r\n\t", "\x1b[0m", ": ", "\xff\xfe"};
    std::string s;
    for (int n = c.small(0, 3); n > 0; --n)
      if (c.coin())
        s += c.pick(odd);
      else
      {
        char ch = (char)c.draw(255);
        s += ch == '{' ? '[' : ch; // Keep tokens unique.
      }
    return s;
  }
  int gen_errno() { static int const e[] = {0, EPERM, ENOENT, EINTR, EAGAIN, ENOMEM, EINVAL, ERANGE, EDEADLK, ECANCELED, EHWPOISON, ENOTSUP,
                          134, 135, 1000, 65536, INT_MAX, -1, -2, INT_MIN};
    if (c.chance(1, 3))
    {
      int any = c.draw(133);
      // Two numbers exist that were never used for an error, but have an old name in some headers.
      return any == 41 || any == 58 ? 40 : any;
    }
    return c.pick(e);
  }

  OpP op(Op::K k, int obj)
  {
    auto o = std::make_shared<Op>();
    o->k = k;
    o->id = next_id++;
    o->obj = obj;
    o->thr = thr();
    return o;
  }

  // A statement that is part of an operand that must not be evaluated.
  OpP dummy_stmt(int obj)
  {
    auto o = op(Op::Stmt, obj);
    o->always = true;
    o->operands = {{Item{Item::Text, "NOT EVALUATED"}}};
    return o;
  }

  void gen_operands(OpP o, bool live, int depth, Frame* f, int n = 0)
  {
    if (!n)
      n = 1 + c.draw(2);
    for (int i = 0; i < n; ++i)
    {
      if (live)
        evaluated(o, i);
      o->operands.emplace_back();
      int k = c.small(i ? 0 : 1, p.items);
      for (int j = 0; j < k; ++j)
      {
        Item it = gen_item(live, depth, o->obj);
        if (m.dead)
        {
          o->operands.back().push_back(std::move(it));
          return;
        }
        if (live && f && it.k != Item::Run && it.k != Item::Errno)
          insert_item(f->os, it, [](Ops const&) {});
        o->operands.back().push_back(std::move(it));
      }
    }
  }
  void evaluated(OpP const& o, int i)
  {
    ++m.nevaluated;
    m.trace("eval " + std::to_string(o->id) + "." + std::to_string(i) + (i ? "" : " errno " + std::to_string(o->err)));
  }

  unsigned gen_flags(bool for_continued)
  {
    unsigned fl = 0;
    if (!c.chance(p.nflags, 100))
      return 0;
    if (c.chance(p.error_bias, 100)) fl |= libcwd::error_cf;
    if (c.chance(p.flush_bias, 100)) fl |= libcwd::flush_cf;
    if (c.chance(p.cerr_bias, 100)) fl |= libcwd::cerr_cf;
    for (int n = 1 + c.small(0, 3); n > 0; --n)
    {
      unsigned f = c.pick(all_flags);
      if ((f == libcwd::error_cf && !p.error_cf) || (f == libcwd::wait_cf && !p.wait_cf) || (f == libcwd::cerr_cf && !p.cerr_cf) ||
          (f == libcwd::nonewline_cf && !p.nonewline_cf) || (f == libcwd::flush_cf && !p.flush_cf))
        continue;
      fl |= f;
    }
    (void)for_continued;
    return fl;
  }

  // Chooses channels; returns whether the statement is on and which label it gets.
  bool gen_channels(OpP o, std::string& label)
  {
    o->always = c.chance(1, 8);
    int n = o->always ? c.draw(1) : 1 + c.small(0, 2);
    bool on = o->always;
    if (on)
      label = std::string(m.width, '>');
    for (int i = 0; i < n; ++i)
    {
      int ch = c.draw(m.labels.size() - 1);
      o->ch.push_back(ch);
      if (!on && m.chan(thr(), ch) < 0)
      {
        on = true;
        label = m.padded(m.labels[ch]);
      }
    }
    return on;
  }

  OpP gen_stmt(int depth, int obj)
  {
    auto o = op(Op::Stmt, obj);
    std::string label;
    bool on = gen_channels(o, label) && m.to(thr(), obj).off < 0;
    o->fl1 = gen_flags(false);
    o->plain = !o->fl1 && c.coin();
    o->dout = obj == 0 && c.coin();
    o->err = gen_errno();
    run_stmt(o, on, label, depth, false);
    return o;
  }

  void run_stmt(OpP o, bool on, std::string const& label, int depth, bool cont)
  {
    if (!on)
    {
      ++m.nstmt_off;
      gen_operands(o, false, depth, nullptr);
      m.trace("suppressed " + std::to_string(o->id) + " errno " + std::to_string(o->err));
      return;
    }
    ++m.nstmt_on;
    Frame& f = m.start(thr(), o->obj, o->fl1 | o->fl2, cont, label, o->err);
    f.os << std::boolalpha;
    gen_operands(o, true, depth, &f);
    if (m.dead)
      return;
    m.finish(thr(), o->obj, !cont);
  }

  // A continued message with what happens between its parts.
  void gen_continued(Ops& out, int depth, int obj)
  {
    auto key = std::make_pair(thr(), obj);
    auto o = op(Op::Stmt, obj);
    out.push_back(o);
    std::string label;
    bool obj_on = m.to(thr(), obj).off < 0;
    bool on = gen_channels(o, label);
    o->form = Op::start_continued;
    o->fl1 = gen_flags(true);
    o->plain = !o->fl1 && c.coin();
    if (c.chance(1, 4))
      o->fl2 = gen_flags(true);
    o->dout = obj == 0 && c.coin();
    o->err = gen_errno();
    ++group_depth[key];
    if (obj_on)
      m.to(thr(), obj).scopes.push_back(on);
    run_stmt(o, obj_on && on, label, depth, true);
    int parts = c.small(0, 5);
    for (int i = 0; !m.dead && i <= parts; ++i)
    {
      for (int n = c.small(0, 2); !m.dead && n > 0 && budget > 0; --n)
        if (auto q = gen_op(depth + 1, obj))
          out.push_back(q);
      if (m.dead)
        break;
      auto q = op(Op::Stmt, obj);
      out.push_back(q);
      q->form = i == parts ? Op::finish : Op::continued;
      q->fl2 = c.chance(1, 3) ? gen_flags(true) : 0;
      q->dout = obj == 0 && c.coin();
      q->err = gen_errno();
      bool live = obj_on && on;
      if (q->form == Op::finish && obj_on)
        m.to(thr(), obj).scopes.pop_back(); // Before the operands are evaluated.
      if (!live)
      {
        ++m.nstmt_off;
        gen_operands(q, false, depth, nullptr);
        m.trace("suppressed " + std::to_string(q->id) + " errno " + std::to_string(q->err));
      }
      else
      {
        ++m.nstmt_on;
        Frame& f = *m.to(thr(), obj).frames.back();
        f.mask |= q->fl2;
        f.err = q->err;
        f.os << std::boolalpha;
        gen_operands(q, true, depth, &f);
        if (m.dead)
          break;
        m.finish(thr(), obj, q->form == Op::finish);
      }
    }
    --group_depth[key];
  }

  OpP wrap(Ops ops)
  {
    if (ops.size() == 1)
      return ops[0];
    auto o = op(Op::OnThread, 0);
    o->n = thr();
    o->ops = std::move(ops);
    return o;
  }

  void gen_block(Ops& out, int depth, int obj, int max)
  {
    for (int n = c.small(0, max); !m.dead && n > 0 && budget > 0; --n)
      if (auto q = gen_op(depth, obj))
        out.push_back(q);
  }

  std::string gen_text()
  {
    std::string s;
    switch (c.weighted({4, 3, 2, 1, 1}))
    {
      case 0: s = std::string(c.range(0, 4), '*'); break;
      case 1: s = c.pick(std::vector<std::string>{": ", "| ", "[margin] ", "> ", "\t", " "}); break;
      case 2: for (int n = c.small(0, 12); n > 0; --n) s += (char)c.range(33, 122); break;
      case 3: s = std::string(c.range(55, 75), 'm'); break;
      case 4: s = std::string(c.range(1, 3) * 100 + c.draw(40), 'M'); break;
    }
    if (c.chance(p.odd_text, 100))
      s += odd_bytes();
    return s;
  }

  // The statement that ends the program.
  OpP gen_terminal(int depth, int obj)
  {
    int t = thr();
    if (terminal == 1)
    {
      auto o = op(Op::Fatal, obj);
      o->core = c.chance(1, 3);
      o->in_dout = m.to(t, obj).off < 0 && c.chance(1, 3);
      o->fl1 = gen_flags(false);
      o->dout = obj == 0 && c.coin();
      o->err = gen_errno();
      std::string label = m.padded(o->core ? "COREDUMP" : "FATAL");
      if (o->in_dout)
      {
        o->ch.push_back(c.draw(m.labels.size() - 1));
        if (m.chan(t, o->ch[0]) < 0)
          label = m.padded(m.labels[o->ch[0]]);
      }
      ending.k = o->core ? Ending::aborts : Ending::exits;
      ending.status = o->core ? 0 : 180;
      fatal_depth = m.to(t, obj).frames.size();
      Frame& f = m.start(t, obj, o->fl1, false, label, o->err);
      f.os << std::boolalpha;
      gen_operands(o, true, depth, &f, 1);
      if (!m.dead)
      {
        // Everything that was written to the stream of this debug object must survive.
        ending.flushed.push_back(m.shared[obj].sid);
        if (f.mask & libcwd::cerr_cf)
          ending.flushed.push_back(cerr_sid);
      }
      if (!m.dead)
        m.finish(t, obj, true, true);
      return o;
    }
    ending.k = Ending::aborts;
    ending.prefix_only = true;
    OpP o;
    switch (c.weighted({4, 4, 4, 4, 4, 4, 4, 1, 1, p.threads == 1 && !p.stream ? 2 : 0}))
    {
      case 0:
      {
        o = op(Op::ChanMisuse, obj);
        o->n = c.draw(m.labels.size() - 1);
        while (m.chan(t, o->n) > -1)
        {
          auto q = op(Op::ChanOn, obj);
          q->n = o->n;
          m.chan(t, o->n) -= 1;
          m.trace("is_on " + std::to_string(m.chan(t, o->n) < 0));
          o->ops.push_back(q);
        }
        ending.text = "COREDUMP";
        break;
      }
      case 1:
        o = op(Op::RestoreChanMisuse, obj);
        o->n = c.draw(m.labels.size() - 1);
        o->how = 1 + c.small(0, 4);
        break;
      case 2:
        o = op(Op::RestoreObjMisuse, obj);
        o->how = c.coin() ? -1 : 1 + c.small(0, 4);
        break;
      case 3:
        o = op(Op::PopMisuse, obj);
        o->which = c.draw(1);
        for (size_t i = m.to(t, obj).stack[o->which].size(); i > 0; --i)
        {
          auto q = op(Op::StackPop, obj);
          q->which = o->which;
          o->ops.push_back(q);
        }
        ending.text = "COREDUMP";
        break;
      case 4:
      case 5:
        // Without a message to be continued.
      {
        ThreadObj& x = m.to(t, obj);
        if (x.off > -1 || (!x.scopes.empty() && !x.scopes.back()))
          return nullptr;
        if (x.frames.empty() ? group_depth[std::make_pair(t, obj)] > 0 : x.frames.back()->cont)
          return nullptr;
      }
        o = op(c.coin() ? Op::FinishMisuse : Op::ContinuedMisuse, obj);
        ending.text = "COREDUMP";
        break;
      case 6:
        o = op(Op::LabelMisuse, obj);
        o->s = std::string(17 + c.small(0, 20), 'L');
        ending.text = "COREDUMP";
        break;
      case 7:
      case 8:
        // More channels, or debug objects, than are supported.
        o = op(Op::TooManyMisuse, obj);
        o->which = c.draw(1);
        ending.text = "COREDUMP";
        break;
      case 9:
        // Output by a second thread to a stream without mutex.
        o = op(Op::NoMutexMisuse, obj);
        ending.text = "COREDUMP";
        break;
    }
    m.dead = true;
    return o;
  }

  OpP gen_op(int depth, int cur_obj)
  {
    if (terminal && terminal_nested && c.chance(1, 12))
      if (auto o = gen_terminal(depth, cur_obj))
        return o;
    --budget;
    int obj = p.objects > 1 && c.chance(1, 3) ? c.draw(p.objects - 1) : cur_obj;
    int t = thr();
    ThreadObj& to = m.to(t, obj);
    auto key = std::make_pair(t, obj);
    bool deep = depth > 5;
    switch (c.weighted({p.stmt, p.chan, p.obj, deep ? 0 : p.force, p.text, p.stack, p.indent, deep ? 0 : p.scopes, p.stream,
                        p.always_flush, p.new_channel, p.query, p.registry, p.on_thread, p.end_thread, deep ? 0 : p.continued}))
    {
      case 0: return gen_stmt(depth, obj);
      case 1:
      {
        int ch = c.draw(m.labels.size() - 1);
        bool on = m.chan(t, ch) > -1 && c.chance(p.chan_on, 100);
        auto o = op(on ? Op::ChanOn : Op::ChanOff, obj);
        o->n = ch;
        m.chan(t, ch) += on ? -1 : 1;
        ++nswitch;
        m.trace("is_on " + std::to_string(m.chan(t, ch) < 0));
        return o;
      }
      case 2:
      {
        if (group_depth[key] || forced[key])
        {
          // Balanced.
          auto o = op(Op::ObjOffScope, obj);
          ++to.off;
          ++forced[key];
          gen_block(o->ops, depth + 1, obj, 3);
          --forced[key];
          if (!m.dead)
            --to.off;
          return o;
        }
        bool on = to.off > -1 && c.chance(80, 100);
        auto o = op(on ? Op::ObjOn : Op::ObjOff, obj);
        to.off += on ? -1 : 1;
        ++nswitch;
        return o;
      }
      case 3:
      {
        if (c.chance(2, 3))
        {
          auto o = op(Op::ForceChan, obj);
          int ch = o->n = c.draw(m.labels.size() - 1);
          int saved = m.chan(t, ch);
          nswitch += 2;
          m.chan(t, ch) = -1;
          gen_block(o->ops, depth + 1, obj, 4);
          if (m.dead)
            return o;
          while (m.chan(t, ch) > -1)
          {
            auto q = op(Op::ChanOn, obj);
            q->n = ch;
            m.chan(t, ch) -= 1;
            m.trace("is_on " + std::to_string(m.chan(t, ch) < 0));
            o->ops.push_back(q);
          }
          m.chan(t, ch) = saved;
          return o;
        }
        if (group_depth[key])
          return nullptr; // The object could have been off at the start of the message.
        auto o = op(Op::ForceObj, obj);
        int saved = to.off;
        nswitch += 2;
        to.off = -1;
        ++forced[key];
        gen_block(o->ops, depth + 1, obj, 4);
        --forced[key];
        if (!m.dead)
          to.off = saved;
        return o;
      }
      case 4:
      {
        auto o = op(Op::Text, obj);
        o->which = use_colors ? c.draw(3) : c.draw(1);
        o->how = c.weighted({4, 2, 2, 1});
        o->as_string = c.coin();
        std::string& x = to.text[o->which];
        ++nedit;
        if (o->how == 3)
          o->n = c.small(0, 300);
        else if (c.chance(1, 6))
        {
          // Part of the text itself.
          o->self = c.draw(x.size());
          o->s = x.substr(o->self, c.draw(x.size() - o->self));
        }
        else
          o->s = gen_text();
        if (x.size() + o->s.size() > 1000 && o->how && o->how != 3)
          o->how = 0;
        switch (o->how)
        {
          case 0: x = o->s; break;
          case 1: x += o->s; break;
          case 2: x = o->s + x; break;
        }
        return o;
      }
      case 5:
      {
        int w = c.draw(1);
        bool push = to.stack[w].empty() || c.coin();
        auto o = op(push ? Op::StackPush : Op::StackPop, obj);
        ++nedit;
        o->which = w;
        if (push)
          to.stack[w].push_back(to.text[w]);
        else
        {
          to.text[w] = to.stack[w].back();
          to.stack[w].pop_back();
        }
        return o;
      }
      case 6:
      {
        auto o = op(Op::Indent, obj);
        ++nedit;
        o->how = c.draw(2);
        o->n = c.small(0, 12);
        if (to.indent > 100)
          o->how = 0;
        to.indent = o->how == 0 ? o->n : o->how == 1 ? to.indent + o->n : std::max(0, to.indent - o->n);
        m.trace("indent " + std::to_string(to.indent));
        return o;
      }
      case 7:
      {
        obj = 0; // These work on the default debug object only.
        ThreadObj& d = m.to(t, 0);
        switch (c.draw(2))
        {
          case 0:
          {
            auto o = op(Op::IndentScope, 0);
            o->n = c.small(0, 8);
            d.indent += o->n;
            gen_block(o->ops, depth + 1, 0, 3);
            if (!m.dead)
              d.indent = std::max(0, d.indent - o->n);
            return o;
          }
          case 1:
          {
            auto o = op(Op::MarkScope, 0);
            o->how = c.draw(2); // Default, a character or a string.
            std::string mk = o->how == 0 ? "|" : o->how == 1 ? "+" : "\xe2\x94\x82";
            o->s = mk;
            int saved = d.indent;
            d.stack[1].push_back(d.text[1]);
            d.text[1] += std::string(d.indent, ' ') + mk + " ";
            d.indent = 0;
            size_t level = d.stack[1].size();
            gen_block(o->ops, depth + 1, 0, 3);
            if (m.dead)
              return o;
            // Keep pushes and pops inside the scope balanced.
            while (d.stack[1].size() > level)
            {
              auto q = op(Op::StackPop, 0);
              q->which = 1;
              d.text[1] = d.stack[1].back();
              d.stack[1].pop_back();
              o->ops.push_back(q);
            }
            while (d.stack[1].size() < level)
            {
              auto q = op(Op::StackPush, 0);
              q->which = 1;
              d.stack[1].push_back(d.text[1]);
              o->ops.push_back(q);
            }
            d.text[1] = d.stack[1].back();
            d.stack[1].pop_back();
            d.indent += saved;
            return o;
          }
          default:
          {
            auto o = op(Op::Entering, 0);
            std::string label;
            bool on = gen_channels(o, label) && d.off < 0;
            o->fl1 = gen_flags(false);
            o->err = gen_errno();
            if (on)
            {
              ++m.nstmt_on;
              Frame& f = m.start(t, 0, o->fl1, false, label, o->err);
              f.os << std::boolalpha << "Entering ";
              gen_operands(o, true, depth, &f);
              if (m.dead)
                return o;
              m.finish(t, 0, true);
            }
            else
            {
              ++m.nstmt_off;
              gen_operands(o, false, depth, nullptr);
            }
            d.indent += 2;
            gen_block(o->ops, depth + 1, 0, 3);
            if (!m.dead)
              d.indent = std::max(0, d.indent - 2);
            return o;
          }
        }
      }
      case 8:
      {
        auto o = op(Op::SetStream, obj);
        o->n = c.draw(p.objects); // One more stream than objects.
        if (c.chance(1, 12))
          o->n = cerr_sid;
        o->how = p.threads > 1 ? 1 : c.draw(1);
        m.shared[obj].sid = o->n;
        m.trace("stream " + std::to_string(o->n));
        return o;
      }
      case 9:
      {
        bool on = m.shared[obj].always_flush == 0 || c.chance(1, 3);
        auto o = op(on ? Op::AlwaysFlushOn : Op::AlwaysFlushOff, obj);
        m.shared[obj].always_flush += on ? 1 : -1;
        m.trace("always_flush " + std::to_string(m.shared[obj].always_flush > 0));
        return o;
      }
      case 10:
      {
        if (m.labels.size() >= 40)
          return nullptr;
        auto o = op(Op::NewChannel, obj);
        o->s = gen_label();
        int ch = m.add_channel(o->s);
        for (auto& [id, ts] : m.threads)
          ts.off[ch] = 0;
        if ((o->how = c.chance(1, 4)))
          m.hidden.insert(ch);
        return o;
      }
      case 11:
      {
        auto o = op(Op::Query, obj);
        std::string tr = "query";
        for (int i = 0; i < 4; ++i)
          tr += " " + quote(to.text[i]);
        tr += " indent " + std::to_string(to.indent) + " on " + std::to_string(to.off == -1) + " stream " + std::to_string(m.shared[obj].sid);
        m.trace(tr);
        return o;
      }
      case 12:
        ++nregistry;
        switch (c.draw(2))
        {
          case 0:
          {
            auto o = op(Op::Find, obj);
            switch (c.weighted({6, 1, 1}))
            {
              case 0:
              {
                std::string const& l = m.labels[c.draw(m.labels.size() - 1)];
                o->s = l.substr(0, c.range(0, l.size()));
                for (char& ch : o->s)
                  if (c.coin())
                    ch = islower(ch) ? toupper(ch) : tolower(ch);
                break;
              }
              case 1: o->s = gen_label(); break;
              case 2: o->s = m.labels[c.draw(m.labels.size() - 1)] + "X"; break;
            }
            m.trace("find " + std::to_string(m.find(o->s)));
            return o;
          }
          case 1:
          {
            auto o = op(Op::Iterate, obj);
            std::string tr = "channels";
            for (int i : m.sorted())
              tr += " " + std::to_string(i) + (m.chan(t, i) < 0 ? "+" : "-") + quote(m.padded(m.labels[i]));
            m.trace(tr);
            return o;
          }
          default:
          {
            auto o = op(Op::List, obj);
            if (to.off < 0)
              for (int i : m.sorted())
              {
                Frame& f = m.start(t, obj, libcwd::noprefix_cf, false, "", 0);
                f.os << to.text[0] << m.padded(m.labels[i]) << (m.chan(t, i) < 0 ? ": Enabled" : ": Disabled");
                m.finish(t, obj, true);
              }
            return o;
          }
        }
      case 13:
      {
        std::vector<int> cand;
        for (int x : alive)
          if (std::find(chain.begin(), chain.end(), x) == chain.end())
            cand.push_back(x);
        bool fresh = (int)alive.size() < p.threads && (cand.empty() || c.chance(1, 3));
        if (!fresh && cand.empty())
          return nullptr;
        auto o = op(Op::OnThread, obj);
        if (fresh)
        {
          o->n = ++max_thread;
          alive.push_back(o->n);
          for (int i = 0; i < (int)m.labels.size(); ++i)
            m.chan(o->n, i) = 0;
          for (int i = 0; i < p.objects; ++i)
            m.to(o->n, i);
          chain.push_back(o->n);
          setup_thread(o->ops);
        }
        else
        {
          o->n = c.pick(cand);
          chain.push_back(o->n);
        }
        gen_block(o->ops, depth, obj, 5);
        chain.pop_back();
        return o;
      }
      case 14:
      {
        // End a thread that is not in the middle of something.
        if (depth > 0)
          return nullptr;
        std::vector<int> cand;
        for (int x : alive)
          if (x && std::find(chain.begin(), chain.end(), x) == chain.end())
            cand.push_back(x);
        if (cand.empty())
          return nullptr;
        auto o = op(Op::EndThread, obj);
        ++nended;
        o->n = c.pick(cand);
        alive.erase(std::find(alive.begin(), alive.end(), o->n));
        m.threads.erase(o->n);
        return o;
      }
      default:
      {
        Ops ops;
        gen_continued(ops, depth, obj);
        return wrap(std::move(ops));
      }
    }
  }

  std::string gen_label()
  {
    static char const* const words[] = {"A", "AB", "ABC", "NET", "NETWORK", "NOTICES", "io", "Sys", "W", "WARN", "WARNINGS", "DEB",
        "LONGLABEL", "EXACTLYSIXTEENCH", "X1", "Z", "foo", "FOO", "a b", "<", "~"};
    if (c.chance(3, 4))
      return c.pick(words);
    std::string s;
    for (int n = c.range(1, 16); n > 0; --n)
      s += "ABCxy_0-."[c.draw(8)];
    return s;
  }

  // Switch things on in a new thread (or in the first), through operations.
  void setup_thread(Ops& out)
  {
    int t = thr();
    for (int i = 0; i < p.objects; ++i)
      if (c.chance(9, 10))
      {
        auto o = op(Op::ObjOn, i);
        m.to(t, i).off -= 1;
        out.push_back(o);
      }
    for (int i = 0; i < (int)m.labels.size(); ++i)
      if (m.chan(t, i) == 0 && c.chance(60, 100))
      {
        auto o = op(Op::ChanOn, 0);
        o->n = i;
        m.chan(t, i) -= 1;
        m.trace("is_on 1");
        out.push_back(o);
      }
  }

  Ops generate(int max_top)
  {
    Ops out;
    setup_thread(out);
    if (use_colors && c.coin())
      for (int w = 2; w < 4; ++w)
      {
        auto o = op(Op::Text, 0);
        o->which = w;
        o->s = w == 2 ? "\x1b[31m" : "\x1b[0m";
        m.to(thr(), 0).text[w] = o->s;
        out.push_back(o);
      }
    int n = c.small(1, max_top);
    while (!m.dead && n-- > 0 && budget > 0)
      if (auto o = gen_op(0, 0))
        out.push_back(o);
    while (terminal && !m.dead)
      if (auto o = gen_terminal(0, 0))
        out.push_back(o);
    return out;
  }
};

//----------------------------------------------------------------------------------------------------------------------
// Rendering for people.

inline void render(Ops const& ops, std::string& out, int ind);
inline std::string flags_str(unsigned f)
{
  std::string s;
  for (size_t i = 0; i < std::size(all_flags); ++i)
    if (f & all_flags[i])
      s += std::string("|") + flag_names[i];
  return s;
}
inline void render_items(Op const& o, std::string& out, int ind)
{
  for (auto& v : o.operands)
  {
    out += " <<";
    for (auto& it : v)
      switch (it.k)
      {
        case Item::Text: case Item::Write: case Item::CStr: out += " " + quote(it.s.size() > 80 ? it.s.substr(0, 80) : it.s); break;
        case Item::Char: out += " char(" + std::to_string(it.v) + ")"; break;
        case Item::Int: out += " " + std::to_string(it.v); break;
        case Item::Bool: out += it.v ? " true" : " false"; break;
        case Item::Dbl: out += " " + std::to_string(it.d); break;
        case Item::Manip: out += " manip" + std::to_string(it.m) + "(" + std::to_string(it.v) + ")"; break;
        case Item::Errno: out += " (errno=" + std::to_string(it.v) + ")"; break;
        case Item::NullStr: out += " (char*)0"; break;
        case Item::Run:
          out += " {\n";
          render(it.ops, out, ind + 4);
          out += std::string(ind + 2, ' ') + "}";
          break;
      }
  }
}
inline void render(Ops const& ops, std::string& out, int ind)
{
  for (auto& op : ops)
  {
    Op const& o = *op;
    std::string I(ind, ' ');
    std::string ob = o.obj ? "do" + std::to_string(o.obj) + "." : "";
    out += I;
    auto chans = [&] {
      std::string s;
      if (o.form == Op::continued) s = "continued";
      else if (o.form == Op::finish) s = "finish";
      else if (o.always) s = "always";
      for (int ch : o.ch) s += (s.empty() ? "c" : "|c") + std::to_string(ch);
      s += flags_str(o.fl1);
      if (o.form == Op::start_continued) s += "|continued_cf";
      return s + flags_str(o.fl2);
    };
    auto block = [&] { out += " {\n"; render(o.ops, out, ind + 2); out += I + "}\n"; };
    switch (o.k)
    {
      case Op::Stmt: out += "#" + std::to_string(o.id) + " " + ob + "Dout(" + chans() + ","; render_items(o, out, ind); out += ") errno=" + std::to_string(o.err) + "\n"; break;
      case Op::Fatal: out += ob + "DoutFatal(" + std::string(o.core ? "core" : "fatal") + (o.in_dout ? " in Dout|" : "|") + chans() + ","; render_items(o, out, ind); out += ")\n"; break;
      case Op::Entering: out += "DoutEntering(" + chans() + ","; render_items(o, out, ind); out += ")"; block(); break;
      case Op::ChanOn: out += "c" + std::to_string(o.n) + ".on()\n"; break;
      case Op::ChanOff: out += "c" + std::to_string(o.n) + ".off()\n"; break;
      case Op::ObjOn: out += ob + "on()\n"; break;
      case Op::ObjOff: out += ob + "off()\n"; break;
      case Op::ForceChan: out += "c" + std::to_string(o.n) + ".force_on"; block(); break;
      case Op::ForceObj: out += ob + "force_on"; block(); break;
      case Op::ObjOffScope: out += ob + "off/on"; block(); break;
      case Op::Text: out += ob + text_names[o.which] + "." + (o.how == 0 ? "assign" : o.how == 1 ? "append" : o.how == 2 ? "prepend" : "reserve") + "(" + (o.how == 3 ? std::to_string(o.n) : quote(o.s)) + (o.self < 0 ? ")\n" : ", from itself)\n"); break;
      case Op::StackPush: out += ob + "push_" + text_names[o.which] + "()\n"; break;
      case Op::StackPop: out += ob + "pop_" + text_names[o.which] + "()\n"; break;
      case Op::Indent: out += ob + (o.how == 0 ? "set_indent(" : o.how == 1 ? "inc_indent(" : "dec_indent(") + std::to_string(o.n) + ")\n"; break;
      case Op::IndentScope: out += "Indent(" + std::to_string(o.n) + ")"; block(); break;
      case Op::MarkScope: out += "Mark(" + o.s + ")"; block(); break;
      case Op::SetStream: out += ob + "set_ostream(s" + std::to_string(o.n) + (o.how ? ", mutex)\n" : ")\n"); break;
      case Op::AlwaysFlushOn: out += ob + "always_flush_on()\n"; break;
      case Op::AlwaysFlushOff: out += ob + "always_flush_off()\n"; break;
      case Op::NewChannel: out += "new Channel(" + quote(o.s) + (o.how ? ", not in the list)\n" : ")\n"); break;
      case Op::Find: out += "find_channel(" + quote(o.s) + ")\n"; break;
      case Op::Iterate: out += "ForAllDebugChannels\n"; break;
      case Op::List: out += ob + "list_channels_on\n"; break;
      case Op::OnThread: out += "thread " + std::to_string(o.n); block(); break;
      case Op::EndThread: out += "end thread " + std::to_string(o.n) + "\n"; break;
      case Op::Query: out += ob + "query\n"; break;
      case Op::InitThread: out += "init_thread\n"; break;
      default: out += "misuse " + std::to_string(o.k) + " n=" + std::to_string(o.n) + "\n"; break;
    }
  }
}

//----------------------------------------------------------------------------------------------------------------------
// Running a history on the real thing.

// Channels and debug objects rely on being static: their memory must be zeroed before they are constructed.
template<class T, class... A> T* make_static(A... a) { return new (calloc(1, sizeof(T))) T(a...); }

struct Real
{
  Case& c;

  struct LogBuf : std::streambuf
  {
    Real* r;
    int sid;
    LogBuf(Real* r_, int s) : r(r_), sid(s) { }
    int overflow(int ch) override
    {
      if (ch != EOF)
        r->event('W', sid, std::string(1, (char)ch));
      errno = ENOTTY; // Writing to a stream may change errno.
      return 0;
    }
    std::streamsize xsputn(char const* s, std::streamsize n) override
    {
      r->event('W', sid, std::string(s, n));
      errno = EAGAIN;
      return n;
    }
    int sync() override
    {
      r->event('F', sid, "");
      errno = EBADF;
      return 0;
    }
  };
  struct CinBuf : std::streambuf
  {
    Real* r;
    char b[1];
    size_t lines = 0, n = 0, end = std::string::npos; // The input ends after `end' characters.
    static char at(size_t i) { return "\nyes\n"[i % 5]; }
    explicit CinBuf(Real* r_) : r(r_) { }
    int underflow() override
    {
      if (n == end)
        return EOF;
      b[0] = at(n++);
      if (b[0] == '\n')
        ++lines;
      setg(b, b, b + 1);
      return (unsigned char)b[0];
    }
  };

  struct Worker
  {
    std::thread th;
    std::mutex m;
    std::condition_variable cv;
    std::function<void()> job;
    bool busy = false, quit = false;
    void loop()
    {
      std::unique_lock<std::mutex> l(m);
      for (;;)
      {
        cv.wait(l, [&] { return quit || busy; });
        if (quit)
          return;
        l.unlock();
        job();
        l.lock();
        busy = false;
        cv.notify_all();
      }
    }
    void run(std::function<void()> f)
    {
      std::unique_lock<std::mutex> l(m);
      job = std::move(f);
      busy = true;
      cv.notify_all();
      cv.wait(l, [&] { return !busy; });
    }
  };

  std::vector<libcwd::DebugObject*> objs;
  std::vector<libcwd::Channel*> chans;
  std::map<int, std::ostream*> streams;
  std::vector<std::unique_ptr<LogBuf>> bufs;
  std::map<int, std::unique_ptr<Worker>> workers;
  std::map<int, std::mutex*> mutexes;
  CinBuf cinbuf{this};
  std::map<int, int> has_mutex;  // 0: never had one, 1: had one, 2: the last set_ostream was with one.
  inline static thread_local int self = 0;

  explicit Real(Case& c_) : c(c_) { }

  void event(char type, int sid, std::string const& s)
  {
    std::string e;
    put_event(e, type, sid, s);
    c.blob(e.data(), e.size());
  }
  void trace(std::string const& s) { event('T', 0, s); }

  // Everything that must exist before the history starts. Returns the labels of the channels, in registry order.
  std::vector<std::string> setup(int nobjects, std::vector<std::string> const& labels, bool multi)
  {
    std::vector<std::string> r;
    if (multi)
      for (int i = 0; i < nobjects; ++i)
        has_mutex[i] = 2;
    ForAllDebugChannels(chans.push_back(&debugChannel));
    for (auto& l : labels)
      chans.push_back(make_static<libcwd::Channel>(strdup(l.c_str())));
    for (auto* ch : chans)
    {
      std::string l = ch->get_label();
      l.erase(l.find_last_not_of(' ') + 1);
      r.push_back(l);
    }
    for (int i = 0; i <= nobjects; ++i)
      add_stream(i);
    for (int i = 0; i < nobjects; ++i)
    {
      mutexes[i] = new std::mutex;
      objs.push_back(i == 0 ? &libcwd::libcw_do : make_static<libcwd::DebugObject>());
      if (multi)
        objs[i]->set_ostream(streams[i], mutexes[i]);
      else
        objs[i]->set_ostream(streams[i]);
    }
    bufs.push_back(std::make_unique<LogBuf>(this, cerr_sid));
    std::cerr.rdbuf(bufs.back().get());
    std::cerr.unsetf(std::ios_base::unitbuf);
    streams[cerr_sid] = &std::cerr;
    std::cin.rdbuf(&cinbuf);
    std::cin.tie(nullptr);
    return r;
  }
  void add_stream(int sid)
  {
    bufs.push_back(std::make_unique<LogBuf>(this, sid));
    streams[sid] = new std::ostream(bufs.back().get());
  }

  struct Operand
  {
    Real* r;
    std::vector<Item> const* items;
    friend std::ostream& operator<<(std::ostream& os, Operand const& o)
    {
      for (auto& it : *o.items)
        insert_item(os, it, [&](Ops const& ops) { o.r->exec(ops); });
      return os;
    }
  };
  Operand I(Op const& o, size_t i)
  {
    int e = errno;
    trace("eval " + std::to_string(o.id) + "." + std::to_string(i) + (i ? "" : " errno " + std::to_string(e)));
    return {this, &o.operands[i]};
  }

  // The same flags, by means of the functions that are for flags that depend on a condition.
  static libcwd::control_flag_t conditional(unsigned fl)
  {
    using namespace libcwd;
    return cond_nonewline_cf(fl & nonewline_cf) | cond_noprefix_cf(fl & noprefix_cf) | cond_nolabel_cf(fl & nolabel_cf) |
           conf_blank_margin_cf(fl & blank_margin_cf) | conf_blank_label_cf(fl & blank_label_cf) |
           conf_blank_marker_cf(fl & blank_marker_cf) | conf_cerr_cf(fl & cerr_cf) | conf_flush_cf(fl & flush_cf) |
           conf_wait_cf(fl & wait_cf) | cond_error_cf(fl & error_cf);
  }

// The statements of a program, written in the different ways in which they can be written.
#define ENG_OUT(MACRO, cntrl)                                                 \
  do                                                                          \
  {                                                                           \
    errno = o.err;                                                            \
    if (o.operands.size() == 1) MACRO(cntrl, I(o, 0));                        \
    else if (o.operands.size() == 2) MACRO(cntrl, I(o, 0) << I(o, 1));        \
    else MACRO(cntrl, I(o, 0) << I(o, 1) << I(o, 2));                         \
  } while (0)
#define ENG_DO(cntrl, ...) LibcwDout(libcwd::channels, *O, cntrl, __VA_ARGS__)
#define ENG_BOTH(cntrl)                                                       \
  do                                                                          \
  {                                                                           \
    if (o.dout) ENG_OUT(Dout, cntrl);                                         \
    else ENG_OUT(ENG_DO, cntrl);                                              \
  } while (0)

  void stmt(Op const& o)
  {
    libcwd::DebugObject* O = objs[o.obj];
    auto C = [&](size_t i) -> libcwd::Channel const& { return *chans[o.ch[i]]; };
    libcwd::control_flag_t f = o.id & 1 ? o.fl1 : conditional(o.fl1), g = o.id & 2 ? o.fl2 : conditional(o.fl2);
    if (o.form == Op::continued) { if (g) ENG_BOTH(dc::continued|g); else ENG_BOTH(dc::continued); return; }
    if (o.form == Op::finish) { if (g) ENG_BOTH(dc::finish|g); else ENG_BOTH(dc::finish); return; }
    int shape = (o.always ? 0 : 2) + o.ch.size() - (o.always ? 0 : 1);
    if (o.form == Op::normal)
      switch (shape)
      {
        case 0: if (o.plain) ENG_BOTH(dc::always); else ENG_BOTH(dc::always|f); break;
        case 1: if (o.plain) ENG_BOTH(dc::always|C(0)); else ENG_BOTH(dc::always|C(0)|f); break;
        case 2: if (o.plain) ENG_BOTH(C(0)); else ENG_BOTH(C(0)|f); break;
        case 3: if (o.plain) ENG_BOTH(C(0)|C(1)); else ENG_BOTH(C(0)|C(1)|f); break;
        case 4: if (o.plain) ENG_BOTH(C(0)|C(1)|C(2)); else ENG_BOTH(C(0)|f|C(1)|C(2)); break;
      }
    else
      switch (shape)
      {
        case 0: if (o.plain) ENG_BOTH(dc::always|continued_cf|g); else ENG_BOTH(dc::always|f|continued_cf|g); break;
        case 1: if (o.plain) ENG_BOTH(dc::always|C(0)|continued_cf|g); else ENG_BOTH(dc::always|C(0)|f|continued_cf|g); break;
        case 2: if (o.plain) ENG_BOTH(C(0)|continued_cf|g); else ENG_BOTH(C(0)|f|continued_cf|g); break;
        case 3: if (o.plain) ENG_BOTH(C(0)|C(1)|continued_cf|g); else ENG_BOTH(C(0)|C(1)|f|continued_cf|g); break;
        case 4: if (o.plain) ENG_BOTH(C(0)|C(1)|C(2)|continued_cf|g); else ENG_BOTH(C(0)|C(1)|C(2)|f|continued_cf|g); break;
      }
  }

#define ENG_FATAL(cntrl)                                                                            \
  do                                                                                                \
  {                                                                                                 \
    errno = o.err;                                                                                  \
    if (o.dout) DoutFatal(cntrl, I(o, 0));                                                          \
    else LibcwDoutFatal(libcwd::channels, *O, cntrl, I(o, 0));                                      \
  } while (0)
  void fatal(Op const& o)
  {
    libcwd::DebugObject* O = objs[o.obj];
    libcwd::control_flag_t f = o.fl1;
    auto C = [&](size_t i) -> libcwd::Channel const& { return *chans[o.ch[i]]; };
    if (o.in_dout)
    {
      if (o.core) ENG_BOTH(C(0)|dc::core|f); else ENG_BOTH(C(0)|dc::fatal|f);
    }
    else if (o.core) ENG_FATAL(dc::core|f);
    else ENG_FATAL(dc::fatal|f);
    trace("survived");
  }

  libcwd::DebugString& text(Op const& o)
  {
    libcwd::DebugObject& d = *objs[o.obj];
    switch (o.which)
    {
      case 0: return d.margin();
      case 1: return d.marker();
      case 2: return d.color_on();
      default: return d.color_off();
    }
  }

  void exec(Ops const& ops)
  {
    for (auto& o : ops)
      exec(*o);
  }

  void entering(Op const& o)
  {
    auto C = [&](size_t i) -> libcwd::Channel const& { return *chans[o.ch[i]]; };
    libcwd::control_flag_t f = o.fl1;
    errno = o.err;
#define ENG_ENTERING(cntrl)                                                                                                  \
  {                                                                                                                          \
    if (o.operands.size() == 1) { DoutEntering(cntrl, I(o, 0)); exec(o.ops); }                                               \
    else if (o.operands.size() == 2) { DoutEntering(cntrl, I(o, 0) << I(o, 1)); exec(o.ops); }                               \
    else { DoutEntering(cntrl, I(o, 0) << I(o, 1) << I(o, 2)); exec(o.ops); }                                                \
  }
    switch ((o.always ? 0 : 2) + o.ch.size() - (o.always ? 0 : 1))
    {
      case 0: ENG_ENTERING(dc::always|f) break;
      case 1: ENG_ENTERING(dc::always|C(0)|f) break;
      case 2: ENG_ENTERING(C(0)|f) break;
      case 3: ENG_ENTERING(C(0)|C(1)|f) break;
      case 4: ENG_ENTERING(C(0)|C(1)|C(2)|f) break;
    }
  }

  void exec(Op const& o)
  {
    libcwd::DebugObject& O = *objs[o.obj];
    switch (o.k)
    {
      case Op::Stmt:
      {
        uint32_t at = c.slot->bloblen;
        stmt(o);
        int e = errno;
        if (c.slot->bloblen == at) // Nothing was evaluated nor written.
          trace("suppressed " + std::to_string(o.id) + " errno " + std::to_string(e));
        break;
      }
      case Op::Fatal: fatal(o); break;
      case Op::Entering: entering(o); break;
      case Op::ChanOn: chans[o.n]->on(); trace("is_on " + std::to_string(chans[o.n]->is_on())); break;
      case Op::ChanOff: chans[o.n]->off(); trace("is_on " + std::to_string(chans[o.n]->is_on())); break;
      case Op::ObjOn: O.on(); break;
      case Op::ObjOff: O.off(); break;
      case Op::ForceChan:
      {
        libcwd::Channel::OnOffState st;
        chans[o.n]->force_on(st, "UNUSED");
        exec(o.ops);
        chans[o.n]->restore(st);
        break;
      }
      case Op::ForceObj:
      {
        libcwd::DebugObject::OnOffState st;
        O.force_on(st);
        exec(o.ops);
        O.restore(st);
        break;
      }
      case Op::ObjOffScope: O.off(); exec(o.ops); O.on(); break;
      case Op::Text:
      {
        libcwd::DebugString& t = text(o);
        // The text is only valid during the call.
        std::unique_ptr<char[]> p(new char[o.s.size() + 1]);
        memcpy(p.get(), o.s.data(), o.s.size());
        p[o.s.size()] = '#';
        char const* text = o.self >= 0 ? t.c_str() + o.self : p.get();
        bool as_string = o.as_string && o.self < 0;
        switch (o.how)
        {
          case 0: if (as_string) t.assign(o.s); else t.assign(text, o.s.size()); break;
          case 1: if (as_string) t.append(o.s); else t.append(text, o.s.size()); break;
          case 2: if (as_string) t.prepend(o.s); else t.prepend(text, o.s.size()); break;
          case 3: t.reserve(o.n); break;
        }
        if (t.c_str()[t.size()] != 0)
          trace("not terminated");
        if (t.capacity() < t.size() || (o.how == 3 && t.capacity() < (size_t)o.n))
          trace("capacity");
        break;
      }
      case Op::StackPush: if (o.which) O.push_marker(); else O.push_margin(); break;
      case Op::StackPop: if (o.which) O.pop_marker(); else O.pop_margin(); break;
      case Op::Indent:
        if (o.how == 0) O.set_indent(o.n); else if (o.how == 1) O.inc_indent(o.n); else O.dec_indent(o.n);
        trace("indent " + std::to_string(O.get_indent()));
        break;
      case Op::IndentScope: { libcwd::Indent in(o.n); exec(o.ops); break; }
      case Op::MarkScope:
        if (o.how == 0) { libcwd::Mark mk; exec(o.ops); }
        else if (o.how == 1) { libcwd::Mark mk(o.s[0]); exec(o.ops); mk.end(); }
        else { libcwd::Mark mk(o.s.c_str()); exec(o.ops); mk.end(); mk.end(); }
        break;
      case Op::SetStream:
        if (o.how) O.set_ostream(streams[o.n], mutexes[o.obj]); else O.set_ostream(streams[o.n]);
        has_mutex[o.obj] = o.how ? 2 : std::min(has_mutex[o.obj], 1);
        trace("stream " + std::to_string(stream_id(O.get_ostream())));
        break;
      case Op::AlwaysFlushOn: O.always_flush_on(); trace("always_flush " + std::to_string(O.always_flush_is_on())); break;
      case Op::AlwaysFlushOff: O.always_flush_off(); trace("always_flush " + std::to_string(O.always_flush_is_on())); break;
      case Op::NewChannel: chans.push_back(make_static<libcwd::Channel>(strdup(o.s.c_str()), !o.how)); break;
      case Op::Find:
      {
        libcwd::Channel* ch = libcwd::find_channel(o.s.c_str());
        trace("find " + std::to_string(ch ? index_of(ch) : -1));
        break;
      }
      case Op::Iterate:
      {
        std::string tr = "channels";
        ForAllDebugChannels(tr += " " + std::to_string(index_of(&debugChannel)) + (debugChannel.is_on() ? "+" : "-") + quote(debugChannel.get_label()));
        trace(tr);
        break;
      }
      case Op::List: Debug(list_channels_on(O)); break;
      case Op::Query:
      {
        std::string tr = "query";
        libcwd::DebugString* ds[4] = {&O.margin(), &O.marker(), &O.color_on(), &O.color_off()};
        libcwd::DebugObject const& CO = O;
        libcwd::DebugString const* cds[4] = {&CO.margin(), &CO.marker(), &CO.color_on(), &CO.color_off()};
        for (int i = 0; i < 4; ++i)
        {
          libcwd::DebugString const* d = i & 1 ? ds[i] : cds[i];
          tr += " " + quote(std::string(d->c_str(), d->size()));
          // Both point to the same string, and reserving space is heeded.
          if (ds[i]->c_str() != cds[i]->c_str() || d->capacity() < d->size())
            tr += " [differs]";
        }
        // Passing a stream without mutex does not have to forget the mutex that was passed before.
        int hm = has_mutex[o.obj];
        if (O.has_mutex() ? hm == 0 : hm == 2)
          tr += " [has_mutex]";
        LIBCWD_TSD_DECLARATION;
        tr += " indent " + std::to_string(O.get_indent()) + " on " + std::to_string(O.is_on(LIBCWD_TSD)) + " stream " +
              std::to_string(stream_id(O.get_ostream()));
        trace(tr);
        break;
      }
      case Op::OnThread:
      {
        if (o.n == self)
        {
          exec(o.ops);
          break;
        }
        auto& w = workers[o.n];
        if (!w)
        {
          w = std::make_unique<Worker>();
          Worker* wp = w.get();
          int n = o.n;
          w->th = std::thread([wp, n] { self = n; wp->loop(); });
        }
        w->run([&] { exec(o.ops); });
        break;
      }
      case Op::EndThread:
      {
        auto& w = workers[o.n];
        {
          std::lock_guard<std::mutex> l(w->m);
          w->quit = true;
          w->cv.notify_all();
        }
        w->th.join();
        workers.erase(o.n);
        break;
      }
      case Op::ChanMisuse: exec(o.ops); chans[o.n]->on(); trace("survived"); break;
      case Op::RestoreChanMisuse:
      {
        libcwd::Channel::OnOffState st;
        chans[o.n]->force_on(st, "UNUSED");
        for (int i = 0; i < o.how; ++i) chans[o.n]->off();
        chans[o.n]->restore(st);
        trace("survived");
        break;
      }
      case Op::RestoreObjMisuse:
      {
        libcwd::DebugObject::OnOffState st;
        O.force_on(st);
        if (o.how < 0) O.on();
        for (int i = 0; i < o.how; ++i) O.off();
        O.restore(st);
        trace("survived");
        break;
      }
      case Op::PopMisuse: exec(o.ops); if (o.which) O.pop_marker(); else O.pop_margin(); trace("survived"); break;
      case Op::FinishMisuse: LibcwDout(libcwd::channels, O, dc::finish, "x"); trace("survived"); break;
      case Op::ContinuedMisuse: LibcwDout(libcwd::channels, O, dc::continued, "x"); trace("survived"); break;
      case Op::LabelMisuse: make_static<libcwd::Channel>(strdup(o.s.c_str())); trace("survived"); break;
      case Op::TooManyMisuse:
        for (int i = 0; i < 400; ++i)
          if (o.which)
            make_static<libcwd::Channel>(strdup(("TOO" + std::to_string(i)).c_str()));
          else
            make_static<libcwd::DebugObject>();
        trace("survived");
        break;
      case Op::NoMutexMisuse:
      {
        std::thread th([&] {
          O.on();
          LibcwDout(libcwd::channels, O, dc::always, "x");
          trace("survived");
        });
        th.join();
        break;
      }
      case Op::InitThread: break;
    }
  }

  int stream_id(std::ostream* os)
  {
    for (auto& [i, s] : streams)
      if (s == os)
        return i;
    return -1;
  }
  int index_of(libcwd::Channel const* ch)
  {
    for (size_t i = 0; i < chans.size(); ++i)
      if (chans[i] == ch)
        return i;
    return -2;
  }
};

//----------------------------------------------------------------------------------------------------------------------
// One case.

inline void run_history(Case& c, Profile const& profile, std::function<void(Gen&, Model&)> classify, int max_top = 24)
{
  Real real(c);
  Profile p = profile;
  if (p.more_threads && c.chance(p.more_threads, 100))
  {
    // The same, but with more than one thread.
    p.threads = 2; p.on_thread = 30; p.end_thread = 2; p.stream = 0; p.cerr_cf = false; p.misuse = 0;
  }
  if (p.wait_cf && c.chance(1, 8))
    real.cinbuf.end = c.draw(6);
  Model m;
  std::vector<std::string> labels;
  int n = c.range(0, p.channels);
  {
    Gen g0(c, p, m);
    for (int i = 0; i < n; ++i)
      labels.push_back(g0.gen_label());
  }
  bool multi = p.threads > 1;
  for (auto& l : real.setup(p.objects, labels, multi))
  {
    int ch = m.add_channel(l);
    // Only the predefined channel dc::warning is on by default.
    m.chan(0, ch) = real.chans[ch] == &libcwd::channels::dc::warning ? -1 : 0;
  }
  for (int i = 0; i < p.objects; ++i)
  {
    m.shared[i].sid = i;
    m.to(0, i);
  }
  Gen g(c, p, m);
  // What was on at the start.
  Ops ops = g.generate(max_top);
  Ending e = g.ending;
  std::string r;
  for (size_t i = 0; i < m.labels.size(); ++i)
    r += "c" + std::to_string(i) + "=" + m.labels[i] + " ";
  r += "\n";
  render(ops, r, 0);
  c.note(r);
  // Self check of the model: no text is lost or duplicated.
  if (e.k == Ending::returns)
  {
    std::string all;
    for (auto& ev : parse_log(m.log))
      if (ev.type == 'W')
        all += ev.s;
    for (auto& t : m.tokens)
    {
      size_t at = all.find(t);
      if ((at == std::string::npos && !p.null_str) || all.find(t, at + 1) != std::string::npos)
        c.fail("model", "token " + t + " does not occur exactly once in the expected output " + quote(all));
    }
  }
  if (classify)
    classify(g, m);
  c.slot->user[0] = m.log.size();
  c.slot->user[1] = e.k;
  c.slot->user[2] = e.status;
  c.slot->user[3] = e.prefix_only;
  c.slot->user[4] = e.text.size();
  for (int sid : e.flushed)
    c.slot->user[8] |= UINT64_C(1) << (sid == cerr_sid ? 31 : sid);
  c.blob(m.log.data(), m.log.size());
  c.blob(e.text.data(), e.text.size());
  if (c.slot->bloblen > pbt::max_blob / 3)
    c.discard();
  if (e.k == Ending::exits)
    atexit([] { _exit(99); }); // A fatal message ends the program without running exit handlers.
  c.slot->user[5] = 1; // The history starts.
  real.exec(ops);
  c.slot->user[6] = 1; // The history ended.
  if (real.cinbuf.end != std::string::npos)
  {
    size_t there = 0;
    for (size_t i = 0; i < real.cinbuf.end; ++i)
      there += Real::CinBuf::at(i) == '\n';
    m.cin_lines = std::min(m.cin_lines, there);
  }
  if (real.cinbuf.lines != m.cin_lines)
    c.fail("wait", "read " + std::to_string(real.cinbuf.lines) + " lines of input instead of " + std::to_string(m.cin_lines));
  fflush(nullptr);
  c.slot->user[7] = 1;
  _exit(0); // Do not destruct anything.
}

// Whether flushes are part of what is compared.
inline bool compare_flush = false;

inline void verify_history(Case& c, int status)
{
  auto& u = c.slot->user;
  std::string blob = c.blob_text();
  std::string expect = blob.substr(0, u[0]), text = blob.substr(u[0], u[4]), actual = blob.substr(u[0] + u[4]);
  auto ev = parse_log(expect, compare_flush), av = parse_log(actual, compare_flush);
  size_t i = 0;
  while (i < ev.size() && i < av.size() && ev[i] == av[i])
    ++i;
  bool prefix_only = u[3];
  bool ok = i == ev.size() && (prefix_only || i == av.size());
  if (!ok && prefix_only && i + 1 == ev.size() && i < av.size() && ev[i].type == 'W' && av[i].type == 'W' && ev[i].sid == av[i].sid &&
      av[i].s.compare(0, ev[i].s.size(), ev[i].s) == 0)
    ok = true;
  if (!ok)
  {
    std::string msg = "event " + std::to_string(i) + " differs:\nexpected ";
    msg += i < ev.size() ? ev[i].str() : "the end";
    msg += "\nactual   ";
    msg += i < av.size() ? av[i].str() : "the end";
    if (WIFSIGNALED(status))
      msg += "\n(ended with signal " + std::to_string(WTERMSIG(status)) + ")";
    else if (WEXITSTATUS(status))
      msg += "\n(ended with status " + std::to_string(WEXITSTATUS(status)) + ")";
    std::string key = "output";
    char const ty = i < ev.size() ? ev[i].type : i < av.size() ? av[i].type : '?';
    if (ty == 'F') key = "flush";
    if (ty == 'T') key = "state";
    c.fail(key, msg);
  }
  if (prefix_only && !text.empty())
  {
    std::string all;
    for (auto& e : av)
      if (e.type == 'W')
        all += e.s;
    c.check(all.find(text) != std::string::npos, "report", "the report " + quote(text) + " is missing in " + quote(all));
  }
  for (int bit = 0; bit < 32; ++bit)
    if (u[8] & (UINT64_C(1) << bit))
    {
      int sid = bit == 31 ? cerr_sid : bit;
      auto all = parse_log(actual, true);
      auto last = std::find_if(all.rbegin(), all.rend(), [&](Ev const& e) { return e.sid == sid && (e.type == 'W' || e.type == 'F'); });
      c.check(last == all.rend() || last->type == 'F', "lost", "what was written to stream " + std::to_string(sid) + " is lost when it is buffered: it wasn't flushed before the process ended");
    }
  switch ((Ending::K)(uint64_t)u[1])
  {
    case Ending::returns: c.check(WIFEXITED(status) && WEXITSTATUS(status) == 0 && u[7], "end", "the process ended early"); break;
    case Ending::exits: c.check(WIFEXITED(status) && WEXITSTATUS(status) == (int)u[2], "end", "the process did not exit with status " + std::to_string(u[2]) + " but " + std::to_string(status)); break;
    case Ending::aborts: c.check(WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT, "end", "the process did not abort but " + std::to_string(status)); break;
  }
}

inline pbt::Config config(std::string const& property, uint64_t quick, std::string const& rule)
{
  pbt::Config cfg;
  cfg.property = property;
  cfg.fork_per_case = true;
  cfg.quick_cases = quick;
  cfg.thorough_cases = quick * 60;
  cfg.case_timeout = 10;
  cfg.rule = rule;
  cfg.verify = verify_history;
  return cfg;
}

} // namespace eng
