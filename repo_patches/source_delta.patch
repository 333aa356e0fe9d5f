From 4d995cf9c8482b458b2698a47c90b3ce39dc3ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:04 +0000
Subject: [PATCH 01/59] fix: never read past the end of a mangled name

The demangler was told that its input is INT_MAX characters long, so nothing
stopped it at the terminating zero. For example _Z1fILb and _Z12_GLOBAL_ caused
a read past the end and _Z99999999999f an integer overflow.
---
 include/cwd_demangle.h | 28 ++++++++++++++++++++++++----
 src/demangle.cxx       |  4 ++--
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 38bbc16..9f9cf17 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -6,7 +6,9 @@
 #ifndef CWD_DEMANGLER_H
 #define CWD_DEMANGLER_H
 
+#include <algorithm>
 #include <climits>
+#include <cstring>
 #include <memory>
 #include <string>
 #include <vector>
@@ -347,7 +349,13 @@ class session
 
   char next_peek() const { return (pos_ >= maxpos_) ? 0 : str_[pos_ + 1]; }
 
-  char next() { return (pos_ >= maxpos_) ? 0 : str_[++pos_]; }
+  // Advance to the next character. At the end of the input this moves past the last character, so that current() returns 0.
+  char next()
+  {
+    if (pos_ <= maxpos_)
+      ++pos_;
+    return current();
+  }
 
   char eat_current() { return (pos_ > maxpos_) ? 0 : str_[pos_++]; }
 
@@ -478,6 +486,12 @@ inline char tolower(char c)
   return isupper(c) ? c - 'A' + 'a' : c;
 }
 
+// The length of the zero terminated mangled name `input', as type int.
+inline int input_length(char const* input)
+{
+  return static_cast<int>(std::min(std::strlen(input), static_cast<std::size_t>(INT_MAX)));
+}
+
 //
 // <non-negative decimal integer> ::= 0
 //                                ::= 1|2|3|4|5|6|7|8|9 [<digit>+]
@@ -2164,7 +2178,13 @@ bool session<Allocator>::decode_source_name(string_type& output)
   if (length < 1 || length > 9)
     _GLIBCXX_DEMANGLER_FAILURE;
   while (isdigit(next()))
-    length = 10 * length + current() - '0';
+  {
+    if (length > (INT_MAX - 9) / 10) // Avoid integer overflow.
+      _GLIBCXX_DEMANGLER_FAILURE;
+    length = 10 * length + (current() - '0');
+  }
+  if (length > maxpos_ - pos_ + 1) // Not that many characters left.
+    _GLIBCXX_DEMANGLER_FAILURE;
   char const* ptr = &str_[pos_];
   if (length > 11 && !strncmp(ptr, "_GLOBAL_", 8) && ptr[9] == 'N' && ptr[8] == ptr[10])
   {
@@ -2549,7 +2569,7 @@ typename demangle<Allocator>::string_type demangle<Allocator>::symbol(char const
     }
     else if (input[1] == 'Z')
     {
-      int cnt = demangler_type::decode_encoding(result, input + 2, INT_MAX, id);
+      int cnt = demangler_type::decode_encoding(result, input + 2, demangler::input_length(input + 2), id);
       if (cnt < 0 || input[cnt + 2] != 0)
         failure = true;
     }
@@ -2576,7 +2596,7 @@ typename demangle<Allocator>::string_type demangle<Allocator>::type(char const*
     result = "(null)";
   else
   {
-    demangler::session<Allocator> demangler_session(input, INT_MAX, id);
+    demangler::session<Allocator> demangler_session(input, demangler::input_length(input), id);
     if (!demangler_session.decode_type(result) || demangler_session.remaining_input_characters())
     {
       // Failure to demangle, return the mangled name.
diff --git a/src/demangle.cxx b/src/demangle.cxx
index d44ec52..b768e6e 100644
--- a/src/demangle.cxx
+++ b/src/demangle.cxx
@@ -717,7 +717,7 @@ void demangle_symbol(char const* input, std::string& output)
     {
       // C++ name?
       implementation_details id(0);
-      int cnt = session_type::decode_encoding(output, input + 2, INT_MAX, id);
+      int cnt = session_type::decode_encoding(output, input + 2, __gnu_cxx::demangler::input_length(input + 2), id);
       if (cnt < 0 || input[cnt + 2] != 0)
         failure = true;
     }
@@ -773,7 +773,7 @@ void demangle_type(char const* input, std::string& output)
     return;
   }
   implementation_details id(0);
-  session_type demangler_session(input, INT_MAX, id);
+  session_type demangler_session(input, __gnu_cxx::demangler::input_length(input), id);
   if (!demangler_session.decode_type(output) || demangler_session.remaining_input_characters())
     output.assign(input, strlen(input)); // Failure to demangle, return the mangled type name.
 #ifdef STANDALONE
-- 
2.43.0


From 532a60aea2a7b33f0f381dab546fa0a197595cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:38 +0000
Subject: [PATCH 02/59] fix: limit the recursion depth of the demangler

A short corrupt name like _Z1fIXT_EEvv made the demangler recurse endlessly, and
a long one (for example _Z1f followed by many F's) made it overflow the stack.
---
 include/cwd_demangle.h | 51 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 9f9cf17..5221cfa 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -297,6 +297,7 @@ class session
   bool name_is_template_;
   bool name_is_conversion_operator_;
   bool template_args_need_space_;
+  int recursion_depth_;
   string_type function_name_;
   using int_Allocator = typename allocator_rebind<Allocator>::template alloc<int>;
   using subst_Allocator = typename allocator_rebind<Allocator>::template alloc<Substitution>;
@@ -308,8 +309,25 @@ class session
   bool inside_add_substitution_;
 #endif
 
+  // A (corrupt) mangled name may not cause an unlimited recursion.
+  static constexpr int max_recursion_depth_c = 256;
+
+  class RecursionGuard
+  {
+   private:
+    int& depth_;
+
+   public:
+    explicit RecursionGuard(int& depth) : depth_(depth) { ++depth_; }
+    ~RecursionGuard() { --depth_; }
+    RecursionGuard(RecursionGuard const&) = delete;
+    RecursionGuard& operator=(RecursionGuard const&) = delete;
+    bool too_deep() const { return depth_ > max_recursion_depth_c; }
+  };
+
  public:
-  explicit session(char const* in, int len, implementation_details const& id = implementation_details()) :
+  explicit session(char const* in, int len, implementation_details const& id = implementation_details(),
+                   int recursion_depth = 0) :
       str_(in),
       pos_(0),
       maxpos_(len - 1),
@@ -322,6 +340,7 @@ class session
       name_is_template_(false),
       name_is_conversion_operator_(false),
       template_args_need_space_(false),
+      recursion_depth_(recursion_depth),
       template_arg_pos_offset_(0),
       implementation_details_(id)
 #if _GLIBCXX_DEMANGLER_CWDEBUG
@@ -332,7 +351,7 @@ class session
   }
 
   static int decode_encoding(string_type& output, char const* input, int len,
-                             implementation_details const& id = implementation_details());
+                             implementation_details const& id = implementation_details(), int recursion_depth = 0);
 
   bool decode_type(string_type& output, qualifier_list<Allocator>* qualifiers = NULL)
   {
@@ -635,6 +654,9 @@ template <typename Allocator>
 bool session<Allocator>::decode_substitution(string_type& output, qualifier_list<Allocator>* qualifiers)
 {
   _GLIBCXX_DEMANGLER_DOUT_ENTERING("decode_substitution");
+  RecursionGuard recursion_guard(recursion_depth_);
+  if (recursion_guard.too_deep())
+    _GLIBCXX_DEMANGLER_FAILURE;
   unsigned int value = 0;
   char c = next();
   if (c != '_')
@@ -912,7 +934,8 @@ bool session<Allocator>::decode_literal(string_type& output)
     if (next() != 'Z')
       _GLIBCXX_DEMANGLER_FAILURE;
     eat_current();
-    if ((pos_ += decode_encoding(output, str_ + pos_, maxpos_ - pos_ + 1, implementation_details_)) < 0)
+    if ((pos_ += decode_encoding(output, str_ + pos_, maxpos_ - pos_ + 1, implementation_details_,
+                                 recursion_depth_ + 1)) < 0)
       _GLIBCXX_DEMANGLER_FAILURE;
   }
   else
@@ -1187,6 +1210,9 @@ template <typename Allocator>
 bool session<Allocator>::decode_expression(string_type& output)
 {
   _GLIBCXX_DEMANGLER_DOUT_ENTERING("decode_expression");
+  RecursionGuard recursion_guard(recursion_depth_);
+  if (recursion_guard.too_deep())
+    _GLIBCXX_DEMANGLER_FAILURE;
   if (current() == 'T')
   {
     if (!decode_template_param(output))
@@ -1722,6 +1748,9 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
                                                   qualifier_list<Allocator>* qualifiers)
 {
   _GLIBCXX_DEMANGLER_DOUT_ENTERING2("decode_type");
+  RecursionGuard recursion_guard(recursion_depth_);
+  if (recursion_guard.too_deep())
+    _GLIBCXX_DEMANGLER_FAILURE;
   ++inside_type_;
   bool recursive_template_param_or_substitution_call;
   if (!(recursive_template_param_or_substitution_call = qualifiers))
@@ -2146,7 +2175,8 @@ bool session<Allocator>::decode_local_name(string_type& output)
   _GLIBCXX_DEMANGLER_DOUT_ENTERING("decode_local_name");
   if (current() != 'Z' || pos_ >= maxpos_)
     _GLIBCXX_DEMANGLER_FAILURE;
-  if ((pos_ += decode_encoding(output, str_ + pos_ + 1, maxpos_ - pos_, implementation_details_) + 1) < 0 ||
+  if ((pos_ += decode_encoding(output, str_ + pos_ + 1, maxpos_ - pos_, implementation_details_,
+                               recursion_depth_ + 1) + 1) < 0 ||
       eat_current() != 'E')
     _GLIBCXX_DEMANGLER_FAILURE;
   output += "::";
@@ -2442,7 +2472,8 @@ bool session<Allocator>::decode_special_name(string_type& output)
     case 'c':
       output += "covariant return thunk to ";
       if (!decode_call_offset(output) || !decode_call_offset(output) ||
-          (pos_ += decode_encoding(output, str_ + pos_, maxpos_ - pos_ + 1, implementation_details_)) < 0)
+          (pos_ += decode_encoding(output, str_ + pos_, maxpos_ - pos_ + 1, implementation_details_,
+                                   recursion_depth_ + 1)) < 0)
         _GLIBCXX_DEMANGLER_FAILURE;
       _GLIBCXX_DEMANGLER_RETURN;
     case 'C': // GNU extension?
@@ -2468,7 +2499,8 @@ bool session<Allocator>::decode_special_name(string_type& output)
       else
         output += "non-virtual thunk to ";
       if (!decode_call_offset(output) ||
-          (pos_ += decode_encoding(output, str_ + pos_, maxpos_ - pos_ + 1, implementation_details_)) < 0)
+          (pos_ += decode_encoding(output, str_ + pos_, maxpos_ - pos_ + 1, implementation_details_,
+                                   recursion_depth_ + 1)) < 0)
         _GLIBCXX_DEMANGLER_FAILURE;
       _GLIBCXX_DEMANGLER_RETURN;
   }
@@ -2481,16 +2513,17 @@ bool session<Allocator>::decode_special_name(string_type& output)
 //   <data name>				# Idem.
 //   <special-name>				# Starts with 'T' or 'G'.
 template <typename Allocator>
-int session<Allocator>::decode_encoding(string_type& output, char const* in, int len, implementation_details const& id)
+int session<Allocator>::decode_encoding(string_type& output, char const* in, int len, implementation_details const& id,
+                                        int recursion_depth)
 {
 #if _GLIBCXX_DEMANGLER_CWDEBUG
   _GLIBCXX_DEMANGLER_DOUT(dc::demangler, "Output thus far: \"" << output << '"');
   string_type input(in, len > 0x40000000 ? strlen(in) : len);
   _GLIBCXX_DEMANGLER_DOUT(dc::demangler, "Entering decode_encoding(\"" << input << "\")");
 #endif
-  if (len <= 0)
+  if (len <= 0 || recursion_depth > max_recursion_depth_c)
     return INT_MIN;
-  session<Allocator> demangler_session(in, len, id);
+  session<Allocator> demangler_session(in, len, id, recursion_depth);
   string_type nested_name_qualifiers;
   int saved_pos;
   demangler_session.store(saved_pos);
-- 
2.43.0


From f7a651d53969653b87d9a385ab98ebe94582a534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:38 +0000
Subject: [PATCH 03/59] fix: make room for the longest floating point literal

A negative double with 17 digits and a three digit exponent, as in
_Z1fILdffe6b6b6b6b6b6b7EEvv, needs 25 characters including the terminating zero.
---
 include/cwd_demangle.h | 2 +-
 src/demangle.cxx       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 5221cfa..ed1ffa4 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -902,7 +902,7 @@ bool session<Allocator>::decode_real(string_type& output, size_t size_of_real)
     }
     ++word;
   }
-  char buf[24];
+  char buf[32]; // At least 17 digits, a minus sign, ".e-308" and the terminating zero.
   if (implementation_details_.decode_real(buf, words, size_of_real))
   {
     output += buf;
diff --git a/src/demangle.cxx b/src/demangle.cxx
index b768e6e..9e41fd8 100644
--- a/src/demangle.cxx
+++ b/src/demangle.cxx
@@ -430,7 +430,7 @@ decimal_float& decimal_float::operator*=(decimal_float const& factor)
 }
 
 // Print to `buf', writes: "<digit>.<digits>e<sign><exponent>\0".
-// sizeof(buf) must be at least 7 larger than `precision':
+// sizeof(buf) must be at least 7 larger than `precision' (8 when preceded by a minus sign):
 // strlen(<digit><digits>) <= precision.
 // strlen(.e<sign><exponent>) == 6, plus one for the trailing '\0'.
 void decimal_float::print_to_with_precision(char* buf, int precision) const
@@ -531,7 +531,7 @@ void decimal_float::print_to_with_precision(char* buf, int precision) const
 //
 // buf                  : Output buffer, the result is written to this buffer
 //                        and terminated with a trailing '\0'.  The size of
-//                        this buffer must be at least `precision + 7'.
+//                        this buffer must be at least `precision + 8'.
 // words                : A pointer to an array with unsigned integers.  Only
 //                        the 32 least significant bits of each element are
 //                        used.  The first element contains the word with the
-- 
2.43.0


From ab23cb0d37e09f208f283e2a0132e6fbe1cfda23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:38 +0000
Subject: [PATCH 04/59] fix: demangle covariant return thunks

The 'c' of Tc was not skipped, so that reading the first call offset always failed.
---
 include/cwd_demangle.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index ed1ffa4..ff455ad 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -2471,6 +2471,7 @@ bool session<Allocator>::decode_special_name(string_type& output)
       _GLIBCXX_DEMANGLER_RETURN;
     case 'c':
       output += "covariant return thunk to ";
+      eat_current();
       if (!decode_call_offset(output) || !decode_call_offset(output) ||
           (pos_ += decode_encoding(output, str_ + pos_, maxpos_ - pos_ + 1, implementation_details_,
                                    recursion_depth_ + 1)) < 0)
-- 
2.43.0


From ec89a20ed90ca88882f7fe91ea97e4491cbf6edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:49 +0000
Subject: [PATCH 05/59] fix: names nested in a mangled name share its
 substitutions

An encoding inside a local name, an external name literal or a thunk was
decoded with a substitution table of its own, so that substitutions that
refer to components outside of it, and those following it, denoted the
wrong component, as in _ZZ1f1AEN1B1sEPKS_.
---
 include/cwd_demangle.h | 87 +++++++++++++++++++++++++-----------------
 1 file changed, 53 insertions(+), 34 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index ff455ad..f4cf66d 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -326,8 +326,7 @@ class session
   };
 
  public:
-  explicit session(char const* in, int len, implementation_details const& id = implementation_details(),
-                   int recursion_depth = 0) :
+  explicit session(char const* in, int len, implementation_details const& id = implementation_details()) :
       str_(in),
       pos_(0),
       maxpos_(len - 1),
@@ -340,7 +339,7 @@ class session
       name_is_template_(false),
       name_is_conversion_operator_(false),
       template_args_need_space_(false),
-      recursion_depth_(recursion_depth),
+      recursion_depth_(0),
       template_arg_pos_offset_(0),
       implementation_details_(id)
 #if _GLIBCXX_DEMANGLER_CWDEBUG
@@ -351,7 +350,7 @@ class session
   }
 
   static int decode_encoding(string_type& output, char const* input, int len,
-                             implementation_details const& id = implementation_details(), int recursion_depth = 0);
+                             implementation_details const& id = implementation_details());
 
   bool decode_type(string_type& output, qualifier_list<Allocator>* qualifiers = NULL)
   {
@@ -388,6 +387,8 @@ class session
 
   void add_substitution(int start_pos, substitution_nt sub_type, int number_of_prefixes = 0);
 
+  bool decode_encoding(string_type& output);
+  bool decode_nested_encoding(string_type& output, int start_pos);
   bool decode_type_with_postfix(string_type& prefix, string_type& postfix,
                                 qualifier_list<Allocator>* qualifiers = NULL);
   bool decode_bare_function_type(string_type& output);
@@ -934,8 +935,7 @@ bool session<Allocator>::decode_literal(string_type& output)
     if (next() != 'Z')
       _GLIBCXX_DEMANGLER_FAILURE;
     eat_current();
-    if ((pos_ += decode_encoding(output, str_ + pos_, maxpos_ - pos_ + 1, implementation_details_,
-                                 recursion_depth_ + 1)) < 0)
+    if (!decode_nested_encoding(output, pos_))
       _GLIBCXX_DEMANGLER_FAILURE;
   }
   else
@@ -2175,9 +2175,7 @@ bool session<Allocator>::decode_local_name(string_type& output)
   _GLIBCXX_DEMANGLER_DOUT_ENTERING("decode_local_name");
   if (current() != 'Z' || pos_ >= maxpos_)
     _GLIBCXX_DEMANGLER_FAILURE;
-  if ((pos_ += decode_encoding(output, str_ + pos_ + 1, maxpos_ - pos_, implementation_details_,
-                               recursion_depth_ + 1) + 1) < 0 ||
-      eat_current() != 'E')
+  if (!decode_nested_encoding(output, pos_ + 1) || eat_current() != 'E')
     _GLIBCXX_DEMANGLER_FAILURE;
   output += "::";
   if (current() == 's')
@@ -2472,9 +2470,7 @@ bool session<Allocator>::decode_special_name(string_type& output)
     case 'c':
       output += "covariant return thunk to ";
       eat_current();
-      if (!decode_call_offset(output) || !decode_call_offset(output) ||
-          (pos_ += decode_encoding(output, str_ + pos_, maxpos_ - pos_ + 1, implementation_details_,
-                                   recursion_depth_ + 1)) < 0)
+      if (!decode_call_offset(output) || !decode_call_offset(output) || !decode_nested_encoding(output, pos_))
         _GLIBCXX_DEMANGLER_FAILURE;
       _GLIBCXX_DEMANGLER_RETURN;
     case 'C': // GNU extension?
@@ -2499,9 +2495,7 @@ bool session<Allocator>::decode_special_name(string_type& output)
         output += "virtual thunk to ";
       else
         output += "non-virtual thunk to ";
-      if (!decode_call_offset(output) ||
-          (pos_ += decode_encoding(output, str_ + pos_, maxpos_ - pos_ + 1, implementation_details_,
-                                   recursion_depth_ + 1)) < 0)
+      if (!decode_call_offset(output) || !decode_nested_encoding(output, pos_))
         _GLIBCXX_DEMANGLER_FAILURE;
       _GLIBCXX_DEMANGLER_RETURN;
   }
@@ -2514,48 +2508,73 @@ bool session<Allocator>::decode_special_name(string_type& output)
 //   <data name>				# Idem.
 //   <special-name>				# Starts with 'T' or 'G'.
 template <typename Allocator>
-int session<Allocator>::decode_encoding(string_type& output, char const* in, int len, implementation_details const& id,
-                                        int recursion_depth)
+int session<Allocator>::decode_encoding(string_type& output, char const* in, int len, implementation_details const& id)
 {
 #if _GLIBCXX_DEMANGLER_CWDEBUG
   _GLIBCXX_DEMANGLER_DOUT(dc::demangler, "Output thus far: \"" << output << '"');
   string_type input(in, len > 0x40000000 ? strlen(in) : len);
   _GLIBCXX_DEMANGLER_DOUT(dc::demangler, "Entering decode_encoding(\"" << input << "\")");
 #endif
-  if (len <= 0 || recursion_depth > max_recursion_depth_c)
+  if (len <= 0)
     return INT_MIN;
-  session<Allocator> demangler_session(in, len, id, recursion_depth);
+  session<Allocator> demangler_session(in, len, id);
+  if (!demangler_session.decode_encoding(output))
+    return INT_MIN;
+  return demangler_session.pos_;
+}
+
+// Decode an <encoding> that is a part of the name that is being decoded, starting at start_pos.
+//
+// It has template arguments of its own, but uses the same substitutions.
+template <typename Allocator>
+bool session<Allocator>::decode_nested_encoding(string_type& output, int start_pos)
+{
+  session<Allocator> nested_session(str_, maxpos_ + 1, implementation_details_);
+  nested_session.pos_ = start_pos;
+  nested_session.inside_substitution_ = inside_substitution_;
+  nested_session.recursion_depth_ = recursion_depth_ + 1;
+  nested_session.substitutions_pos_.swap(substitutions_pos_);
+  bool success = nested_session.recursion_depth_ <= max_recursion_depth_c && nested_session.decode_encoding(output);
+  nested_session.substitutions_pos_.swap(substitutions_pos_);
+  pos_ = nested_session.pos_;
+  if (!success)
+    result_ = false;
+  return success;
+}
+
+template <typename Allocator>
+bool session<Allocator>::decode_encoding(string_type& output)
+{
   string_type nested_name_qualifiers;
   int saved_pos;
-  demangler_session.store(saved_pos);
-  if (demangler_session.decode_special_name(output))
-    return demangler_session.pos_;
-  demangler_session.restore(saved_pos);
+  store(saved_pos);
+  if (decode_special_name(output))
+    return true;
+  restore(saved_pos);
   string_type name;
-  if (!demangler_session.decode_name(name, nested_name_qualifiers))
-    return INT_MIN;
-  if (demangler_session.current() == 0 || demangler_session.current() == 'E')
+  if (!decode_name(name, nested_name_qualifiers))
+    return false;
+  if (current() == 0 || current() == 'E')
   {
     output += name;
     output += nested_name_qualifiers;
-    return demangler_session.pos_;
+    return true;
   }
   // Must have been a <function name>.
   string_type return_type_postfix;
-  if (demangler_session.name_is_template_ &&
-      !(demangler_session.name_is_cdtor_ || demangler_session.name_is_conversion_operator_))
+  if (name_is_template_ && !(name_is_cdtor_ || name_is_conversion_operator_))
   {
     // Return type of function
-    if (!demangler_session.decode_type_with_postfix(output, return_type_postfix))
-      return INT_MIN;
+    if (!decode_type_with_postfix(output, return_type_postfix))
+      return false;
     output += ' ';
   }
   output += name;
-  if (!demangler_session.decode_bare_function_type(output))
-    return INT_MIN;
+  if (!decode_bare_function_type(output))
+    return false;
   output += nested_name_qualifiers;
   output += return_type_postfix;
-  return demangler_session.pos_;
+  return true;
 }
 
 } // namespace demangler
-- 
2.43.0


From f8d31005e142db5f4838e9e98a4e304b88b478c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:20 +0000
Subject: [PATCH 06/59] fix: a template parameter is a substitution whatever
 its argument

When the argument of T_ was a function pointer then T_ was not added to the
substitutions, so that all following ones were off by one, as in
_Z3retIPFiiEET_S2_.
---
 include/cwd_demangle.h | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index f4cf66d..11f8b89 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -1963,30 +1963,36 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
         break;
       }
       case 'T':
+      {
+        int end_pos = pos_ + 1;
+        while (end_pos < maxpos_ && isdigit(str_[end_pos]))
+          ++end_pos;
+        bool is_template_template_param = end_pos < maxpos_ && str_[end_pos + 1] == 'I';
+        // This substitution precedes those of the qualifiers. When the template argument is
+        // a function (pointer) then those are added while decoding that argument.
+        if (!recursive_template_param_or_substitution_call)
+          add_substitution(start_pos, is_template_template_param ? template_template_param : type);
+        // substitution: "<template-template-param>" or "<template-param>".
         if (!decode_template_param(prefix, qualifiers))
         {
           failure = true;
           break;
         }
-        if (current() == 'I')
+        if (is_template_template_param && !decode_template_args(prefix))
         {
-          add_substitution(start_pos, template_template_param);
-          // substitution: "<template-template-param>".
-          if (!decode_template_args(prefix))
-          {
-            failure = true;
-            break;
-          }
+          failure = true;
+          break;
         }
         if (!recursive_template_param_or_substitution_call && qualifiers->suppressed())
         {
-          add_substitution(start_pos, type);
-          // substitution: "<template-param>" or
-          // "<template-template-param> <template-args>".
+          if (is_template_template_param)
+            add_substitution(start_pos, type);
+          // substitution: "<template-template-param> <template-args>".
           qualifiers->decode_qualifiers(prefix, postfix);
           // substitution: all qualified types, if any.
         }
         break;
+      }
       case 'S':
         if (pos_ >= maxpos_)
         {
-- 
2.43.0


From c873be43b665675f378adcfcdd6f21400d5a383c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:29 +0000
Subject: [PATCH 07/59] fix: demangle substitutions of a nested name that
 starts with a template parameter

As in _Z1fI1AEvNT_1BENS1_1DE, which was not demangled.
---
 include/cwd_demangle.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 11f8b89..cab772c 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -804,6 +804,11 @@ bool session<Allocator>::decode_substitution(string_type& output, qualifier_list
             if (!decode_substitution(output))
               _GLIBCXX_DEMANGLER_FAILURE;
           }
+          else if (current() == 'T')
+          {
+            if (!decode_template_param(output))
+              _GLIBCXX_DEMANGLER_FAILURE;
+          }
           else if (!decode_unqualified_name(output))
             _GLIBCXX_DEMANGLER_FAILURE;
         }
-- 
2.43.0


From e34731660a6471b3688fd4128b5e5442319c8dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:52 +0000
Subject: [PATCH 08/59] fix: place the parameters of a function type that is a
 substitution

A function or array type that was given by a substitution or template
parameter as a return type lost its declarator syntax, as in
_Z1hPFviERS_PFS0_iE: void (*)(int) (*)(int).
---
 include/cwd_demangle.h | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index cab772c..205abf8 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -403,9 +403,11 @@ class session
   bool decode_number(string_type& output);
   bool decode_operator_name(string_type& output);
   bool decode_source_name(string_type& output);
-  bool decode_substitution(string_type& output, qualifier_list<Allocator>* qualifiers = NULL);
+  bool decode_substitution(string_type& output, qualifier_list<Allocator>* qualifiers = NULL,
+                           string_type* postfix = NULL);
   bool decode_template_args(string_type& output);
-  bool decode_template_param(string_type& output, qualifier_list<Allocator>* qualifiers = NULL);
+  bool decode_template_param(string_type& output, qualifier_list<Allocator>* qualifiers = NULL,
+                             string_type* postfix = NULL);
   bool decode_unqualified_name(string_type& output);
   bool decode_unscoped_name(string_type& output);
   bool decode_non_negative_decimal_integer(string_type& output);
@@ -652,7 +654,8 @@ bool session<Allocator>::decode_class_enum_type(string_type& output)
 //       [<seq-id>]	# Base 36 number
 //
 template <typename Allocator>
-bool session<Allocator>::decode_substitution(string_type& output, qualifier_list<Allocator>* qualifiers)
+bool session<Allocator>::decode_substitution(string_type& output, qualifier_list<Allocator>* qualifiers,
+                                             string_type* postfix)
 {
   _GLIBCXX_DEMANGLER_DOUT_ENTERING("decode_substitution");
   RecursionGuard recursion_guard(recursion_depth_);
@@ -778,7 +781,10 @@ bool session<Allocator>::decode_substitution(string_type& output, qualifier_list
   switch (substitution.type)
   {
     case type:
-      decode_type(output, qualifiers);
+      if (postfix)
+        decode_type_with_postfix(output, *postfix, qualifiers);
+      else
+        decode_type(output, qualifiers);
       break;
     case template_template_param:
       decode_template_param(output, qualifiers);
@@ -831,7 +837,8 @@ bool session<Allocator>::decode_substitution(string_type& output, qualifier_list
 //                  ::= T <parameter-2 non-negative number> _
 //
 template <typename Allocator>
-bool session<Allocator>::decode_template_param(string_type& output, qualifier_list<Allocator>* qualifiers)
+bool session<Allocator>::decode_template_param(string_type& output, qualifier_list<Allocator>* qualifiers,
+                                               string_type* postfix)
 {
   _GLIBCXX_DEMANGLER_DOUT_ENTERING("decode_template_parameter");
   if (current() != 'T')
@@ -864,6 +871,8 @@ bool session<Allocator>::decode_template_param(string_type& output, qualifier_li
   }
   else if (current() == 'L')
     decode_literal(output);
+  else if (postfix)
+    decode_type_with_postfix(output, *postfix, qualifiers);
   else
     decode_type(output, qualifiers);
   --inside_substitution_;
@@ -1978,7 +1987,7 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
         if (!recursive_template_param_or_substitution_call)
           add_substitution(start_pos, is_template_template_param ? template_template_param : type);
         // substitution: "<template-template-param>" or "<template-param>".
-        if (!decode_template_param(prefix, qualifiers))
+        if (!decode_template_param(prefix, qualifiers, &postfix))
         {
           failure = true;
           break;
@@ -2006,7 +2015,7 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
         }
         if (str_[pos_ + 1] != 't')
         {
-          if (!decode_substitution(prefix, qualifiers))
+          if (!decode_substitution(prefix, qualifiers, &postfix))
           {
             failure = true;
             break;
-- 
2.43.0


From 2d4f8ced19bd5a4eeb5eab996781b05cd24f7e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:16 +0000
Subject: [PATCH 09/59] fix: demangle pointers to const or volatile data
 members

The qualifiers of the member were taken for those of a member function,
so that for example _Z1fM1CKi was not demangled.
---
 include/cwd_demangle.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 205abf8..e5a9e56 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -1847,8 +1847,11 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
           break;
         }
         char c = current();
-        if (c == 'F' || c == 'K' || c == 'V' || c == 'r')
-        // Must be CV-qualifiers and a member function pointer.
+        int type_pos = pos_;
+        while (type_pos < maxpos_ && (str_[type_pos] == 'K' || str_[type_pos] == 'V' || str_[type_pos] == 'r'))
+          ++type_pos;
+        if (type_pos <= maxpos_ && str_[type_pos] == 'F')
+        // Must be CV-qualifiers, if any, and a member function pointer.
         {
           // <Q>M<C><Q2>F<R><B>E	==> R (C::*Q)B Q2
           //     substitutions: "<C>", "F<R><B>E" (<R> and <B>
-- 
2.43.0


From 09e294bfe93cedd879debb3d283fbcd1ae7bfe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:47 +0000
Subject: [PATCH 10/59] fix: do not print the dimensions of an array twice

decode_KVrA did not stop at the first qualifier that is not part of the
series because _GLIBCXX_DEMANGLER_RETURN3 expanded to nothing, so that an
array of pointers to arrays got its dimensions twice, as in _Z1fA1_PA2_i.
---
 include/cwd_demangle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index e5a9e56..4f4bb20 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -22,7 +22,7 @@
 #define _GLIBCXX_DEMANGLER_DOUT_ENTERING3(...)
 #define _GLIBCXX_DEMANGLER_RETURN return result_
 #define _GLIBCXX_DEMANGLER_RETURN2 return result_
-#define _GLIBCXX_DEMANGLER_RETURN3
+#define _GLIBCXX_DEMANGLER_RETURN3 return
 #define _GLIBCXX_DEMANGLER_FAILURE \
   do                               \
   {                                \
-- 
2.43.0


From c32af1b3fd8645381a5c19689e5ad345ab63a466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:56 +0000
Subject: [PATCH 11/59] fix: print the qualifiers of a local member function
 behind its parameters

_ZZ1fvENK1C1gEv was demangled as f()::C::g const().
---
 include/cwd_demangle.h | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 4f4bb20..c44100e 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -397,7 +397,7 @@ class session
   bool decode_class_enum_type(string_type& output);
   bool decode_expression(string_type& output);
   bool decode_literal(string_type& output);
-  bool decode_local_name(string_type& output);
+  bool decode_local_name(string_type& output, string_type& qualifiers);
   bool decode_name(string_type& output, string_type& nested_name_qualifiers);
   bool decode_nested_name(string_type& output, string_type& qualifiers);
   bool decode_number(string_type& output);
@@ -2193,7 +2193,7 @@ bool session<Allocator>::decode_nested_name(string_type& output, string_type& qu
 // <discriminator> := _ <non-negative number>
 //
 template <typename Allocator>
-bool session<Allocator>::decode_local_name(string_type& output)
+bool session<Allocator>::decode_local_name(string_type& output, string_type& qualifiers)
 {
   _GLIBCXX_DEMANGLER_DOUT_ENTERING("decode_local_name");
   if (current() != 'Z' || pos_ >= maxpos_)
@@ -2206,13 +2206,8 @@ bool session<Allocator>::decode_local_name(string_type& output)
     eat_current();
     output += "string literal";
   }
-  else
-  {
-    string_type nested_name_qualifiers;
-    if (!decode_name(output, nested_name_qualifiers))
-      _GLIBCXX_DEMANGLER_FAILURE;
-    output += nested_name_qualifiers;
-  }
+  else if (!decode_name(output, qualifiers))
+    _GLIBCXX_DEMANGLER_FAILURE;
   string_type discriminator;
   if (current() == '_' && next() != 'n' && !decode_number(discriminator))
     _GLIBCXX_DEMANGLER_FAILURE;
@@ -2373,7 +2368,7 @@ bool session<Allocator>::decode_name(string_type& output, string_type& nested_na
   }
   else if (current() == 'Z')
   {
-    decode_local_name(output);
+    decode_local_name(output, nested_name_qualifiers);
     _GLIBCXX_DEMANGLER_RETURN;
   }
   else if (!decode_unscoped_name(output))
-- 
2.43.0


From acde7907736e4374fadcf3af4e8435f4a3d09682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 12/59] fix: demangle the operator that casts to a standard
 string or stream

The type of the cast overwrote the name of the operator, so that for example
_ZN1CcvSsEv was demangled as C::string().
---
 include/cwd_demangle.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index c44100e..bdd524f 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -2281,12 +2281,15 @@ bool session<Allocator>::decode_unqualified_name(string_type& output)
   }
   else if (islower(current()))
   {
-    function_name_.clear();
     name_is_template_ = false;
     name_is_cdtor_ = false;
     name_is_conversion_operator_ = false;
-    if (!decode_operator_name(function_name_))
+    // The type of a cast operator also assigns to function_name_.
+    string_type operator_name;
+    if (!decode_operator_name(operator_name))
       _GLIBCXX_DEMANGLER_FAILURE;
+    function_name_ = operator_name;
+    name_is_cdtor_ = false;
     output += function_name_;
   }
   else if (current() == 'C' || current() == 'D')
-- 
2.43.0


From 27ae9228b62ab1c3166dd70f23af377869ee7a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 13/59] fix: a discriminator is a single digit or enclosed in
 underscores

A discriminator that was followed by a name swallowed the length of that name,
as in _Z1gIZ1hvE1C_11DEvT_T0_.
---
 include/cwd_demangle.h | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index bdd524f..fd4bbab 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -2190,7 +2190,8 @@ bool session<Allocator>::decode_nested_name(string_type& output, string_type& qu
 
 // <local-name> := Z <function encoding> E <entity name> [<discriminator>]
 //              := Z <function encoding> E s [<discriminator>]
-// <discriminator> := _ <non-negative number>
+// <discriminator> := _ <digit>
+//                 := __ <non-negative number> _
 //
 template <typename Allocator>
 bool session<Allocator>::decode_local_name(string_type& output, string_type& qualifiers)
@@ -2208,9 +2209,27 @@ bool session<Allocator>::decode_local_name(string_type& output, string_type& qua
   }
   else if (!decode_name(output, qualifiers))
     _GLIBCXX_DEMANGLER_FAILURE;
-  string_type discriminator;
-  if (current() == '_' && next() != 'n' && !decode_number(discriminator))
-    _GLIBCXX_DEMANGLER_FAILURE;
+  if (current() == '_')
+  {
+    if (next() == '_')
+    {
+      string_type discriminator;
+      eat_current();
+      if (!decode_non_negative_decimal_integer(discriminator) || eat_current() != '_')
+        _GLIBCXX_DEMANGLER_FAILURE;
+    }
+    else
+    {
+      if (!isdigit(eat_current()))
+        _GLIBCXX_DEMANGLER_FAILURE;
+      // Old compilers wrote any number here; that is not ambiguous at the end of the name.
+      int end_pos = pos_;
+      while (end_pos <= maxpos_ && isdigit(str_[end_pos]))
+        ++end_pos;
+      if (end_pos > maxpos_)
+        pos_ = end_pos;
+    }
+  }
   _GLIBCXX_DEMANGLER_RETURN;
 }
 
-- 
2.43.0


From 4d512310526dd24186d6934a5e3d783107ca7b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:17 +0000
Subject: [PATCH 14/59] fix: a templated cast operator to a pointer keeps its
 template arguments

_ZN1CcvT_IPiEEv was demangled as C::operator int<int*>*().
---
 include/cwd_demangle.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index fd4bbab..c8b78dd 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -1194,8 +1194,12 @@ bool session<Allocator>::decode_operator_name(string_type& output)
           // to the template argument.
           template_arg_pos_offset_ = template_arg_pos_.size();
           template_arg_pos_.push_back(pos_ + 3);
+          // The template arguments that follow are those of the operator.
+          add_substitution(pos_, type);
+          if (!decode_template_param(output))
+            _GLIBCXX_DEMANGLER_FAILURE;
         }
-        if (!decode_type(output))
+        else if (!decode_type(output))
           _GLIBCXX_DEMANGLER_FAILURE;
         if (!inside_template_args_)
           name_is_conversion_operator_ = true;
-- 
2.43.0


From 3e08255a8b5eab5151631e00725b61aa4d588954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 15/59] fix: the complement operator is unary

An expression with operator~ was not demangled, as in _Z1gIiE1TIXcoLi0EEEi.
---
 include/cwd_demangle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index c8b78dd..738ec6f 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -1138,7 +1138,7 @@ Entry const symbol_name_table_c[39] = {{"aa", "operator&&", binary},       {"na"
                                        {"de", "operator*", unary},         {"ml=", "operator*", binary},
                                        {"mm", "operator--", unary},        {"cl", "operator()", unary},
                                        {"cm", "operator,", binary},        {"an=", "operator&", binary},
-                                       {"co", "operator~", binary},        {"dl", "operator delete", unary},
+                                       {"co", "operator~", unary},         {"dl", "operator delete", unary},
                                        {"ls=", "operator<<", binary},      {"lt", "operator<", binary},
                                        {"as=", "operator", binary},        {"ge", "operator>=", binary},
                                        {"nt", "operator!", unary},         {"rm=", "operator%", binary},
-- 
2.43.0


From 867e9b89dbe69bb931f67eb5818d614199f452a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 16/59] fix: decode the arguments of a templated cast operator
 once

---
 include/cwd_demangle.h | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 738ec6f..b88db3f 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -298,6 +298,7 @@ class session
   bool name_is_conversion_operator_;
   bool template_args_need_space_;
   int recursion_depth_;
+  unsigned int conversion_param_; // One more than the template parameter that a cast operator casts to.
   string_type function_name_;
   using int_Allocator = typename allocator_rebind<Allocator>::template alloc<int>;
   using subst_Allocator = typename allocator_rebind<Allocator>::template alloc<Substitution>;
@@ -340,6 +341,7 @@ class session
       name_is_conversion_operator_(false),
       template_args_need_space_(false),
       recursion_depth_(0),
+      conversion_param_(0),
       template_arg_pos_offset_(0),
       implementation_details_(id)
 #if _GLIBCXX_DEMANGLER_CWDEBUG
@@ -1190,14 +1192,20 @@ bool session<Allocator>::decode_operator_name(string_type& output)
         {
           // This is a templated cast operator.
           // It must be of the form "cvT_I...E".
-          // Let template_arg_pos_ already point
-          // to the template argument.
-          template_arg_pos_offset_ = template_arg_pos_.size();
-          template_arg_pos_.push_back(pos_ + 3);
-          // The template arguments that follow are those of the operator.
+          // The template arguments that follow are those of the operator;
+          // decode_template_args inserts the one that is the type here.
           add_substitution(pos_, type);
-          if (!decode_template_param(output))
+          unsigned int value = 0;
+          char c = next();
+          if (c != '_')
+          {
+            for (; isdigit(c); c = next())
+              value = value * 10 + c - '0';
+            ++value;
+          }
+          if (eat_current() != '_' || current() != 'I' || inside_template_args_)
             _GLIBCXX_DEMANGLER_FAILURE;
+          conversion_param_ = value + 1;
         }
         else if (!decode_type(output))
           _GLIBCXX_DEMANGLER_FAILURE;
@@ -1416,6 +1424,10 @@ bool session<Allocator>::decode_template_args(string_type& output)
   if (eat_current() != 'I')
     _GLIBCXX_DEMANGLER_FAILURE;
   int prev_size = template_arg_pos_.size();
+  unsigned int conversion_param = conversion_param_;
+  conversion_param_ = 0;
+  typename string_type::size_type args_start = output.size();
+  string_type conversion_type;
   ++inside_template_args_;
   if (template_args_need_space_)
   {
@@ -1427,6 +1439,7 @@ bool session<Allocator>::decode_template_args(string_type& output)
   {
     if (inside_template_args_ == 1 && !inside_type_)
       template_arg_pos_.push_back(pos_);
+    typename string_type::size_type arg_start = output.size();
     if (current() == 'X')
     {
       eat_current();
@@ -1446,14 +1459,19 @@ bool session<Allocator>::decode_template_args(string_type& output)
     }
     else if (!decode_type(output))
       _GLIBCXX_DEMANGLER_FAILURE;
+    if (conversion_param > 0 && --conversion_param == 0)
+      conversion_type.assign(output, arg_start, string_type::npos);
     if (current() == 'E')
       break;
     output += ", ";
   }
+  if (conversion_param > 0) // There is no such template argument.
+    _GLIBCXX_DEMANGLER_FAILURE;
   eat_current();
   if (*(output.rbegin()) == '>')
     output += ' ';
   output += '>';
+  output.insert(args_start, conversion_type);
   --inside_template_args_;
   if (!inside_template_args_ && !inside_type_)
   {
-- 
2.43.0


From 26d4c9b21e60fcf2a8f60b4c523daac7a14313bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:28 +0000
Subject: [PATCH 17/59] fix: a constructor without a class is not a valid name

---
 include/cwd_demangle.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index b88db3f..8a8fbd5 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -2343,6 +2343,8 @@ bool session<Allocator>::decode_unqualified_name(string_type& output)
     //   D1	# complete object (in-charge) destructor
     //   D2	# base object (not-in-charge) destructor
     //
+    if (function_name_.empty()) // There is no class that this is the constructor or destructor of.
+      _GLIBCXX_DEMANGLER_FAILURE;
     if (current() == 'C')
     {
       char c = next();
-- 
2.43.0


From cc6d7ab5cc2b3f9f7088f419d0894b627aa9eda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:10 +0000
Subject: [PATCH 18/59] fix: print the value of subnormal floating point
 literals

---
 src/demangle.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/demangle.cxx b/src/demangle.cxx
index 9e41fd8..0dd74ca 100644
--- a/src/demangle.cxx
+++ b/src/demangle.cxx
@@ -174,6 +174,7 @@ class decimal_float
   void set_2pow(int power);
   void set_expstart(int expsize);
   void set_zero();
+  bool is_less_than(unsigned long most_significant) const { return data_.mantissa[mantissa_size_c - 1] < most_significant; }
   void divide_by_two(bool decrement_exponent);
   bool decrement_exponent();
   decimal_float& operator+=(decimal_float const& term);
@@ -616,7 +617,9 @@ void print_IEEE_fp(char* buf, unsigned long* words, int nbits_exponent, int nbit
   {
     if ((*words & mask))
       result += bit;
-    bool success = result.decrement_exponent();
+    // A fraction that is not normalized can be less than `bit'. Then leave room for `bit' times five and for
+    // the sum of `result' times ten and all bits that follow.
+    bool success = bit.is_less_than(1000) && result.is_less_than(500) && result.decrement_exponent();
     bit.divide_by_two(success); // Keep exponents equal for easy addition.
     if (!(mask >>= 1))
     {
-- 
2.43.0


From 883b0314dc94b6abd74659c52d7b7fdebbea7293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 19/59] fix: do not read beyond the end of a channel mask

match() compared the character behind the mask when the name was longer.
---
 src/utils/match.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/match.cxx b/src/utils/match.cxx
index 236f5dd..5bba956 100644
--- a/src/utils/match.cxx
+++ b/src/utils/match.cxx
@@ -18,6 +18,8 @@ bool match(char const* mask, size_t masklen, char const* name)
           return false;
       return true;
     }
+    if (masklen == 0)	// The whole mask was used but there is more of the name.
+      return false;
     if (*m == '*')
       break;
     if (*n++ != *m++)
-- 
2.43.0


From 24bcca8124969e0ef5b101dff8ed4e7b5bfe2aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 20/59] fix: add the error numbers above EDQUOT to the errno
 names

---
 src/strerrno.cxx | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/strerrno.cxx b/src/strerrno.cxx
index f32a167..ea46d60 100644
--- a/src/strerrno.cxx
+++ b/src/strerrno.cxx
@@ -133,7 +133,18 @@ char const* const strerrno_table_c[] = {
     "ENAVAIL", /* No XENIX semaphores available */
     "EISNAM", /* Is a named type file */
     "EREMOTEIO", /* Remote I/O error */
-    "EDQUOT" /* Quota exceeded */
+    "EDQUOT", /* Quota exceeded */
+    "ENOMEDIUM", /* No medium found */
+    "EMEDIUMTYPE", /* Wrong medium type */
+    "ECANCELED", /* Operation Canceled */
+    "ENOKEY", /* Required key not available */
+    "EKEYEXPIRED", /* Key has expired */
+    "EKEYREVOKED", /* Key has been revoked */
+    "EKEYREJECTED", /* Key was rejected by service */
+    "EOWNERDEAD", /* Owner died */
+    "ENOTRECOVERABLE", /* State not recoverable */
+    "ERFKILL", /* Operation not possible due to RF-kill */
+    "EHWPOISON" /* Memory page has hardware error */
 };
 
 } // namespace
-- 
2.43.0


From 2c81521a42165005fe997d41264953b0ee8662ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:01 +0000
Subject: [PATCH 21/59] fix: exact type names of arrays with qualified elements
 and of names that look like a substitution

type_info_of<char const(&)[6]>() and type_info_of<void(*)(A, XS, A)>() failed an assertion.
---
 src/type_info.cxx | 66 ++++++++++++++---------------------------------
 1 file changed, 20 insertions(+), 46 deletions(-)

diff --git a/src/type_info.cxx b/src/type_info.cxx
index 35fc28a..0c5dc27 100644
--- a/src/type_info.cxx
+++ b/src/type_info.cxx
@@ -32,62 +32,36 @@ char const* extract_exact_name(char const* encap_mangled_name)
   return exact_name;
 }
 #else
-char const* skip_substitution(char const* const ptr, char const* const begin)
-{
-  char const* S_ptr = ptr;
-  // S_ptr now points to a trailing '_'.
-  for (int digits = 0; S_ptr > begin && digits < 3; ++digits)
-  {
-    --S_ptr;
-    // All legal substitution patterns have the form "S[0-9A-Z]*_" where we
-    // limit the number of base-36 digits to two (because it seems extremely
-    // unlikely that there are more than 1296 substitutions).
-    //
-    // We allow "SS_" where the second S is a digit; but not "SSS_" because
-    // it's already unlikely to have 841 substitutions, too.
-    if (*S_ptr == 'S' && (digits > 0 || S_ptr[-1] != 'S'))
-      return S_ptr;
-    // Substitutions use base-36 with 'digits' [0-9A-Z].
-    if (!('0' <= *S_ptr && *S_ptr <= '9') && !('A' <= *S_ptr && *S_ptr <= 'Z'))
-      break;
-  }
-  return ptr;
-}
-
 // As an example, the input could be:
 //
 // encap_mangled_name =
 // 22libcwd_type_info_exactIRKN4evio14AcceptedSocketI23MyAcceptedSocketDecoderNS0_12OutputStreamEEEE
-// stripped_mangled_name =                         N4evio14AcceptedSocketI23MyAcceptedSocketDecoderNS _12OutputStreamEEE
-// where the space in the latter is not really there (just added for alignment)               -------^
+// stripped_mangled_name =    N4evio14AcceptedSocketI23MyAcceptedSocketDecoderNS_12OutputStreamEEE
+//
+// Apart from a reference and the top level CV-qualifiers, typeid() also ignores those of the elements of an array:
+//
+// encap_mangled_name =    22libcwd_type_info_exactIRA3_A4_KiE
+// stripped_mangled_name =                           A3_A4_i
 char const* extract_exact_name(char const* encap_mangled_name, char const* stripped_mangled_name)
 {
   encap_mangled_name += 25; // Strip "22libcwd_type_info_exactI" from the beginning.
   // encap_mangled_name now points to the qualifiers string (if any) "RK".
-  char const* encap_ptr = encap_mangled_name + strlen(encap_mangled_name) - 1;
-  // encap_ptr now points to the last E of encap_mangled_name.
-  size_t len = strlen(stripped_mangled_name);
-  char const* ptr = stripped_mangled_name + len;
-  // ptr now points to the terminating zero of stripped_mangled_name.
-  while (ptr > stripped_mangled_name)
+  size_t const qlen = strspn(encap_mangled_name, "ROrVK");
+  // Skip the array dimensions (if any). There are no substitutions yet at this point.
+  char const* elem_ptr = stripped_mangled_name;
+  while (*elem_ptr == 'A')
   {
-    --ptr;
-    --encap_ptr;
-    LIBCWD_ASSERT(*ptr == *encap_ptr); // This is how we assume the encapsulation works!
-    if (*ptr == '_')
-    {
-      // Now we want to put both pointers on the 'S',
-      // but only if this could be a substitution.
-      ptr = skip_substitution(ptr, stripped_mangled_name);
-      encap_ptr = skip_substitution(encap_ptr, encap_mangled_name);
-    }
+    char const* dim_end = strchr(elem_ptr, '_');
+    LIBCWD_ASSERT(dim_end);
+    elem_ptr = dim_end + 1;
   }
-  // ptr is now equal to stripped_mangled_name, and encap_ptr points to the first character after the qualifiers.
-  size_t qlen = encap_ptr - encap_mangled_name;
-  char* exact_name = new char[qlen + len + 1]; // LEAK58
-  // Add the qualifiers to the mangled name:
-  strncpy(exact_name, encap_mangled_name, qlen);
-  strcpy(exact_name + qlen, stripped_mangled_name);
+  size_t const dlen = elem_ptr - stripped_mangled_name;
+  LIBCWD_ASSERT(strncmp(encap_mangled_name + qlen, stripped_mangled_name, dlen) == 0);
+  size_t const clen = dlen ? strspn(encap_mangled_name + qlen + dlen, "rVK") : 0;
+  char* exact_name = new char[qlen + dlen + clen + strlen(elem_ptr) + 1]; // LEAK58
+  // Add the qualifiers and the array dimensions to the mangled name:
+  memcpy(exact_name, encap_mangled_name, qlen + dlen + clen);
+  strcpy(exact_name + qlen + dlen + clen, elem_ptr);
   return exact_name;
 }
 #endif
-- 
2.43.0


From 6d4ed0fb269e4fe5db338ff0ec7ae44d3dd4ffb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:01 +0000
Subject: [PATCH 22/59] fix: report the size pointed to for cv-qualified
 pointers

---
 include/libcwd/type_info.h | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/include/libcwd/type_info.h b/include/libcwd/type_info.h
index 92021cc..f538aeb 100644
--- a/include/libcwd/type_info.h
+++ b/include/libcwd/type_info.h
@@ -44,6 +44,31 @@ struct sizeof_ref
 template <typename T>
 size_t sizeof_ref_v = sizeof_ref<T>::value;
 
+// The size of what a (cv-qualified) pointer T points to, or 0 when T is not a pointer.
+template <typename T>
+struct sizeof_pointee
+{
+  static constexpr size_t value = 0;
+};
+
+template <typename T>
+struct sizeof_pointee<T* const> : sizeof_ref<T>
+{
+};
+
+template <typename T>
+struct sizeof_pointee<T* volatile> : sizeof_ref<T>
+{
+};
+
+template <typename T>
+struct sizeof_pointee<T* const volatile> : sizeof_ref<T>
+{
+};
+
+template <typename T>
+constexpr size_t sizeof_pointee_v = sizeof_pointee<T>::value;
+
 } // namespace _private_
 
 /**
@@ -150,7 +175,7 @@ TypeInfo const& type_info<T>::value()
 {
   if (!s_initialized_)
   {
-    s_value_.init(typeid(T).name(), sizeof(T), 0);
+    s_value_.init(typeid(T).name(), sizeof(T), sizeof_pointee_v<T>);
     s_initialized_ = true;
   }
   return s_value_;
@@ -232,7 +257,7 @@ template <typename T>
           typeid(libcwd_type_info_exact<T>).name(),
           typeid(T).name()),
         sizeof(T),
-        0);
+        ::libcwd::_private_::sizeof_pointee_v<T>);
     s_initialized_ = true;
   }
   return s_value_;
-- 
2.43.0


From fb301f567442997e89ad6660fd14b1532a746040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:17 +0000
Subject: [PATCH 23/59] fix: write an interrupted message to its own stream

---
 src/debug.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index ce7ed2a..49e9f8c 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -922,7 +922,7 @@ void DebugObject_ThreadSpecificData::start(DebugObject& debug_object,
 #endif
     int saved_errno = errno; // The writeto below changes errno.
     // And write out what is in the buffer till now.
-    std::ostream* target_os = (channel_set.mask & cerr_cf) ? &std::cerr : nullptr;
+    std::ostream* target_os = (current->mask & cerr_cf) ? &std::cerr : nullptr;
     current->buffer.writeto(
         target_os, LIBCWD_TSD, debug_object,
         true, // This thread requests an <unfinished> because of previous, unfinished 'continued' output.
-- 
2.43.0


From 71cbb95c5996a5c6e33fef1f3908b3c11f1aea9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:17 +0000
Subject: [PATCH 24/59] fix: write every message that is nested in cerr_cf
 output to cerr

---
 src/debug.cxx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index 49e9f8c..7fdc0f4 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -959,12 +959,13 @@ void DebugObject_ThreadSpecificData::start(DebugObject& debug_object,
 
     // Indent nested debug output with 4 extra spaces.
     indent += 4;
-
-    // If the previous target was written to cerr, then
-    // write this interrupting output to cerr too.
-    channel_set.mask |= (current->mask & cerr_cf);
   }
 
+  // If the previous target was written to cerr, then
+  // write this interrupting output to cerr too.
+  // MT: if current == _private_::WST_dummy_output_state then current->mask is 0.
+  channel_set.mask |= (current->mask & cerr_cf);
+
   // Create a new output state.
   DEBUGDEBUG_CERR("creating new OutputState");
   current = new OutputState(channel_set.mask, channel_set.label, errno); // LEAK5: This allocation + Location.
-- 
2.43.0


From 2f82b34cad42f329bf23c27c713b4daf4604ba9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:57 +0000
Subject: [PATCH 25/59] fix: only turn the channel WARNING on by default

---
 src/debug.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index 7fdc0f4..b2c1ba1 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -514,7 +514,7 @@ void DebugChannels::initialize_channel(Channel& channel, char const* label, LIBC
   channel.initialize(channels_w, label, label_len);
 
   // Turn debug channel "WARNING" on by default.
-  __libcwd_tsd.off_cnt_array[channel.index()] = strncmp(channel.get_label(), "WARNING", label_len) == 0 ? -1 : 0;
+  __libcwd_tsd.off_cnt_array[channel.index()] = strcmp(label, "WARNING") == 0 ? -1 : 0;
 
   if (add_to_channel_list)
   {
-- 
2.43.0


From 4a4b167757ac1f4d5b17857edfec2f1b15703735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:15 +0000
Subject: [PATCH 26/59] fix: a message that nests in the first part of a
 continued message does not hide later interruptions

---
 src/debug.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index b2c1ba1..fe879ed 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -1038,8 +1038,8 @@ void DebugObject_ThreadSpecificData::finish(DebugObject& debug_object,
   {
     // Allow a subsequent Dout(dc::continued (or dc::finish), ...).
     current->mask |= continued_expected_maskbit;
-    if ((current->mask & continued_maskbit))
-      unfinished_expected = true;
+    // The next message of this thread interrupts this one.
+    unfinished_expected = true;
     // If the `flush_cf' control flag is set, flush the ostream at every `finish()' though.
     if (debug_object.always_flush_is_on() || (current->mask & flush_cf) != 0)
     {
-- 
2.43.0


From 4e256af9ab43eabdf0ca844a5488388a77ce2182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:33 +0000
Subject: [PATCH 27/59] fix: do not let the indentation wrap below zero

---
 src/debug.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index fe879ed..08e8008 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -1149,7 +1149,7 @@ void DebugObject_ThreadSpecificData::finish(DebugObject& debug_object,
   if (start_expected)
   {
     // Ok, we're done with the last buffer.
-    indent -= 4;
+    indent = (indent > 4) ? indent - 4 : 0; // It might have been changed by the nested debug output.
     output_state_stack.pop();
   }
 
-- 
2.43.0


From a8215da774cf646feec832982b5aa5e3cacae2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:33 +0000
Subject: [PATCH 28/59] fix: wait_cf ends at the end of the input

---
 src/debug.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index 08e8008..cbd3cb0 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -1125,7 +1125,7 @@ void DebugObject_ThreadSpecificData::finish(DebugObject& debug_object,
       if (debug_object.interactive_)
       {
         *locked_os << std::flush;
-        while (std::cin.get() != '\n')
+        while (std::cin && std::cin.get() != '\n')
           ;
       }
       if (locked_mutex)
-- 
2.43.0


From dbc08f35e12e48bf1b1334e9c546de83e1982e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:33 +0000
Subject: [PATCH 29/59] fix: write the end of a message also when one of its
 operands failed to be written

---
 src/debug.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/debug.cxx b/src/debug.cxx
index cbd3cb0..cc1dba2 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -921,6 +921,7 @@ void DebugObject_ThreadSpecificData::start(DebugObject& debug_object,
     LIBCWD_ASSERT(current != reinterpret_cast<OutputState*>(_private_::WST_dummy_output_state));
 #endif
     int saved_errno = errno; // The writeto below changes errno.
+    current_bufferstream->clear(); // What comes next is not part of the operand that failed, if any.
     // And write out what is in the buffer till now.
     std::ostream* target_os = (current->mask & cerr_cf) ? &std::cerr : nullptr;
     current->buffer.writeto(
@@ -1033,6 +1034,9 @@ void DebugObject_ThreadSpecificData::finish(DebugObject& debug_object,
 #endif
   std::ostream* target_os = (current->mask & cerr_cf) ? &std::cerr : nullptr;
 
+  // What comes next is not part of the operands; it has to be written even if one of those failed.
+  current_bufferstream->clear();
+
   // Skip `finish()' for a `continued' debug output.
   if ((current->mask & continued_cf_maskbit) && !(current->mask & finish_maskbit))
   {
-- 
2.43.0


From 6bc47b118cbab94c824d3f424c8e5f0c79e8a368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:11 +0000
Subject: [PATCH 30/59] fix: a DebugString may contain null characters

---
 src/debug.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index cc1dba2..46bfad1 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -721,7 +721,7 @@ void DebugString::NS_internal_init(char const* str, size_t len)
   default_capacity_ = min_capacity;
   str_ = (char*)malloc((default_capacity_ = capacity_ = calculate_capacity(len)) +
                        1); // Add one for the terminating zero. LEAK46
-  strncpy(str_, str, len);
+  memcpy(str_, str, len);
   size_ = len;
   str_[size_] = 0;
 }
@@ -748,7 +748,7 @@ void DebugString::internal_assign(char const* str, size_t len)
 {
   if (len > capacity_ || (capacity_ > default_capacity_ && len < default_capacity_))
     str_ = (char*)realloc(str_, (capacity_ = calculate_capacity(len)) + 1);
-  strncpy(str_, str, len);
+  memmove(str_, str, len);
   size_ = len;
   str_[size_] = 0;
 }
@@ -757,7 +757,7 @@ void DebugString::internal_append(char const* str, size_t len)
 {
   if (size_ + len > capacity_ || (capacity_ > default_capacity_ && size_ + len < default_capacity_))
     str_ = (char*)realloc(str_, (capacity_ = calculate_capacity(size_ + len)) + 1);
-  strncpy(str_ + size_, str, len);
+  memmove(str_ + size_, str, len);
   size_ += len;
   str_[size_] = 0;
 }
@@ -767,7 +767,7 @@ void DebugString::internal_prepend(char const* str, size_t len)
   if (size_ + len > capacity_ || (capacity_ > default_capacity_ && size_ + len < default_capacity_))
     str_ = (char*)realloc(str_, (capacity_ = calculate_capacity(size_ + len)) + 1);
   memmove(str_ + len, str_, size_ + 1);
-  strncpy(str_, str, len);
+  memcpy(str_, str, len);
   size_ += len;
 }
 
-- 
2.43.0


From ebfd3f5f20d005c26a26610af7182a354a3ac652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:22 +0000
Subject: [PATCH 31/59] fix: do not write a character of the text when resuming
 a message without prefix

---
 src/debug.cxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index 46bfad1..03f3307 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -58,10 +58,9 @@ class Buffer : public std::stringbuf
   {
     streampos_t old_in_pos = this->pubseekoff(0, std::ios_base::cur, std::ios_base::in);
     this->pubseekpos(0, std::ios_base::in);
-    os->put(this->sgetc());
     int size = position_ - std::streampos(0);
-    for (int c = 1; c < size; ++c)
-      os->put(this->snextc());
+    for (int c = 0; c < size; ++c)
+      os->put(this->sbumpc());
     this->pubseekpos(old_in_pos, std::ios_base::in);
   }
 };
-- 
2.43.0


From 0a278474a2af174e8a5926d4132a3f73d77c8a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:44 +0000
Subject: [PATCH 32/59] fix: do not keep a pointer to the buffer of a message
 that ended

---
 src/debug.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/debug.cxx b/src/debug.cxx
index 03f3307..089ae00 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -177,6 +177,8 @@ void Buffer::writeto(std::ostream* os, LIBCWD_TSD_PARAM, DebugObject& debug_obje
     else
       debug_object.unfinished_oss_ = this;
   }
+  else if (possible_nonewline_cf && debug_object.unfinished_oss_ == this)
+    debug_object.unfinished_oss_ = NULL; // Everything was written before; this buffer is about to be deleted.
   if (locked_mutex)
   {
     __libcwd_tsd.lock_interface_is_locked = false;
-- 
2.43.0


From 5c00ef30071861a43beaea511e0ffbcf6be8e178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:26 +0000
Subject: [PATCH 33/59] fix: do not use the thread specific data of another
 thread, that might have ended

---
 include/libcwd/DebugObject.h                |  4 +++-
 include/libcwd/private/ThreadSpecificData.h |  1 +
 src/debug.cxx                               | 16 +++++++---------
 src/threading.cxx                           |  3 +++
 4 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/libcwd/DebugObject.h b/include/libcwd/DebugObject.h
index 913b9cc..cb88bbb 100644
--- a/include/libcwd/DebugObject.h
+++ b/include/libcwd/DebugObject.h
@@ -130,7 +130,9 @@ class DebugObject
   // Ostream destination and matching external lock, protected as one unit.
 
   Buffer* unfinished_oss_;
-  void const* newlineless_tsd_;
+  unsigned long newlineless_thread_; // The sequence number of the thread that wrote an unterminated line, or zero.
+  std::string* newlineless_color_off_; // The color_off string of that thread at that moment.
+  // Both are protected by the ostream lock.
 
  private:
   //-------------------------------------------------------------------------------------------------
diff --git a/include/libcwd/private/ThreadSpecificData.h b/include/libcwd/private/ThreadSpecificData.h
index a1afdde..c64712b 100644
--- a/include/libcwd/private/ThreadSpecificData.h
+++ b/include/libcwd/private/ThreadSpecificData.h
@@ -77,6 +77,7 @@ struct ThreadSpecificData
 #endif
   bool lock_interface_is_locked =
       false; // Set while writing debugout to the final ostream if OstreamState::mutex_ was locked.
+  unsigned long sequence_number = 0; // Uniquely identifies this thread, starting with one.
   bool recursive_fatal = false; // Detect loop involving dc::fatal or dc::core.
 #if CWDEBUG_DEBUG
   bool recursive_assert = false; // Detect loop involving LIBCWD_ASSERT.
diff --git a/src/debug.cxx b/src/debug.cxx
index 089ae00..4b97097 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -114,14 +114,9 @@ void Buffer::writeto(std::ostream* os, LIBCWD_TSD_PARAM, DebugObject& debug_obje
                 "documentation/group__group__destination.html).");
     }
   }
-  if (debug_object.newlineless_tsd_ && debug_object.newlineless_tsd_ != &__libcwd_tsd)
+  if (debug_object.newlineless_thread_ && debug_object.newlineless_thread_ != __libcwd_tsd.sequence_number)
   {
-    _private_::ThreadSpecificData const* newlineless_tsd =
-        static_cast<_private_::ThreadSpecificData const*>(debug_object.newlineless_tsd_);
-    DebugString const& color_off = newlineless_tsd->debug_object_array[debug_object.index_]->color_off;
-    size_t color_off_size = color_off.size();
-    if (color_off_size > 0)
-      locked_os->write(color_off.c_str(), color_off_size);
+    locked_os->write(debug_object.newlineless_color_off_->data(), debug_object.newlineless_color_off_->size());
     if (debug_object.unfinished_oss_)
     {
       if (debug_object.unfinished_oss_ != this)
@@ -167,11 +162,12 @@ void Buffer::writeto(std::ostream* os, LIBCWD_TSD_PARAM, DebugObject& debug_obje
   if (ends_on_newline)
   {
     debug_object.unfinished_oss_ = NULL;
-    debug_object.newlineless_tsd_ = NULL;
+    debug_object.newlineless_thread_ = 0;
   }
   else if (curlen > 0)
   {
-    debug_object.newlineless_tsd_ = &__libcwd_tsd;
+    debug_object.newlineless_thread_ = __libcwd_tsd.sequence_number;
+    debug_object.newlineless_color_off_->assign(color_off.c_str(), color_off_size);
     if (possible_nonewline_cf)
       debug_object.unfinished_oss_ = NULL;
     else
@@ -1210,6 +1206,8 @@ bool DebugObject::NS_init(LIBCWD_TSD_PARAM)
   being_initialized_ = true;
 
   unfinished_oss_ = NULL;
+  newlineless_thread_ = 0;
+  newlineless_color_off_ = new std::string;
 
 #if CWDEBUG_DEBUG
   if (!WST_debug_object_init_magic)
diff --git a/src/threading.cxx b/src/threading.cxx
index eb005ce..0ac7ddf 100644
--- a/src/threading.cxx
+++ b/src/threading.cxx
@@ -26,6 +26,8 @@ ThreadSpecificData* main_thread_tsd;
 
 namespace {
 
+std::atomic<unsigned long> last_sequence_number;
+
 thread_local ThreadSpecificData* current_tsd;
 
 // Clean up the heap-allocated TSD that belongs to the current non-main thread.
@@ -81,6 +83,7 @@ ThreadSpecificData& ThreadSpecificData::instance()
 ThreadSpecificData& ThreadSpecificData::S_create(ThreadSpecificData& real_tsd)
 {
   real_tsd.initialized_ = true;
+  real_tsd.sequence_number = ++last_sequence_number;
 
   if (!main_thread_tsd)
     main_thread_tsd = &real_tsd;
-- 
2.43.0


From bbc7249adcd8750179e02f4c4bfeecae5c92d99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:00 +0000
Subject: [PATCH 34/59] fix: do not dead lock when get_ostream is called by a
 thread that holds the stream lock

---
 include/libcwd/DebugObject.h     |  9 ++++++---
 include/libcwd/DebugObject.inl.h | 24 +++++++++++++-----------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/include/libcwd/DebugObject.h b/include/libcwd/DebugObject.h
index cb88bbb..9e6114a 100644
--- a/include/libcwd/DebugObject.h
+++ b/include/libcwd/DebugObject.h
@@ -34,10 +34,13 @@ struct OstreamState
 {
  private:
   mutable std::mutex state_mutex_; // Protects real_os_ and mutex_ as one pair.
-  std::ostream*
+  std::atomic<std::ostream*>
       real_os_{}; // The destination selected with DebugObject::set_ostream. mutex points at the user-provided lock
-  LockInterfaceBase* mutex_{}; // User-provided lock adapter for that stream, or null while the debug object is still
-                               // limited to single-threaded output.
+  std::atomic<LockInterfaceBase*>
+      mutex_{};   // User-provided lock adapter for that stream, or null while the debug object is still
+                  // limited to single-threaded output.
+                  // Both can be read (as a snapshot) without locking state_mutex_, because the thread that does so
+                  // might be holding the user-provided lock already (see LOCK ORDER).
 
  public:
   // Replace both the ostream and its lock adapter with os and new_mutex.
diff --git a/include/libcwd/DebugObject.inl.h b/include/libcwd/DebugObject.inl.h
index b74f8a9..38f8500 100644
--- a/include/libcwd/DebugObject.inl.h
+++ b/include/libcwd/DebugObject.inl.h
@@ -161,26 +161,27 @@ inline void OstreamState::set_ostream(std::ostream* os)
 
 inline std::ostream* OstreamState::read_real_os() const
 {
-  std::lock_guard<std::mutex> lock(state_mutex_);
+  // Do not lock state_mutex_ here: the caller might own the LockInterfaceBase.
   return real_os_;
 }
 
 inline bool OstreamState::has_mutex() const
 {
-  std::lock_guard<std::mutex> lock(state_mutex_);
-  return mutex_ != nullptr;
+  // Do not lock state_mutex_ here: the caller might own the LockInterfaceBase.
+  return mutex_.load() != nullptr;
 }
 
 inline std::ostream* OstreamState::get_locked_os(std::ostream* os,
                                                             LockInterfaceBase** locked_mutex_out) const
 {
   std::lock_guard<std::mutex> lock(state_mutex_);
-  std::ostream* locked_os = os ? os : real_os_;
-  *locked_mutex_out = mutex_;
-  if (mutex_)
+  std::ostream* locked_os = os ? os : real_os_.load();
+  LockInterfaceBase* mutex = mutex_;
+  *locked_mutex_out = mutex;
+  if (mutex)
   {
     // LOCK ORDER: state_mutex_ -> LockInterfaceBase
-    mutex_->lock();
+    mutex->lock();
   }
   return locked_os;
 }
@@ -190,10 +191,11 @@ inline bool OstreamState::try_lock_os(std::ostream* os, std::ostream** locked_os
 {
   std::lock_guard<std::mutex> lock(state_mutex_);
   // LOCK ORDER: state_mutex_ -> LockInterfaceBase
-  if (mutex_ && mutex_->try_lock())
+  LockInterfaceBase* mutex = mutex_;
+  if (mutex && mutex->try_lock())
     return false;
-  *locked_os_out = os ? os : real_os_;
-  *locked_mutex_out = mutex_;
+  *locked_os_out = os ? os : real_os_.load();
+  *locked_mutex_out = mutex;
   return true;
 }
 
@@ -201,7 +203,7 @@ inline void OstreamState::write_color_off_newline(std::ostream* os, char const*
                                                              std::size_t color_off_size) const
 {
   std::lock_guard<std::mutex> lock(state_mutex_);
-  std::ostream* target_os = os ? os : real_os_;
+  std::ostream* target_os = os ? os : real_os_.load();
   if (color_off_size > 0)
     target_os->write(color_off, color_off_size);
   target_os->put('\n');
-- 
2.43.0


From b0add03330f51a317fef457cb640e724524ed490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:49 +0000
Subject: [PATCH 35/59] fix: try_lock_os fails when the lock can not be
 obtained, not when it can

---
 include/libcwd/DebugObject.inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcwd/DebugObject.inl.h b/include/libcwd/DebugObject.inl.h
index 38f8500..3bde86f 100644
--- a/include/libcwd/DebugObject.inl.h
+++ b/include/libcwd/DebugObject.inl.h
@@ -192,7 +192,7 @@ inline bool OstreamState::try_lock_os(std::ostream* os, std::ostream** locked_os
   std::lock_guard<std::mutex> lock(state_mutex_);
   // LOCK ORDER: state_mutex_ -> LockInterfaceBase
   LockInterfaceBase* mutex = mutex_;
-  if (mutex && mutex->try_lock())
+  if (mutex && !mutex->try_lock())
     return false;
   *locked_os_out = os ? os : real_os_.load();
   *locked_mutex_out = mutex;
-- 
2.43.0


From 2dab42b40c6518cca245d34be0b7fdd3a905c121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:53 +0000
Subject: [PATCH 36/59] fix: turn the channel ELFUTILS off once when it is
 turned off in a rcfile

---
 src/utils/rcfile.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/rcfile.cxx b/src/utils/rcfile.cxx
index cfa1335..38bb9e0 100644
--- a/src/utils/rcfile.cxx
+++ b/src/utils/rcfile.cxx
@@ -138,7 +138,8 @@ void RcFile::process_channel(Channel& debugChannel, std::string const& mask, act
       else if (elfutils_on_ && (action == off || action == toggle))
       {
         elfutils_on_ = false;
-        debugChannel.off();
+        if (debugChannel.is_on())
+          debugChannel.off();
         __Dout(dc::rcfile, "Turned off ELFUTILS");
       }
     }
-- 
2.43.0


From 65893515012040f554062413e6550e041c9f5426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 37/59] fix: the first channels_on in an override rcfile resets
 what was turned on, also when channels are off by default

This is what the documentation says (doc/reference-manual/rcfile.md). Without it, a channels_off that
follows the channels_on turned every channel on that it did not mention.
---
 src/utils/rcfile.cxx | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/utils/rcfile.cxx b/src/utils/rcfile.cxx
index 38bb9e0..62577e3 100644
--- a/src/utils/rcfile.cxx
+++ b/src/utils/rcfile.cxx
@@ -314,11 +314,8 @@ void RcFile::read()
           if (!did_reset_channels_on_channels_on_or_off && rcfiles == 1)
           {
             bool saw_default = channels_default_set[0] != 0 || channels_default_set[1] != 0;
-            if (!saw_default || default_is_on)
-            {
-              set_all_channels_off(!saw_default);
-              did_reset_channels_on_channels_on_or_off = 1;
-            }
+            set_all_channels_off(!saw_default);
+            did_reset_channels_on_channels_on_or_off = 1;
           }
           process_channels(value, on);
         }
-- 
2.43.0


From 1b1969dd34ecfb2335b90223805277f25b380482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 38/59] fix: find the configured state of a channel also after
 the width of the labels changed

---
 src/init_functions.cxx | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/init_functions.cxx b/src/init_functions.cxx
index 4c5a344..ebc1e61 100644
--- a/src/init_functions.cxx
+++ b/src/init_functions.cxx
@@ -38,6 +38,21 @@ using rcfile_dc_states_type = std::map<std::string, bool>;
  */
 rcfile_dc_states_type rcfile_dc_states;
 
+/**
+ * The name of a debug channel: its label without the padding.
+ *
+ * @internal
+ *
+ * The labels of all channels are padded to the length of the longest label, which changes
+ * when a channel with a longer label is added.
+ */
+std::string unpadded(char const* dc_label)
+{
+  std::string name(dc_label);
+  name.erase(name.find_last_not_of(' ') + 1);
+  return name;
+}
+
 /**
  * Set the default state of debug channel @a dc_label.
  *
@@ -48,7 +63,7 @@ rcfile_dc_states_type rcfile_dc_states;
 void set_state(char const* dc_label, bool is_on)
 {
   std::pair<rcfile_dc_states_type::iterator, bool> res =
-      rcfile_dc_states.insert(rcfile_dc_states_type::value_type(std::string(dc_label), is_on));
+      rcfile_dc_states.insert(rcfile_dc_states_type::value_type(unpadded(dc_label), is_on));
   if (!res.second)
     __Dout(dc::warning, "Calling set_state() more than once for the same label!");
   return;
@@ -94,7 +109,7 @@ void save_dc_states()
  */
 bool is_on_in_rcfile(char const* dc_label)
 {
-  rcfile_dc_states_type::const_iterator iter = rcfile_dc_states.find(std::string(dc_label));
+  rcfile_dc_states_type::const_iterator iter = rcfile_dc_states.find(unpadded(dc_label));
   if (iter == rcfile_dc_states.end())
   {
     __Dout(dc::warning, "is_on_in_rcfile(\"" << dc_label << "\"): \"" << dc_label << "\" is an unknown label!");
-- 
2.43.0


From 064506db6a92a1f961f1ef9ff295238aad223137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 39/59] fix: do not hide a variable of the application called
 `on' in debug statements

---
 include/libcwd/macro_Libcwd_macros.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/libcwd/macro_Libcwd_macros.h b/include/libcwd/macro_Libcwd_macros.h
index 98788e2..098be06 100644
--- a/include/libcwd/macro_Libcwd_macros.h
+++ b/include/libcwd/macro_Libcwd_macros.h
@@ -89,12 +89,12 @@ extern "C" ssize_t write(int fd, void const* buf, size_t count);
     {                                                                                                           \
       using namespace ::libcwd;                                                                                 \
       ::libcwd::ChannelSetBootstrap __libcwd_channel_set(LIBCWD_DO_TSD(debug_obj), LIBCWD_TSD);                 \
-      bool on;                                                                                                  \
+      bool __libcwd_on;                                                                                         \
       {                                                                                                         \
         using namespace ::dc_namespace;                                                                         \
-        on = (__libcwd_channel_set | cntrl).on;                                                                 \
+        __libcwd_on = (__libcwd_channel_set | cntrl).on;                                                        \
       }                                                                                                         \
-      if (on)                                                                                                   \
+      if (__libcwd_on)                                                                                          \
       {                                                                                                         \
         ::libcwd::DebugObject& __libcwd_debug_object(debug_obj);                                                \
         LIBCWD_DO_TSD(__libcwd_debug_object).start(__libcwd_debug_object, __libcwd_channel_set, LIBCWD_TSD);    \
-- 
2.43.0


From 3eccd2f043470d24d915d2d8b904c96eaff59300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:46 +0000
Subject: [PATCH 40/59] fix: keep track of all libraries that are loaded and
 unloaded by dlopen and dlclose

Dependencies that were loaded by dlopen were not registered, and a library was
unregistered by dlclose while it was still loaded (references that were obtained
with RTLD_NOLOAD or by other libraries, and -z nodelete), or stayed registered
after it was unloaded as dependency.
---
 src/dwarf.cxx | 182 ++++++++++++++++----------------------------------
 1 file changed, 57 insertions(+), 125 deletions(-)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index 59d4404..f531229 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -21,6 +21,8 @@
 #include <filesystem>
 #include <limits>
 #include <map>
+#include <mutex>
+#include <set>
 #include <string>
 #include <dlfcn.h>
 #include <dwarf.h>
@@ -29,9 +31,6 @@
 #include <elfutils/libdwfl.h>
 #include <fcntl.h>
 #include <link.h>
-#ifdef HAVE_DLOPEN
-#include <mutex>
-#endif
 
 namespace libcwd {
 namespace _private_ {
@@ -179,24 +178,18 @@ class ObjectFileRegistry
   struct CallBackData
   {
     std::string executable_path_; // The full path to the current executable.
-    // Used for targeted dlopen-driven object discovery:
-    uintptr_t target_lbase_; // When non-zero, create an ObjectFile only for the DSO with this load base.
-    mutable ObjectFile const* object_file_{}; // Set to the ObjectFile aggregate for target_lbase_.
-
-    CallBackData(std::string const& executable_path, uintptr_t target_lbase = 0) :
-        executable_path_(executable_path), target_lbase_(target_lbase)
-    {
-    }
+    CallBackData(std::string const& executable_path) : executable_path_(executable_path) { }
   };
 
   friend bool ensure_initialization(LIBCWD_TSD_PARAM);
+  static bool registry_initialized() { return s_object_files_initialized_.load(std::memory_order_relaxed); }
   static void register_initial_object_files();
-  static ObjectFile const* iterate_program_headers(CallBackData const& data);
+  static void iterate_program_headers(CallBackData const& data);
   static int cb_dl_iterate_phdr(dl_phdr_info* info, size_t size, void* call_back_data);
   static ObjectFile const* find_registered_object_file(uintptr_t lbase, object_files_ts::wat const& object_files_w);
 
-  // Called from dlopen.
-  static ObjectFile const* register_object_file_at_lbase(uintptr_t lbase);
+  // Called from dlopen and dlclose.
+  static void synchronize_with_dynamic_loader();
   // Needed for Location.
   static ObjectFile const* find_object_file(uintptr_t addr);
 };
@@ -739,7 +732,7 @@ void ObjectFileRegistry::register_initial_object_files()
 }
 
 //static
-ObjectFile const* ObjectFileRegistry::iterate_program_headers(CallBackData const& data)
+void ObjectFileRegistry::iterate_program_headers(CallBackData const& data)
 {
   // From https://man7.org/linux/man-pages/man3/dl_iterate_phdr.3.html:
   //
@@ -747,11 +740,7 @@ ObjectFile const* ObjectFileRegistry::iterate_program_headers(CallBackData const
   // calls the function cb_dl_iterate_phdr once for each object, until either all shared objects
   // have been processed or cb_dl_iterate_phdr returns a nonzero value.
   //
-  // A non-zero data.target_lbase_ makes the callback stop after the matching object;
-  // zero means enumerate all currently loaded objects.
-  //
   dl_iterate_phdr(cb_dl_iterate_phdr, const_cast<CallBackData*>(&data));
-  return data.object_file_;
 }
 
 //static
@@ -759,11 +748,6 @@ int ObjectFileRegistry::cb_dl_iterate_phdr(dl_phdr_info* info, size_t /*UNUSED*/
 {
   CallBackData const* data = static_cast<CallBackData const*>(call_back_data);
   uintptr_t const lbase = static_cast<uintptr_t>(info->dlpi_addr);
-  bool const target_lbase_only = data->target_lbase_ != 0;
-
-  // If this is not the target object; advance to the next.
-  if (target_lbase_only && lbase != data->target_lbase_)
-    return 0;
 
   // dl_iterate_phdr reports an empty name for the main executable.
   // Use the already resolved /proc/self/exe path in that case so ObjectFileName remains
@@ -778,11 +762,8 @@ int ObjectFileRegistry::cb_dl_iterate_phdr(dl_phdr_info* info, size_t /*UNUSED*/
   {
     object_files_ts::wat object_files_w(object_files_map());
     ScopedTracker scoped_{s_object_files_is_locked_};
-    if (ObjectFile const* existing_object_file = find_registered_object_file(lbase, object_files_w))
-    {
-      data->object_file_ = existing_object_file;
-      return target_lbase_only;
-    }
+    if (find_registered_object_file(lbase, object_files_w))
+      return 0;
   }
 
   // Create a new ObjectFileData wrapper.  The wrapper address, not the protected
@@ -823,19 +804,14 @@ int ObjectFileRegistry::cb_dl_iterate_phdr(dl_phdr_info* info, size_t /*UNUSED*/
                                   << (void*)segment_start << '-' << (void*)segment_end
                                   << ") flags=" << flags_to_string(phdr.p_flags));
 
-    // Set data->object_file_ to point to the ObjectFile member of the first PTLoadSegment element of
-    // object_files_map().
     have_pt_load_segment = true;
   }
 
   // If no PTLoadSegment was inserted, then we want to ignore this object file.
-  if (have_pt_load_segment)
-    data->object_file_ = object_file;
-  else
+  if (!have_pt_load_segment)
     delete object_file;
 
-  // Stop iterating iff there was only one target.
-  return target_lbase_only;
+  return 0;
 }
 
 //static
@@ -855,18 +831,49 @@ ObjectFile const* ObjectFileRegistry::find_registered_object_file(uintptr_t lbas
   return nullptr;
 }
 
+// ObjectFileRegistry::synchronize_with_dynamic_loader
+//
+// Make the registry reflect which objects are loaded right now.
+//
+// A single call to dlopen can load any number of libraries (all dependencies that weren't loaded yet) and a single call
+// to dlclose can unload any number of libraries, including none: a library stays in memory as long as there are other
+// references to it (also the references of other libraries, or those that it was opened with using RTLD_NOLOAD) and
+// forever if it can't be deleted. Therefore, do not guess but ask the loader.
+//
 //static
-ObjectFile const* ObjectFileRegistry::register_object_file_at_lbase(uintptr_t lbase)
+void ObjectFileRegistry::synchronize_with_dynamic_loader()
 {
-  // Locks object_files_map().
-  CallBackData const data{current_executable_path(), lbase};
-
-  // If this object file was already loaded before, then return that instead of creating a new ObjectFile.
-  ObjectFile const* existing_object_file = find_registered_object_file(lbase, object_files_ts::wat{object_files_map()});
+  // Recursive, because iterating over the program headers writes debug output.
+  static std::recursive_mutex* mutex = new std::recursive_mutex; // Intentionally leaked for late DSO teardown.
+  std::lock_guard<std::recursive_mutex> lock(*mutex);
+
+  std::set<uintptr_t> loaded;
+  dl_iterate_phdr(
+      [](dl_phdr_info* info, size_t, void* arg) {
+        static_cast<std::set<uintptr_t>*>(arg)->insert(static_cast<uintptr_t>(info->dlpi_addr));
+        return 0;
+      },
+      &loaded);
+
+  // Forget the object files that are no longer loaded.
+  std::set<ObjectFile const*> obsolete;
+  {
+    object_files_ts::rat object_files_r(object_files_map());
+    ScopedTracker scoped_{s_object_files_is_locked_};
+    for (auto const& [segment_end, segment] : *object_files_r)
+      if (loaded.find(segment.object_file()->get_lbase()) == loaded.end())
+        obsolete.insert(segment.object_file());
+  }
+  for (ObjectFile const* object_file : obsolete)
+  {
+    object_file->write_locked_data()->unregister_object_file_ranges(object_file);
+    // Now that the object_file_data_ts Access object has been destroyed, we can delete the ObjectFile that is no longer
+    // in use.
+    delete object_file;
+  }
 
-  // Otherwise iterate over all currently loaded object files to find the just dynamically
-  // opened object file, loaded at data.target_lbase_, and create a new ObjectFile for it.
-  return existing_object_file ? existing_object_file : iterate_program_headers(data);
+  // Create new ObjectFile's for everything that isn't registered yet.
+  iterate_program_headers(CallBackData{current_executable_path()});
 }
 
 //static
@@ -1286,26 +1293,6 @@ static union
 std::once_flag initialize_real_dlopen;
 std::once_flag initialize_real_dlclose;
 
-struct DynamicLoaderRecord
-{
-  int refcount_;
-  int flags_;
-  ObjectFile const* object_file_;
-
-  DynamicLoaderRecord(ObjectFile const* object_file, int flags) : refcount_(1), flags_(flags), object_file_(object_file)
-  {
-  }
-};
-
-using dynamic_loader_records_ts = threadsafe::Unlocked<std::map<void*, DynamicLoaderRecord, std::less<void*>>,
-                                                       threadsafe::policy::Primitive<std::mutex>>;
-
-dynamic_loader_records_ts& dlopen_map()
-{
-  static dynamic_loader_records_ts* map = new dynamic_loader_records_ts; // Intentionally leaked for late DSO teardown.
-  return *map;
-}
-
 } // namespace
 #endif // HAVE_DLOPEN
 
@@ -1341,47 +1328,13 @@ void* dlopen(char const* name, int flags)
   }
   if (handle == nullptr)
     return handle;
-#ifdef RTLD_NOLOAD
-  if ((flags & RTLD_NOLOAD))
-    return handle;
-#endif
-
-  // If the record already exist, increment DynamicLoaderRecord::refcount_ and return.
-  {
-    dynamic_loader_records_ts::wat dynamic_loader_records_w(dlopen_map());
-    {
-      auto iter = dynamic_loader_records_w->find(handle);
-      if (iter != dynamic_loader_records_w->end())
-      {
-        ++iter->second.refcount_;
-        iter->second.flags_ |= flags;
-        return handle;
-      }
-    }
-  }
 
   if (need_register_object_file)
   {
-    struct link_map* link_map;
-    if (::dlinfo(handle, RTLD_DI_LINKMAP, &link_map) == 0)
-    {
-      uintptr_t const lbase = static_cast<uintptr_t>(link_map->l_addr);
-      ObjectFile const* object_file = nullptr;
-      bool skip_dlopen_map = false;
-      ForceLoadingDebugOutput scoped_;
-      object_file = ObjectFileRegistry::register_object_file_at_lbase(lbase);
-      // NULL would mean that there is no DSO at the `l_addr` that `dlinfo` just returned.
-      // That shouldn't be possible because no thread can have dlclose-d it without already haven gotten the handle that
-      // we didn't even return yet. However, in theory it can also mean that this DSO didn't have any non-empty PT_LOAD
-      // segments, in which case we just want to ignore the DSO.
-      if (!object_file)
-        skip_dlopen_map = true;
-      if (!skip_dlopen_map)
-        dynamic_loader_records_ts::wat(dlopen_map())->emplace(handle, DynamicLoaderRecord{object_file, flags});
-    }
+    ForceLoadingDebugOutput scoped_;
+    ObjectFileRegistry::synchronize_with_dynamic_loader();
   }
 
-  // Unlock dlopen_map and return handle.
   return handle;
 }
 
@@ -1396,34 +1349,13 @@ int dlclose(void* handle)
   if (error != 0 || statically_linked)
     return error;
 
-  ObjectFile const* object_file_to_unregister = nullptr;
-
-  // Remove the corresponding DynamicLoaderRecord from the dlopen_map if this was the last reference.
-  {
-    dynamic_loader_records_ts::wat dynamic_loader_records_w(dlopen_map());
-
-    auto iter = dynamic_loader_records_w->find(handle);
-    if (iter != dynamic_loader_records_w->end() && --iter->second.refcount_ == 0)
-    {
-#ifdef RTLD_NODELETE
-      if (!(iter->second.flags_ & RTLD_NODELETE))
-#endif
-        object_file_to_unregister = iter->second.object_file_;
-      dynamic_loader_records_w->erase(iter);
-    }
-  }
-
-  if (object_file_to_unregister)
+  // Nothing is registered when libcwd wasn't initialized yet.
+  if (ObjectFileRegistry::registry_initialized())
   {
     ForceLoadingDebugOutput scoped_;
-    ObjectFile const* obsolete_object_file =
-        object_file_to_unregister->write_locked_data()->unregister_object_file_ranges(object_file_to_unregister);
-    // Now that the object_file_data_ts Access object has been destroyed, we can delete the ObjectFile that is no longer
-    // in use.
-    delete obsolete_object_file;
+    ObjectFileRegistry::synchronize_with_dynamic_loader();
   }
 
-  // Unlock dlopen_map and return success.
   return 0;
 }
 
-- 
2.43.0


From c98ad9c6f7db586f51fd9521a9927a7b924c02e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:46 +0000
Subject: [PATCH 41/59] fix: use the full path of libraries that were opened
 with a relative path

---
 src/dwarf.cxx | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index f531229..4d2772e 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -752,8 +752,17 @@ int ObjectFileRegistry::cb_dl_iterate_phdr(dl_phdr_info* info, size_t /*UNUSED*/
   // dl_iterate_phdr reports an empty name for the main executable.
   // Use the already resolved /proc/self/exe path in that case so ObjectFileName remains
   // useful for diagnostics and later public location data.
-  char const* object_filename =
-      (info->dlpi_name && info->dlpi_name[0] != '\0') ? info->dlpi_name : data->executable_path_.c_str();
+  std::string object_filename =
+      (info->dlpi_name && info->dlpi_name[0] != '\0') ? info->dlpi_name : data->executable_path_;
+  // A library that was opened with a relative path has that path as name. Store the full path because
+  // the file is opened when the first address is looked up, when the current directory might have changed.
+  if (object_filename[0] != '/' && object_filename.find('/') != std::string::npos)
+  {
+    std::error_code error;
+    std::filesystem::path const full_path = std::filesystem::absolute(object_filename, error);
+    if (!error)
+      object_filename = full_path.string();
+  }
 
   // A DSO can be discovered through a delayed dlopen registration while an
   // outer dl_iterate_phdr pass is still running.  Avoid constructing and
@@ -770,7 +779,7 @@ int ObjectFileRegistry::cb_dl_iterate_phdr(dl_phdr_info* info, size_t /*UNUSED*/
   // ObjectFile payload address, is stored in every PTLoadSegment so all future
   // users are forced through threadsafe access objects before touching mutable
   // per-object DWARF state.
-  ObjectFile const* object_file = new ObjectFile(lbase, object_filename);
+  ObjectFile const* object_file = new ObjectFile(lbase, object_filename.c_str());
 
   __Dout(dc::elfutils, "Adding PT_LOAD segments for \"" << object_filename << "\" at 0x" << std::hex << lbase
                                                       << " pointing to ObjectFile at " << object_file);
-- 
2.43.0


From 6c7fb2e6249257b1563190abc1053d407540649c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:22 +0000
Subject: [PATCH 42/59] fix: the object file of a location stays valid when it
 is unloaded

---
 src/dwarf.cxx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index 4d2772e..24f3eae 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -159,8 +159,10 @@ class ObjectFileRegistry
 
   static object_files_ts& object_files_map(); // Read-write lock protected end-address index of loaded PT_LOAD segments.
 
-  libcwd::ObjectFileName object_file_name_; // Public facing data of this object file. Just contains the filename
-                                            // and whether or not debug info was available for this object file or not.
+  libcwd::ObjectFileName const& object_file_name_; // Public facing data of this object file. Just contains the filename
+                                                   // and whether or not debug info was available for this object file
+                                                   // or not. Intentionally leaked, because Location objects keep
+                                                   // pointing to it after the object file was unloaded.
 
   static std::atomic_bool s_object_files_initialized_; // Set when ObjectFileRegistry::register_initial_object_files was
                                                        // called, turning ensure_initialization into a no-op.
@@ -168,7 +170,7 @@ class ObjectFileRegistry
   // Construct the ObjectFileRegistry subobject for the derived ObjectFileData payload.
   // ObjectFileRegistry is not instantiated by itself; it groups registry-wide
   // static functions and state with the public object_file_name_ storage.
-  ObjectFileRegistry(char const* filename) : object_file_name_(filename) { }
+  ObjectFileRegistry(char const* filename) : object_file_name_(*new libcwd::ObjectFileName(filename)) { }
 
  public:
   // Accessor.
-- 
2.43.0


From 65a717e6a7858f2879ba07db088cd1aa33537384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:04 +0000
Subject: [PATCH 43/59] fix: find addresses of libraries of which the
 constructors are still running

---
 src/dwarf.cxx | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index 24f3eae..c8ce19f 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -190,6 +190,8 @@ class ObjectFileRegistry
   static int cb_dl_iterate_phdr(dl_phdr_info* info, size_t size, void* call_back_data);
   static ObjectFile const* find_registered_object_file(uintptr_t lbase, object_files_ts::wat const& object_files_w);
 
+  static ObjectFile const* find_registered_object_file(uintptr_t addr);
+
   // Called from dlopen and dlclose.
   static void synchronize_with_dynamic_loader();
   // Needed for Location.
@@ -887,18 +889,29 @@ void ObjectFileRegistry::synchronize_with_dynamic_loader()
   iterate_program_headers(CallBackData{current_executable_path()});
 }
 
+//static
+ObjectFile const* ObjectFileRegistry::find_registered_object_file(uintptr_t addr)
+{
+  object_files_ts::rat object_files_r(object_files_map());
+  ScopedTracker scoped_{s_object_files_is_locked_};
+  auto const iter = object_files_r->upper_bound(addr);
+  if (iter != object_files_r->end() && iter->second.start_addr() <= addr)
+    return iter->second.object_file();
+  return nullptr;
+}
+
 //static
 ObjectFile const* ObjectFileRegistry::find_object_file(uintptr_t addr)
 {
   // The object file found.
-  ObjectFile const* object_file = nullptr;
+  ObjectFile const* object_file = find_registered_object_file(addr);
 
+  // A library is registered after dlopen loaded it, which is too late for lookups of addresses in that library by its
+  // own constructors (or those of a library that is loaded at the same time).
+  if (!object_file && !statically_linked)
   {
-    object_files_ts::rat object_files_r(object_files_map());
-    ScopedTracker scoped_{s_object_files_is_locked_};
-    auto const iter = object_files_r->upper_bound(addr);
-    if (iter != object_files_r->end() && iter->second.start_addr() <= addr)
-      object_file = iter->second.object_file();
+    synchronize_with_dynamic_loader();
+    object_file = find_registered_object_file(addr);
   }
 
   // realize_symbols must be called without holding the lock on object_files_map().
-- 
2.43.0


From c5d87ef249e964d0ebee156088a59ac55d72fd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:55 +0000
Subject: [PATCH 44/59] fix: look up locations in several threads at the same
 time

libdw is not thread-safe: a lookup could fail or crash while another thread
was looking up a location in the same object file.
---
 src/dwarf.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index c8ce19f..0fcf0bd 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -334,6 +334,10 @@ LocationLookupResult SymbolRange::lookup_location(uintptr_t addr, uintptr_t lbas
   LocationLookupResult result;
   result.physical_function_name = name_;
 
+  // libdw reads and caches the debug info on demand, and is not thread-safe.
+  static std::mutex* libdw_mutex = new std::mutex; // Intentionally leaked for lookups during late deinitialization.
+  std::lock_guard<std::mutex> lock(*libdw_mutex);
+
   Dwarf_Die cu_die;
   if (!die_.addr || dwarf_diecu(const_cast<Dwarf_Die*>(&die_), &cu_die, NULL, NULL) == nullptr)
     return result;
-- 
2.43.0


From bb85f9a2d6889f5c2abf79f972df81219c15dd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:39 +0000
Subject: [PATCH 45/59] fix: a library that is loaded where another one was
 just unloaded by another thread is registered

---
 src/dwarf.cxx | 77 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 45 insertions(+), 32 deletions(-)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index 0fcf0bd..d0f1829 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -176,18 +176,20 @@ class ObjectFileRegistry
   // Accessor.
   libcwd::ObjectFileName const& object_file_name() const { return object_file_name_; }
 
-  // Information passed to the cb_dl_iterate_phdr call back function.
-  struct CallBackData
+  // An object that is loaded, as reported by dl_iterate_phdr.
+  struct LoadedObject
   {
-    std::string executable_path_; // The full path to the current executable.
-    CallBackData(std::string const& executable_path) : executable_path_(executable_path) { }
+    uintptr_t lbase_;
+    std::string name_; // The name that the loader uses; empty for the main executable.
+    std::vector<ElfW(Phdr)> phdrs_;
   };
 
   friend bool ensure_initialization(LIBCWD_TSD_PARAM);
   static bool registry_initialized() { return s_object_files_initialized_.load(std::memory_order_relaxed); }
   static void register_initial_object_files();
-  static void iterate_program_headers(CallBackData const& data);
+  static std::vector<LoadedObject> iterate_program_headers();
   static int cb_dl_iterate_phdr(dl_phdr_info* info, size_t size, void* call_back_data);
+  static void register_object_file(LoadedObject const& object, std::string const& executable_path);
   static ObjectFile const* find_registered_object_file(uintptr_t lbase, object_files_ts::wat const& object_files_w);
 
   static ObjectFile const* find_registered_object_file(uintptr_t addr);
@@ -443,13 +445,19 @@ class ObjectFile final : public ObjectFileInterface
  private:
   using object_file_data_ts = threadsafe::Unlocked<ObjectFileData, threadsafe::policy::ReadWrite<AIReadWriteMutex>>;
   mutable object_file_data_ts object_file_data_; // Thread-safe storage wrapper for ObjectFile instances.
+  std::string const loader_name_; // The name of this object according to the dynamic loader.
 
  public:
-  ObjectFile(uintptr_t lbase, char const* filename) : ObjectFileInterface(lbase), object_file_data_(filename, lbase) { }
+  ObjectFile(uintptr_t lbase, char const* filename, std::string const& loader_name) :
+      ObjectFileInterface(lbase), object_file_data_(filename, lbase), loader_name_(loader_name)
+  {
+  }
 
   ObjectFile(ObjectFile const&) = delete;
   ObjectFile& operator=(ObjectFile const&) = delete;
 
+  std::string const& loader_name() const { return loader_name_; }
+
   // Ensure that the symbols of this ObjectFile have been loaded.
   void realize_symbols() const;
 
@@ -720,8 +728,6 @@ void ObjectFileRegistry::register_initial_object_files()
   //
   // Start a new scope for the write lock.
   {
-    CallBackData const data{current_executable_path()};
-
     // This is the initial population pass for the dwarf object/segment cache.
     // Even if dlopen is called first, that still will first call this function.
     LIBCWD_ASSERT(object_files_ts::rat{object_files_map()}->empty());
@@ -730,7 +736,9 @@ void ObjectFileRegistry::register_initial_object_files()
     if (!statically_linked)
     {
       // Iterate over all currently loaded object files and create new ObjectFile's for them.
-      iterate_program_headers(data);
+      std::string const executable_path = current_executable_path();
+      for (LoadedObject const& object : iterate_program_headers())
+        register_object_file(object, executable_path);
     }
 
     // Relaxed is OK: we get here from the main thread before any other thread (that
@@ -740,7 +748,7 @@ void ObjectFileRegistry::register_initial_object_files()
 }
 
 //static
-void ObjectFileRegistry::iterate_program_headers(CallBackData const& data)
+std::vector<ObjectFileRegistry::LoadedObject> ObjectFileRegistry::iterate_program_headers()
 {
   // From https://man7.org/linux/man-pages/man3/dl_iterate_phdr.3.html:
   //
@@ -748,20 +756,29 @@ void ObjectFileRegistry::iterate_program_headers(CallBackData const& data)
   // calls the function cb_dl_iterate_phdr once for each object, until either all shared objects
   // have been processed or cb_dl_iterate_phdr returns a nonzero value.
   //
-  dl_iterate_phdr(cb_dl_iterate_phdr, const_cast<CallBackData*>(&data));
+  std::vector<LoadedObject> objects;
+  dl_iterate_phdr(cb_dl_iterate_phdr, &objects);
+  return objects;
 }
 
 //static
 int ObjectFileRegistry::cb_dl_iterate_phdr(dl_phdr_info* info, size_t /*UNUSED*/, void* call_back_data)
 {
-  CallBackData const* data = static_cast<CallBackData const*>(call_back_data);
-  uintptr_t const lbase = static_cast<uintptr_t>(info->dlpi_addr);
+  static_cast<std::vector<LoadedObject>*>(call_back_data)
+      ->push_back({static_cast<uintptr_t>(info->dlpi_addr), info->dlpi_name ? info->dlpi_name : "",
+                   {info->dlpi_phdr, info->dlpi_phdr + info->dlpi_phnum}});
+  return 0;
+}
+
+//static
+void ObjectFileRegistry::register_object_file(LoadedObject const& object, std::string const& executable_path)
+{
+  uintptr_t const lbase = object.lbase_;
 
   // dl_iterate_phdr reports an empty name for the main executable.
   // Use the already resolved /proc/self/exe path in that case so ObjectFileName remains
   // useful for diagnostics and later public location data.
-  std::string object_filename =
-      (info->dlpi_name && info->dlpi_name[0] != '\0') ? info->dlpi_name : data->executable_path_;
+  std::string object_filename = !object.name_.empty() ? object.name_ : executable_path;
   // A library that was opened with a relative path has that path as name. Store the full path because
   // the file is opened when the first address is looked up, when the current directory might have changed.
   if (object_filename[0] != '/' && object_filename.find('/') != std::string::npos)
@@ -780,14 +797,14 @@ int ObjectFileRegistry::cb_dl_iterate_phdr(dl_phdr_info* info, size_t /*UNUSED*/
     object_files_ts::wat object_files_w(object_files_map());
     ScopedTracker scoped_{s_object_files_is_locked_};
     if (find_registered_object_file(lbase, object_files_w))
-      return 0;
+      return;
   }
 
   // Create a new ObjectFileData wrapper.  The wrapper address, not the protected
   // ObjectFile payload address, is stored in every PTLoadSegment so all future
   // users are forced through threadsafe access objects before touching mutable
   // per-object DWARF state.
-  ObjectFile const* object_file = new ObjectFile(lbase, object_filename.c_str());
+  ObjectFile const* object_file = new ObjectFile(lbase, object_filename.c_str(), object.name_);
 
   __Dout(dc::elfutils, "Adding PT_LOAD segments for \"" << object_filename << "\" at 0x" << std::hex << lbase
                                                       << " pointing to ObjectFile at " << object_file);
@@ -796,16 +813,15 @@ int ObjectFileRegistry::cb_dl_iterate_phdr(dl_phdr_info* info, size_t /*UNUSED*/
   // The map owns the discoverable active address ranges; the pointed-to objects are intentionally kept stable
   // for the process lifetime until later dlclose/tombstone semantics are designed.
   bool have_pt_load_segment = false;
-  for (ElfW(Half) phdr_index = 0; phdr_index < info->dlpi_phnum; ++phdr_index)
+  for (ElfW(Phdr) const& phdr : object.phdrs_)
   {
-    ElfW(Phdr) const& phdr = info->dlpi_phdr[phdr_index];
     if (phdr.p_type != PT_LOAD ||
         // The Elf-64 Object File Format specifies that p_memsz may be zero
         // (https://man7.org/linux/man-pages/man5/elf.5.html)
         phdr.p_memsz == 0)
       continue;
 
-    uintptr_t const segment_start = static_cast<uintptr_t>(info->dlpi_addr + phdr.p_vaddr);
+    uintptr_t const segment_start = static_cast<uintptr_t>(lbase + phdr.p_vaddr);
     uintptr_t const segment_end = segment_start + static_cast<uintptr_t>(phdr.p_memsz);
     LIBCWD_ASSERT(segment_end > segment_start);
 
@@ -827,8 +843,6 @@ int ObjectFileRegistry::cb_dl_iterate_phdr(dl_phdr_info* info, size_t /*UNUSED*/
   // If no PTLoadSegment was inserted, then we want to ignore this object file.
   if (!have_pt_load_segment)
     delete object_file;
-
-  return 0;
 }
 
 //static
@@ -864,21 +878,18 @@ void ObjectFileRegistry::synchronize_with_dynamic_loader()
   static std::recursive_mutex* mutex = new std::recursive_mutex; // Intentionally leaked for late DSO teardown.
   std::lock_guard<std::recursive_mutex> lock(*mutex);
 
-  std::set<uintptr_t> loaded;
-  dl_iterate_phdr(
-      [](dl_phdr_info* info, size_t, void* arg) {
-        static_cast<std::set<uintptr_t>*>(arg)->insert(static_cast<uintptr_t>(info->dlpi_addr));
-        return 0;
-      },
-      &loaded);
+  std::vector<LoadedObject> const loaded_objects = iterate_program_headers();
 
-  // Forget the object files that are no longer loaded.
+  // Forget the object files that are no longer loaded. Note that another thread might already have loaded a different
+  // library at the same address.
   std::set<ObjectFile const*> obsolete;
   {
     object_files_ts::rat object_files_r(object_files_map());
     ScopedTracker scoped_{s_object_files_is_locked_};
     for (auto const& [segment_end, segment] : *object_files_r)
-      if (loaded.find(segment.object_file()->get_lbase()) == loaded.end())
+      if (std::none_of(loaded_objects.begin(), loaded_objects.end(), [&](LoadedObject const& object) {
+            return object.lbase_ == segment.object_file()->get_lbase() && object.name_ == segment.object_file()->loader_name();
+          }))
         obsolete.insert(segment.object_file());
   }
   for (ObjectFile const* object_file : obsolete)
@@ -890,7 +901,9 @@ void ObjectFileRegistry::synchronize_with_dynamic_loader()
   }
 
   // Create new ObjectFile's for everything that isn't registered yet.
-  iterate_program_headers(CallBackData{current_executable_path()});
+  std::string const executable_path = current_executable_path();
+  for (LoadedObject const& object : loaded_objects)
+    register_object_file(object, executable_path);
 }
 
 //static
-- 
2.43.0


From 0e173c4bcbc86a2b86ebcb84a0d6a1e4ad5add96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:32 +0000
Subject: [PATCH 46/59] fix: the path of a source location is the full path,
 also when the compiler recorded a relative one

---
 include/cwd_dwarf.h |  6 ++++--
 src/dwarf.cxx       | 13 ++++++++++++-
 src/location.cxx    |  4 ++--
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/cwd_dwarf.h b/include/cwd_dwarf.h
index 3b52c9c..85f6732 100644
--- a/include/cwd_dwarf.h
+++ b/include/cwd_dwarf.h
@@ -10,6 +10,8 @@
 #include "libcwd/private/ThreadSpecificData.h"
 
 #include <cstdint>
+#include <optional>
+#include <string>
 
 namespace libcwd::dwarf {
 
@@ -27,12 +29,12 @@ extern bool ensure_initialization(LIBCWD_TSD_PARAM);
 // address range. effective_function_name is an optional source-level override
 // set only when inline-scope lookup learns that the PC belongs to an inlined
 // function body.
-// filepath points to libdw-owned storage and may be set even when known is false.
+// filepath is the full path of the source file and may be set even when known is false.
 struct LocationLookupResult
 {
   char const* physical_function_name{}; // Enclosing machine-code symbol.
   char const* effective_function_name{}; // Optional source-level override for reporting.
-  char const* filepath{nullptr}; // Source path, or nullptr when no file is known.
+  std::optional<std::string> filepath; // Source path, or nullopt when no file is known.
   unsigned int line; // Source line, valid only when known is true.
   bool known{false}; // True when filepath and line describe a usable source location.
 
diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index d0f1829..2e7f549 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -362,12 +362,23 @@ LocationLookupResult SymbolRange::lookup_location(uintptr_t addr, uintptr_t lbas
     result.line = lineno;
   }
 
-  if ((result.filepath = dwarf_linesrc(line, nullptr, nullptr)) == nullptr)
+  char const* const filepath = dwarf_linesrc(line, nullptr, nullptr);
+  if (filepath == nullptr)
   {
     __Dout(dc::elfutils, "dwarf_linesrc failed for address 0x" << std::hex << addr << ": " << dwarf_errmsg(-1));
     return result;
   }
 
+  result.filepath = filepath;
+  if (*filepath != '/')
+  {
+    // The path is relative to the directory that the compiler was started in.
+    Dwarf_Attribute attribute;
+    char const* comp_dir = dwarf_formstring(dwarf_attr_integrate(&cu_die, DW_AT_comp_dir, &attribute));
+    if (comp_dir)
+      result.filepath = std::string(comp_dir) + '/' + filepath;
+  }
+
   result.known = have_lineno;
   return result;
 }
diff --git a/src/location.cxx b/src/location.cxx
index 1614c73..704c034 100644
--- a/src/location.cxx
+++ b/src/location.cxx
@@ -154,9 +154,9 @@ void Location::pc_location(void const* pc, LIBCWD_TSD_PARAM)
 
   if (location.filepath) // Might still be true even if known_ is false (if we couldn't find a line number).
   {
-    size_t len = strlen(location.filepath);
+    size_t len = location.filepath->length();
     filepath_ = lockable_auto_ptr<char, true>(new char[len + 1]); // LEAK5
-    strcpy(filepath_.get(), location.filepath);
+    strcpy(filepath_.get(), location.filepath->c_str());
     char const* last_slash = strrchr(filepath_.get(), '/');
     filename_ = last_slash ? last_slash + 1 : filepath_.get();
   }
-- 
2.43.0


From 7004198a20f025b4646d9093f1a389478d83ccba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:19 +0000
Subject: [PATCH 47/59] fix: functions that the linker discarded do not contain
 other code

---
 src/dwarf.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index 2e7f549..fad2819 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -1144,6 +1144,10 @@ void ObjectFileData::add_function_symbol(Dwarf_Die* func_die, uintptr_t lbase)
 bool ObjectFileData::add_function_symbol_range(Dwarf_Addr start_pc, Dwarf_Addr end_pc, char const* name,
                                                Dwarf_Die const* func_die, uintptr_t lbase)
 {
+  // The linker sets the address of functions that it discarded to zero.
+  if (start_pc == 0)
+    return false;
+
   if (!(start_pc < end_pc && end_pc <= std::numeric_limits<uintptr_t>::max() - lbase))
     return false;
 
-- 
2.43.0


From 0b436f9226371ff4cba01c6e097cc5c5888edc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 48/59] fix: a fatal message to cerr does not lose what was
 written to the ostream of the debug object before it

---
 src/debug.cxx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/debug.cxx b/src/debug.cxx
index 4b97097..0dd314d 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -1102,6 +1102,17 @@ void DebugObject_ThreadSpecificData::finish(DebugObject& debug_object,
           !__libcwd_tsd.recursive_fatal // Flush ostream after printing this when there is no recursive loop yet.
               , !(current->mask & nonewline_cf) // Whether or not this output ends on a newline.
           , true); // If the newline is missing, then it is missing because of the use of nonewline_cf.
+      if (target_os && !__libcwd_tsd.recursive_fatal)
+      {
+        // This message went to cerr: also flush what was written before to the ostream of the debug object,
+        // because the program terminates without calling global destructors.
+        _private_::LockInterfaceBase* locked_mutex;
+        std::ostream* locked_os = debug_object.ostream_state_.get_locked_os(nullptr, &locked_mutex);
+        if (locked_os)
+          locked_os->flush();
+        if (locked_mutex)
+          locked_mutex->unlock();
+      }
       __libcwd_tsd.recursive_fatal = true;
       if (!_private_::claim_fatal_termination_ownership())
       {
-- 
2.43.0


From 95a99ef0839e2f30a96c9dbf60582e5980dfc4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 49/59] fix: more debug channels or debug objects than
 supported are reported instead of corrupting memory

---
 src/debug.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/debug.cxx b/src/debug.cxx
index 0dd314d..c111181 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -480,6 +480,9 @@ void DebugChannels::initialize_channel(Channel& channel, char const* label, LIBC
 
   Impl::channel_sets_ts::wat channels_w(impl->channel_sets);
 
+  if (channels_w->next_index_ >= LIBCWD_DC_MAX - 1) // Index 0 isn't used.
+    DoutFatal(dc::core, "Too many debug channels (while adding \"" << label << "\"); the maximum is " << LIBCWD_DC_MAX - 1 << '.');
+
   const_cast<char*>(channels::dc::core.get_label())[WST_max_len] = ' ';
   const_cast<char*>(channels::dc::fatal.get_label())[WST_max_len] = ' ';
   for (Channel* debug_channel : channels_w->visible_)
@@ -1214,6 +1217,9 @@ bool DebugObject::NS_init(LIBCWD_TSD_PARAM)
   if (initialized_)
     return true;
 
+  if (s_index_count_ >= LIBCWD_DO_MAX)
+    DoutFatal(dc::core, "Too many debug objects; the maximum is " << LIBCWD_DO_MAX << '.');
+
   being_initialized_ = true;
 
   unfinished_oss_ = NULL;
-- 
2.43.0


From d440ef9f68680b17fbb41293dea45b6df13c9b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 50/59] fix: margin, marker and color strings can be changed to
 (a part of) themselves

---
 src/debug.cxx | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/debug.cxx b/src/debug.cxx
index c111181..be13010 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -20,6 +20,7 @@
 #include <atomic>
 #include <cerrno>
 #include <cstdlib> // Needed for _Exit() (C99)
+#include <functional>
 #include <iostream>
 #include <new>
 #ifdef HAVE_SYS_RESOURCE_H
@@ -744,8 +745,21 @@ DebugString::~DebugString()
 #endif
 }
 
+// Returns true when str points into the string that starts at begin and has the given size.
+static bool is_inside(char const* str, char const* begin, size_t size)
+{
+  std::less<char const*> const before;
+  return !before(str, begin) && !before(begin + size, str);
+}
+
 void DebugString::internal_assign(char const* str, size_t len)
 {
+  if (is_inside(str, str_, size_)) // Passing (part of) the string itself?
+  {
+    std::string const copy(str, len);
+    internal_assign(copy.data(), len);
+    return;
+  }
   if (len > capacity_ || (capacity_ > default_capacity_ && len < default_capacity_))
     str_ = (char*)realloc(str_, (capacity_ = calculate_capacity(len)) + 1);
   memmove(str_, str, len);
@@ -755,6 +769,12 @@ void DebugString::internal_assign(char const* str, size_t len)
 
 void DebugString::internal_append(char const* str, size_t len)
 {
+  if (is_inside(str, str_, size_)) // Passing (part of) the string itself?
+  {
+    std::string const copy(str, len);
+    internal_append(copy.data(), len);
+    return;
+  }
   if (size_ + len > capacity_ || (capacity_ > default_capacity_ && size_ + len < default_capacity_))
     str_ = (char*)realloc(str_, (capacity_ = calculate_capacity(size_ + len)) + 1);
   memmove(str_ + size_, str, len);
@@ -764,6 +784,12 @@ void DebugString::internal_append(char const* str, size_t len)
 
 void DebugString::internal_prepend(char const* str, size_t len)
 {
+  if (is_inside(str, str_, size_)) // Passing (part of) the string itself?
+  {
+    std::string const copy(str, len);
+    internal_prepend(copy.data(), len);
+    return;
+  }
   if (size_ + len > capacity_ || (capacity_ > default_capacity_ && size_ + len < default_capacity_))
     str_ = (char*)realloc(str_, (capacity_ = calculate_capacity(size_ + len)) + 1);
   memmove(str_ + len, str_, size_ + 1);
-- 
2.43.0


From e4195b1bc9d93750e22f915defe02f20dff671f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 51/59] fix: the library builds without location support

---
 include/libcwd/private/BufferStream.h | 2 ++
 src/debug.cxx                         | 1 +
 src/init_functions.cxx                | 2 ++
 src/location.cxx                      | 6 ++++++
 src/type_info.cxx                     | 2 ++
 src/utils/rcfile.cxx                  | 3 ++-
 6 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/libcwd/private/BufferStream.h b/include/libcwd/private/BufferStream.h
index 5735c2b..47e407e 100644
--- a/include/libcwd/private/BufferStream.h
+++ b/include/libcwd/private/BufferStream.h
@@ -12,6 +12,8 @@
 
 #include "libcwd/config.h"
 
+#include <sstream>
+
 #ifndef HIDE_FROM_DOXYGEN
 namespace libcwd::_private_ {
 
diff --git a/src/debug.cxx b/src/debug.cxx
index be13010..8075ae5 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -20,6 +20,7 @@
 #include <atomic>
 #include <cerrno>
 #include <cstdlib> // Needed for _Exit() (C99)
+#include <cstring>
 #include <functional>
 #include <iostream>
 #include <new>
diff --git a/src/init_functions.cxx b/src/init_functions.cxx
index ebc1e61..927c3b3 100644
--- a/src/init_functions.cxx
+++ b/src/init_functions.cxx
@@ -2,8 +2,10 @@
 #include <libcwd/init_functions.h>
 #include <libcwd/debug.h>
 #include <utils/macros.h>
+#include <iomanip>
 #include <map>
 #include <mutex>
+#include <sstream>
 
 namespace libcwd {
 std::mutex cout_mutex;
diff --git a/src/location.cxx b/src/location.cxx
index 704c034..aaf3d61 100644
--- a/src/location.cxx
+++ b/src/location.cxx
@@ -2,6 +2,10 @@
 // SPDX-License-Identifier: MIT
 
 #include "cwd_sys.h"
+#include "libcwd/config.h"
+
+#if CWDEBUG_LOCATION
+
 #include "cwd_dwarf.h"
 #include "libcwd/Location.h"
 #include "libcwd/debug.h"
@@ -223,3 +227,5 @@ void Location::print_filename_on(std::ostream& os) const
 }
 
 } // namespace libcwd
+
+#endif // CWDEBUG_LOCATION
diff --git a/src/type_info.cxx b/src/type_info.cxx
index 0c5dc27..25aab24 100644
--- a/src/type_info.cxx
+++ b/src/type_info.cxx
@@ -7,6 +7,8 @@
 #include "libcwd/demangle.h"
 #include "libcwd/type_info.h"
 
+#include <cstring>
+
 namespace libcwd {
 
 /**
diff --git a/src/utils/rcfile.cxx b/src/utils/rcfile.cxx
index 62577e3..0f1b29a 100644
--- a/src/utils/rcfile.cxx
+++ b/src/utils/rcfile.cxx
@@ -143,8 +143,9 @@ void RcFile::process_channel(Channel& debugChannel, std::string const& mask, act
         __Dout(dc::rcfile, "Turned off ELFUTILS");
       }
     }
+    else
 #endif
-    else if (!debugChannel.is_on() && (action == on || action == toggle))
+    if (!debugChannel.is_on() && (action == on || action == toggle))
     {
       do
       {
-- 
2.43.0


From 8ede341954cb7ba104fe8edd3ece1819d6d5325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 52/59] fix: the library builds with internal consistency
 checks

---
 include/raw_write.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/raw_write.h b/include/raw_write.h
index 2b2a249..151e22e 100644
--- a/include/raw_write.h
+++ b/include/raw_write.h
@@ -16,13 +16,11 @@
 #endif
 extern "C" ssize_t write(int fd, void const* buf, size_t count);
 
-#if CWDEBUG_DEBUGT
 #include <mutex>
 #include <thread>
 namespace libcwd::_private_ {
 extern std::mutex raw_write_mutex;
 } // namespace libcwd::_private_
-#endif
 
 // The difference between DEBUGDEBUG_CERR and FATALDEBUGDEBUG_CERR is that the latter is not suppressed
 // when --disable-debug-output is used because a fatal error occurred anyway, so this can't
-- 
2.43.0


From b5288f38f946ff8c61eb6440c27c6261ea2348cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 53/59] fix: several threads can ask for the information of a
 type for the first time

---
 include/libcwd/type_info.h | 56 ++++++++++----------------------------
 src/type_info.cxx          | 26 ++++++------------
 2 files changed, 22 insertions(+), 60 deletions(-)

diff --git a/include/libcwd/type_info.h b/include/libcwd/type_info.h
index f538aeb..4b5c3c2 100644
--- a/include/libcwd/type_info.h
+++ b/include/libcwd/type_info.h
@@ -129,7 +129,6 @@ struct type_info
 {
  private:
   static TypeInfo s_value_;
-  static bool s_initialized_;
 
  public:
   static TypeInfo const& value();
@@ -142,7 +141,6 @@ struct type_info<T*>
 {
  private:
   static TypeInfo s_value_;
-  static bool s_initialized_;
 
  public:
   static TypeInfo const& value();
@@ -155,7 +153,6 @@ struct type_info<void*>
 {
  private:
   static TypeInfo s_value_;
-  static bool s_initialized_;
 
  public:
   static TypeInfo const& value();
@@ -165,19 +162,13 @@ struct type_info<void*>
 template <typename T>
 TypeInfo type_info<T>::s_value_;
 
-// _private_::
-template <typename T>
-bool type_info<T>::s_initialized_;
-
 // _private_::
 template <typename T>
 TypeInfo const& type_info<T>::value()
 {
-  if (!s_initialized_)
-  {
-    s_value_.init(typeid(T).name(), sizeof(T), sizeof_pointee_v<T>);
-    s_initialized_ = true;
-  }
+  // This is thread-safe: other threads wait until the initialization finished.
+  static bool const initialized = (s_value_.init(typeid(T).name(), sizeof(T), sizeof_pointee_v<T>), true);
+  (void)initialized;
   return s_value_;
 }
 
@@ -185,19 +176,13 @@ TypeInfo const& type_info<T>::value()
 template <typename T>
 TypeInfo type_info<T*>::s_value_;
 
-// _private_::
-template <typename T>
-bool type_info<T*>::s_initialized_;
-
 // _private_::
 template <typename T>
 TypeInfo const& type_info<T*>::value()
 {
-  if (!s_initialized_)
-  {
-    s_value_.init(typeid(T*).name(), sizeof(T*), sizeof_ref_v<T>);
-    s_initialized_ = true;
-  }
+  // This is thread-safe: other threads wait until the initialization finished.
+  static bool const initialized = (s_value_.init(typeid(T*).name(), sizeof(T*), sizeof_ref_v<T>), true);
+  (void)initialized;
   return s_value_;
 }
 
@@ -212,7 +197,6 @@ struct libcwd_type_info_exact
 {
  private:
   static ::libcwd::TypeInfo s_value_;
-  static bool s_initialized_;
 
  public:
   static ::libcwd::TypeInfo const& value();
@@ -224,7 +208,6 @@ struct libcwd_type_info_exact<T*>
 {
  private:
   static ::libcwd::TypeInfo s_value_;
-  static bool s_initialized_;
 
  public:
   static ::libcwd::TypeInfo const& value();
@@ -236,7 +219,6 @@ struct libcwd_type_info_exact<void*>
 {
  private:
   static ::libcwd::TypeInfo s_value_;
-  static bool s_initialized_;
 
  public:
   static ::libcwd::TypeInfo const& value();
@@ -245,42 +227,32 @@ struct libcwd_type_info_exact<void*>
 template <typename T>
 ::libcwd::TypeInfo libcwd_type_info_exact<T>::s_value_;
 
-template <typename T>
-bool libcwd_type_info_exact<T>::s_initialized_;
-
 template <typename T>
 ::libcwd::TypeInfo const& libcwd_type_info_exact<T>::value()
 {
-  if (!s_initialized_)
-  {
-    s_value_.init(::libcwd::_private_::extract_exact_name(
+  // This is thread-safe: other threads wait until the initialization finished.
+  static bool const initialized = (s_value_.init(::libcwd::_private_::extract_exact_name(
           typeid(libcwd_type_info_exact<T>).name(),
           typeid(T).name()),
         sizeof(T),
-        ::libcwd::_private_::sizeof_pointee_v<T>);
-    s_initialized_ = true;
-  }
+        ::libcwd::_private_::sizeof_pointee_v<T>), true);
+  (void)initialized;
   return s_value_;
 }
 
 template <typename T>
 ::libcwd::TypeInfo libcwd_type_info_exact<T*>::s_value_;
 
-template <typename T>
-bool libcwd_type_info_exact<T*>::s_initialized_;
-
 template <typename T>
 ::libcwd::TypeInfo const& libcwd_type_info_exact<T*>::value()
 {
-  if (!s_initialized_)
-  {
-    s_value_.init(::libcwd::_private_::extract_exact_name(
+  // This is thread-safe: other threads wait until the initialization finished.
+  static bool const initialized = (s_value_.init(::libcwd::_private_::extract_exact_name(
           typeid(libcwd_type_info_exact<T*>).name(),
           typeid(T*).name()),
         sizeof(T*),
-        ::libcwd::_private_::sizeof_ref_v<T>);
-    s_initialized_ = true;
-  }
+        ::libcwd::_private_::sizeof_ref_v<T>), true);
+  (void)initialized;
   return s_value_;
 }
 
diff --git a/src/type_info.cxx b/src/type_info.cxx
index 25aab24..10908e7 100644
--- a/src/type_info.cxx
+++ b/src/type_info.cxx
@@ -79,15 +79,11 @@ char const* make_label(char const* mangled_name)
 
 TypeInfo type_info<void*>::s_value_;
 
-bool type_info<void*>::s_initialized_;
-
 TypeInfo const& type_info<void*>::value()
 {
-  if (!s_initialized_)
-  {
-    s_value_.init(typeid(void*).name(), sizeof(void*), 0 /* unknown */);
-    s_initialized_ = true;
-  }
+  // This is thread-safe: other threads wait until the initialization finished.
+  static bool const initialized = (s_value_.init(typeid(void*).name(), sizeof(void*), 0 /* unknown */), true);
+  (void)initialized;
   return s_value_;
 }
 
@@ -97,22 +93,16 @@ TypeInfo const& type_info<void*>::value()
 
 libcwd::TypeInfo libcwd_type_info_exact<void*>::s_value_;
 
-bool libcwd_type_info_exact<void*>::s_initialized_;
-
 libcwd::TypeInfo const& libcwd_type_info_exact<void*>::value()
 {
-  if (!s_initialized_)
-  {
+  // This is thread-safe: other threads wait until the initialization finished.
+  static bool const initialized = (s_value_.init(
 #if __GXX_ABI_VERSION == 0
-    s_value_.init(
         ::libcwd::_private_::extract_exact_name(typeid(libcwd_type_info_exact<void*>).name()),
-        sizeof(void*), 0 /* unknown */);
 #else
-    s_value_.init(::libcwd::_private_::extract_exact_name(typeid(libcwd_type_info_exact<void*>).name(),
-                                                          typeid(void*).name()),
-                  sizeof(void*), 0 /* unknown */);
+        ::libcwd::_private_::extract_exact_name(typeid(libcwd_type_info_exact<void*>).name(), typeid(void*).name()),
 #endif
-    s_initialized_ = true;
-  }
+        sizeof(void*), 0 /* unknown */), true);
+  (void)initialized;
   return s_value_;
 }
-- 
2.43.0


From dcf4c9c544dd774214cc941d43a16a97384ea05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 54/59] fix: an operator name that does not exist is not
 demangled

---
 include/cwd_demangle.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 8a8fbd5..86ce982 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -1174,7 +1174,9 @@ bool session<Allocator>::decode_operator_name(string_type& output)
     {
       int index = static_cast<int>(static_cast<unsigned char>(hash));
       Entry entry = symbol_name_table_c[index];
-      if (entry.opcode[0] == opcode0 && entry.opcode[1] == opcode1 && (opcode1 == current() || entry.opcode[2] == '='))
+      // There is no operator "as", only "aS".
+      if (entry.opcode[0] == opcode0 && entry.opcode[1] == opcode1 &&
+          (opcode1 == current() ? index != 18 : entry.opcode[2] == '='))
       {
         output += entry.symbol_name;
         if (opcode1 != current())
@@ -1184,7 +1186,7 @@ bool session<Allocator>::decode_operator_name(string_type& output)
           template_args_need_space_ = true;
         _GLIBCXX_DEMANGLER_RETURN;
       }
-      else if (opcode0 == 'c' && opcode1 == 'v') // casting operator
+      else if (opcode0 == 'c' && current() == 'v') // casting operator
       {
         eat_current();
         output += "operator ";
@@ -1349,7 +1351,7 @@ bool session<Allocator>::decode_expression(string_type& output)
         int index = static_cast<int>(static_cast<unsigned char>(hash));
         Entry entry = symbol_name_table_c[index];
         if (entry.opcode[0] == opcode0 && entry.opcode[1] == opcode1 &&
-            (opcode1 == current() || entry.opcode[2] == '='))
+            (opcode1 == current() ? index != 18 : entry.opcode[2] == '=')) // There is no operator "as".
         {
           char const* op = entry.symbol_name + 8; // Skip "operator".
           if (*op == ' ') // operator new and delete.
@@ -1392,7 +1394,7 @@ bool session<Allocator>::decode_expression(string_type& output)
           }
           _GLIBCXX_DEMANGLER_RETURN;
         }
-        else if (opcode0 == 'c' && opcode1 == 'v') // casting operator.
+        else if (opcode0 == 'c' && current() == 'v') // casting operator.
         {
           eat_current();
           output += '(';
-- 
2.43.0


From 2a5872a3e0ab225a341e86a04e30399392d4a623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 55/59] fix: a nested name with a component in a place where it
 can not be is not demangled

---
 include/cwd_demangle.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 86ce982..8810c95 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -2168,12 +2168,13 @@ bool session<Allocator>::decode_nested_name(string_type& output, string_type& qu
     ++number_of_prefixes;
     if (current() == 'S')
     {
-      if (!decode_substitution(output))
+      // A substitution can only be the first prefix, and something has to follow it.
+      if (number_of_prefixes > 1 || !decode_substitution(output) || current() == 'E')
         _GLIBCXX_DEMANGLER_FAILURE;
     }
     else if (current() == 'I')
     {
-      if (!decode_template_args(output))
+      if (number_of_prefixes == 1 || !decode_template_args(output))
         _GLIBCXX_DEMANGLER_FAILURE;
       if (current() != 'E')
       {
@@ -2185,7 +2186,8 @@ bool session<Allocator>::decode_nested_name(string_type& output, string_type& qu
     {
       if (current() == 'T')
       {
-        if (!decode_template_param(output))
+        // The same is true for a template parameter.
+        if (number_of_prefixes > 1 || !decode_template_param(output) || current() == 'E')
           _GLIBCXX_DEMANGLER_FAILURE;
       }
       else if (!decode_unqualified_name(output))
-- 
2.43.0


From 092015ee038c1c238898644615554a24c461768a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:06 +0000
Subject: [PATCH 56/59] fix: the xterm setting of the configuration file is not
 a format string

---
 src/utils/attach_gdb.cxx | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/utils/attach_gdb.cxx b/src/utils/attach_gdb.cxx
index f81f711..33a0fdb 100644
--- a/src/utils/attach_gdb.cxx
+++ b/src/utils/attach_gdb.cxx
@@ -27,6 +27,29 @@ int libcwd_attach_gdb_hook = 0;
 
 namespace libcwd {
 
+// Copy at most size - 1 characters of format, with every "%s" replaced by command and every "%%" by a '%', to buf.
+// Anything else is copied literally: format comes from the rcfile, which can contain any character.
+// Returns the length of the full result.
+static size_t expand_command(char* buf, size_t size, std::string const& format, char const* command)
+{
+  std::string result;
+  for (size_t i = 0; i < format.size(); ++i)
+  {
+    bool const is_directive = format[i] == '%' && i + 1 < format.size();
+    if (is_directive && format[i + 1] == 's')
+    {
+      result += command;
+      ++i;
+      continue;
+    }
+    if (is_directive && format[i + 1] == '%')
+      ++i;
+    result += format[i];
+  }
+  buf[result.copy(buf, size - 1)] = '\0';
+  return result.size();
+}
+
 void attach_gdb()
 {
   pid_t pid1 = getpid();
@@ -46,7 +69,7 @@ void attach_gdb()
     __DoutFatal(dc::fatal, "rcfile: value of keyword 'gdb' is empty. Did you call Debug(read_rcfile()) at all?");
   char command2[512];
   __Dout(dc::always, "xterm = \"" << rcfile.konsole_command() << "\".");
-  len = snprintf(command2, sizeof(command2), rcfile.konsole_command().c_str(), command);
+  len = expand_command(command2, sizeof(command2), rcfile.konsole_command(), command);
   __Dout(dc::always, "Executing \"" << command2 << "\".");
   if (len >= sizeof(command2))
     __DoutFatal(dc::fatal, "rcfile: value of keyword 'xterm' too long (" << rcfile.konsole_command());
-- 
2.43.0


From 7bb54a308f5aeaa37d72668cc9316ac79ebbc9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:11 +0000
Subject: [PATCH 57/59] fix: a thread that ends without popping its margin or
 marker leaked memory

---
 src/debug.cxx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/debug.cxx b/src/debug.cxx
index 8075ae5..3858f5d 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -1345,6 +1345,15 @@ DebugObject_ThreadSpecificData::~DebugObject_ThreadSpecificData()
   color_off.deinitialize();
   margin.deinitialize();
   marker.deinitialize();
+  // Free what was pushed and not popped.
+  for (DebugStringStackElement* top : {margin_stack, marker_stack})
+    while (top)
+    {
+      DebugStringStackElement* next = top->next;
+      top->debug_string.deinitialize();
+      free(top);
+      top = next;
+    }
   if (!tsd_initialized) // Skip the rest when it wasn't initialized.
     return;
   // Sanity checks:
-- 
2.43.0


From 8c150b24d5426d17f05c64a662b9514e2ee5d525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:11 +0000
Subject: [PATCH 58/59] fix: a second reading of the configuration file
 reported an environment variable that is not set

---
 src/utils/rcfile.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utils/rcfile.cxx b/src/utils/rcfile.cxx
index 0f1b29a..3e4daf3 100644
--- a/src/utils/rcfile.cxx
+++ b/src/utils/rcfile.cxx
@@ -43,7 +43,10 @@ std::string RcFile::determine_rcfile_name()
 {
   // Can be overridden with the environment variable LIBCWD_RCFILE_NAME
   if (!(rcname_ = getenv("LIBCWD_RCFILE_NAME")))
+  {
     rcname_ = ".libcwdrc"; // Default rcfile name.
+    env_set_ = false; // Might still be set from a previous call.
+  }
   else
     env_set_ = true;
   std::string rcfile_name;
-- 
2.43.0


From 3faff815a9cde285f789200f5cd159ffdac62155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:40 +0000
Subject: [PATCH 59/59] fix: attach_gdb reported an exit code that it did not
 get when SIGCHLD is ignored

---
 src/utils/attach_gdb.cxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utils/attach_gdb.cxx b/src/utils/attach_gdb.cxx
index 33a0fdb..ba7ba70 100644
--- a/src/utils/attach_gdb.cxx
+++ b/src/utils/attach_gdb.cxx
@@ -106,18 +106,19 @@ void attach_gdb()
           if (pid3 == pid2 || ((int)pid3 == -1 && errno == ECHILD))
           {
             libcwd_attach_gdb_hook = 0;
-            if (WIFEXITED(status))
+            bool const have_status = pid3 == pid2; // Not if the application ignores SIGCHLD or waited for the child itself.
+            if (have_status && WIFEXITED(status))
               __DoutFatal(dc::core,
                         "Failed to start gdb: 'xterm' terminated with exit code "
                             << WEXITSTATUS(status)
                             << " before attaching to the process. This can happen when you call attach_gdb from "
                                "the destructor of a global object. It also happens when gdb fails to attach, "
                                "for example because you already run the application inside gdb.");
-            else if (WIFSIGNALED(status))
+            else if (have_status && WIFSIGNALED(status))
               __DoutFatal(dc::core, "Failed to start gdb: 'xterm' terminated because of (uncaught) signal "
                                       << WTERMSIG(status) << " before attaching to the process.");
 #ifdef WCOREDUMP
-            else if (WCOREDUMP(status))
+            else if (have_status && WCOREDUMP(status))
               __DoutFatal(dc::core, "Failed to start gdb: 'xterm' dumped core before attaching to the process.");
 #endif
             __DoutFatal(dc::core, "Failed to start gdb: 'xterm' terminated before attaching to the process.");
-- 
2.43.0

