From 46129b9c267db8b86abfd4466f92cf2552818842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:42 +0000
Subject: [PATCH 01/34] fix: tokenize '>>' as right shift

The token table mapped '>>' to OP_LSHIFT, so `8 >> 1` evaluated `8 << 1`.
---
 src/token.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.cpp b/src/token.cpp
index 58a87b6..ceaf7f6 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -394,7 +394,7 @@ std::optional<Token> scanSyntax(Scanner& s)
         {"/", Token::OP_DIV},
         {"%", Token::OP_MOD},
         {"<<",Token::OP_LSHIFT},
-        {">>",Token::OP_LSHIFT},
+        {">>",Token::OP_RSHIFT},
         {"~", Token::OP_BITINV},
         {"|", Token::OP_BITOR},
         {"&", Token::OP_BITAND},
-- 
2.43.0


From 3f9bf2fc73a505f423a12426113f20e33aad1139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:42 +0000
Subject: [PATCH 02/34] fix: reject embedded NUL characters instead of ignoring
 the rest of the query

---
 src/token.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.cpp b/src/token.cpp
index ceaf7f6..09f2480 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -434,7 +434,7 @@ std::vector<Token> tokenize(std::string_view expr)
         else if (auto t = scanSyntax(s))
             tokens.push_back(std::move(*t));
         else {
-            if (s.at(0) != '\0')
+            if (s)
                 s.fail("Invalid input");
             break;
         }
-- 
2.43.0


From b0172c7b6fce1cd375b53a1fa4fc433784c8327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:42 +0000
Subject: [PATCH 03/34] fix: require a binary digit after '0b'

'0bA' passed the hexadecimal digit check, was then not scanned as a number,
and silently lost its '0b' prefix.
---
 src/token.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.cpp b/src/token.cpp
index 09f2480..7b29b46 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -336,7 +336,7 @@ std::optional<Token> scanNumber(Scanner& s)
     else if (s.match("0b", Scanner::Skip))
         base = 2;
 
-    if (base != 10 && !isxdigit(s.at(0)))
+    if ((base == 16 && !isxdigit(s.at(0))) || (base == 2 && s.at(0) != '0' && s.at(0) != '1'))
         s.fail("Expected at least one digit after base specifier");
 
     if (isdigit(s.at(0)) || (s.at(0) == '.' && isdigit(s.at(1))) || base > 10) {
-- 
2.43.0


From 83bab1457f5205fb8b2aab71d4212b8a4f19fa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:42 +0000
Subject: [PATCH 04/34] fix: reject integer literals that do not fit 64 bits

The accumulation overflowed int64_t (undefined behaviour).
---
 src/token.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/token.cpp b/src/token.cpp
index 7b29b46..5546b3b 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -8,6 +8,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <cassert>
+#include <limits>
 #include <ostream>
 #include <stdexcept>
 #include <string_view>
@@ -342,8 +343,10 @@ std::optional<Token> scanNumber(Scanner& s)
     if (isdigit(s.at(0)) || (s.at(0) == '.' && isdigit(s.at(1))) || base > 10) {
         int64_t n = 0;
         while (isdigit(s.at(0)) || (base > 10 && isxdigit(s.at(0)))) {
-            n *= base;
-            n += chr2digit(s, base, s.pop());
+            const auto digit = chr2digit(s, base, s.pop());
+            if (n > (std::numeric_limits<int64_t>::max() - digit) / base)
+                s.fail("Integer literal out of range");
+            n = n * base + digit;
         }
 
         if (s.match(".", Scanner::Skip)) {
-- 
2.43.0


From 292635634cf75b77fd5860bf510f13eeed8f8471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:42 +0000
Subject: [PATCH 05/34] fix: include the prefix of raw and regexp literals in
 their token range

---
 src/token.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.cpp b/src/token.cpp
index 5546b3b..3b9973f 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -229,6 +229,7 @@ std::optional<Token> scanStringLiteral(Scanner& s)
     const auto raw =
         s.match("r'") || s.match("R'") ||
         s.match("r\"") || s.match("R\"");
+    const auto begin = s.pos();
 
     // Test for regexp
     const auto regexp =
@@ -242,7 +243,6 @@ std::optional<Token> scanStringLiteral(Scanner& s)
 
     const auto quote = s.at(0);
     if (quote == '"' || quote == '\'') {
-        auto begin = s.pos();
         s.skip();
 
         std::string text;
-- 
2.43.0


From 676e54a9c634a6326379ff8b62140a8bbf7133af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:42 +0000
Subject: [PATCH 06/34] fix: do not call <cctype> functions with negative
 characters

Passing a negative char (any non-ASCII byte) is undefined behaviour.
---
 src/token.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/token.cpp b/src/token.cpp
index 3b9973f..8745962 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -22,7 +22,7 @@ namespace
 
 std::string downcase(std::string s)
 {
-    std::transform(s.begin(), s.end(), s.begin(), [](auto c) {
+    std::transform(s.begin(), s.end(), s.begin(), [](unsigned char c) {
         return tolower(c);
     });
     return s;
@@ -136,7 +136,8 @@ struct Scanner
         sv_.remove_prefix(n);
     }
 
-    auto at(std::size_t offset) const
+    /* Unsigned, because the <cctype> functions must not be called with negative values. */
+    auto at(std::size_t offset) const -> unsigned char
     {
         return sv_.size() > offset ? sv_[offset] : '\0';
     }
-- 
2.43.0


From e919cec89cda492dc37d0c5f670336216f47c7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:42 +0000
Subject: [PATCH 07/34] fix: reject letters and points after numbers in
 scientific notation

`1e5x` was tokenized as the number 1e5 followed by the word x.
---
 src/token.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/token.cpp b/src/token.cpp
index 8745962..450b24d 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -367,10 +367,11 @@ std::optional<Token> scanNumber(Scanner& s)
         }
 
         /* SCI notation results in float if exponent != 0 (=1) */
-        if (auto sci = parseSciSuffix(s); sci != 1)
-            return Token(Token::FLOAT, n * sci, begin, s.pos());
+        const auto sci = parseSciSuffix(s);
         if (isalpha(s.at(0)) || s.at(0) == '.')
             s.fail("Unexpected non-digit character");
+        if (sci != 1)
+            return Token(Token::FLOAT, n * sci, begin, s.pos());
 
         return Token(Token::INT, n, begin, s.pos());
     }
-- 
2.43.0


From 7fea33a96c69acf66371007e977c35bf5ed01454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 08/34] fix: a copied string pool must not refer to strings of
 the original

---
 src/model/string-pool.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index dcc7bfc..782a1e2 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -81,8 +81,17 @@ StringPool::StringPool(const StringPool& other)
         }
     }
 
-    // Copy stringForId_.
-    stringForId_ = other.stringForId_;
+    // Rebuild stringForId_ the same way, so that no view refers to strings of the other pool.
+    for (const auto& [id, oldStrView] : other.stringForId_) {
+        auto it = strDataToNewStrView.find(oldStrView.data());
+        if (it != strDataToNewStrView.end()) {
+            stringForId_.emplace(id, it->second);
+        }
+        else {
+            // This should not happen if everything is consistent.
+            raise<std::runtime_error>("Failed to rebuild stringForId_ in StringPool copy constructor");
+        }
+    }
 
     // Copy other member variables.
     nextId_ = other.nextId_;
-- 
2.43.0


From 9dd8f7556451186949df76cef6eaf4687526348f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 09/34] fix: hold the string pool's lock in highest() and
 operator==

---
 src/model/string-pool.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index 782a1e2..9897d6b 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -156,6 +156,7 @@ std::optional<std::string_view> StringPool::resolve(const StringId& id) const
 
 StringId StringPool::highest() const
 {
+    std::shared_lock stringStoreReadAccess_(stringStoreMutex_);
     return nextId_ - 1;
 }
 
@@ -195,7 +196,7 @@ void StringPool::write(std::ostream& outputStream, const StringId offset) const
 
     // Calculate how many strings will be sent
     StringId sendStrCount = 0;
-    const auto high = highest();
+    const StringId high = nextId_ - 1;
     for (auto strId = offset; strId <= high; ++strId) {
         auto it = stringForId_.find(strId);
         if (it != stringForId_.end())
@@ -250,6 +251,12 @@ void StringPool::read(std::istream& inputStream)
 }
 
 bool StringPool::operator==(const StringPool &other) const {
+    if (this == &other)
+        return true;
+
+    std::shared_lock lockThis(stringStoreMutex_, std::defer_lock);
+    std::shared_lock lockOther(other.stringStoreMutex_, std::defer_lock);
+    std::lock(lockThis, lockOther);
     return idForString_ == other.idForString_;
 }
 
-- 
2.43.0


From 74b29d6c0aec43df92cd1ac9b802825aea247ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 10/34] fix: leave the string pool unchanged when it runs out
 of ids

---
 src/model/string-pool.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index 9897d6b..b95f693 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -119,12 +119,14 @@ StringId StringPool::emplace(std::string_view const& str)
             return it->second;
         }
 
+        // The highest representable id is never handed out, so that nextId_ can not wrap.
+        if (nextId_ == std::numeric_limits<StringId>::max()) {
+            raise<std::overflow_error>("StringPool id overflow!");
+        }
+
         // Store the string to maintain ownership.
         auto& storedString = storedStrings_.emplace_back(str);
         StringId id = nextId_++;
-        if (nextId_ < id) {
-            raise<std::overflow_error>("StringPool id overflow!");
-        }
         idForString_.emplace(storedString, id);
         stringForId_.emplace(id, storedString);
         byteSize_ += static_cast<int64_t>(storedString.size());
-- 
2.43.0


From be8bfa4231e47363f2a5ca258e5d3344b1224569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:49 +0000
Subject: [PATCH 11/34] fix: report conflicting entries when reading a string
 pool

---
 src/model/string-pool.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index b95f693..413effc 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -235,6 +235,21 @@ void StringPool::read(std::istream& inputStream)
         // Don't support strings longer than 64kB.
         auto& stringValue = storedStrings_.emplace_back();
         s.text1b(stringValue, std::numeric_limits<uint16_t>::max());
+        if (s.adapter().error() != bitsery::ReaderError::NoError) {
+            storedStrings_.pop_back();
+            break;
+        }
+
+        // Known strings and ids must match what is received, the highest id is never handed out.
+        auto knownString = idForString_.find(stringValue);
+        auto knownId = stringForId_.find(stringId);
+        auto conflict = knownString != idForString_.end()
+            ? knownString->second != stringId
+            : knownId != stringForId_.end();
+        if (conflict || stringId == std::numeric_limits<StringId>::max()) {
+            storedStrings_.pop_back();
+            raise<std::runtime_error>(fmt::format("Failed to read StringPool: Conflicting id {}", stringId));
+        }
 
         // Insert string into the pool
         auto [it, insertionTookPlace] = idForString_.try_emplace(stringValue, stringId);
-- 
2.43.0


From 59acc2df0e9e875dda04011ca9a5c334e30eada5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:17 +0000
Subject: [PATCH 12/34] fix: do not call <cctype> functions with negative
 characters of names

---
 include/simfil/environment.h | 2 +-
 src/simfil.cpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/simfil/environment.h b/include/simfil/environment.h
index b8ddd65..5a3eb0c 100644
--- a/include/simfil/environment.h
+++ b/include/simfil/environment.h
@@ -27,7 +27,7 @@ struct CaseInsensitiveCompare
 {
     auto operator()(const std::string_view& l, const std::string_view& r) const -> bool
     {
-        return std::lexicographical_compare(l.begin(), l.end(), r.begin(), r.end(), [](auto lc, auto rc) {
+        return std::lexicographical_compare(l.begin(), l.end(), r.begin(), r.end(), [](unsigned char lc, unsigned char rc) {
             return tolower(lc) < tolower(rc);
         });
     }
diff --git a/src/simfil.cpp b/src/simfil.cpp
index a987a40..52a18bd 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -105,7 +105,7 @@ static auto expect(const ExprPtr& e, Type... types)
 static auto isSymbolWord(std::string_view sv) -> bool
 {
     auto numUpperCaseLetters = 0;
-    return std::all_of(sv.begin(), sv.end(), [&numUpperCaseLetters](auto c) {
+    return std::all_of(sv.begin(), sv.end(), [&numUpperCaseLetters](unsigned char c) {
        if (std::isupper(c)) {
            ++numUpperCaseLetters;
            return true;
-- 
2.43.0


From 44693a3f1cb6e8ab4c9783b02c0a07117d743f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 13/34] fix: report invalid regular expressions through the
 error hook

---
 src/types.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/types.cpp b/src/types.cpp
index 81cb5ec..6de8d3d 100644
--- a/src/types.cpp
+++ b/src/types.cpp
@@ -99,7 +99,12 @@ auto ReType::make(std::string_view expr) -> Value
     auto obj = TransientObject(&ReType::Type);
     auto re = get(obj);
     re->str = expr;
-    re->re = std::regex(std::string(expr));
+    try {
+        re->re = std::regex(re->str);
+    } catch (const std::regex_error& err) {
+        // Report it through the error hook like every other error.
+        raise<std::runtime_error>(fmt::format("Invalid regular expression '{}': {}", re->str, err.what()));
+    }
 
     return Value(ValueType::TransientObject, std::move(obj));
 }
-- 
2.43.0


From 4d3cf25c8d7ae0147fe72d47f8d7945772d129bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 14/34] fix: give integer operators a defined result for every
 operand

---
 include/simfil/operator.h | 42 ++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/include/simfil/operator.h b/include/simfil/operator.h
index 884eff0..7900adf 100644
--- a/include/simfil/operator.h
+++ b/include/simfil/operator.h
@@ -81,8 +81,13 @@ struct OperatorNegate
 {
     NAME("-")
     DENY_OTHER()
-    DECL_OPERATION(int64_t, -)
     DECL_OPERATION(double,  -)
+
+    /* Wraps around on overflow. */
+    auto operator()(int64_t v) const -> int64_t
+    {
+        return static_cast<int64_t>(0 - static_cast<uint64_t>(v));
+    }
 };
 
 struct OperatorBool
@@ -209,7 +214,10 @@ struct OperatorAsInt
 
     auto operator()(double v) const
     {
-        return static_cast<int64_t>(v);
+        /* NaN and values outside the range of int64_t can not be converted. */
+        if (v >= -9223372036854775808.0 && v < 9223372036854775808.0)
+            return static_cast<int64_t>(v);
+        return (int64_t)0;
     }
 
     auto operator()(const std::string& v) const
@@ -353,13 +361,20 @@ struct OperatorAsString
         return a op b;                                              \
     }
 
+/* Integer operation that wraps around on overflow. */
+#define DECL_WRAPPING_OPERATION(op)                                       \
+    auto operator()(int64_t a, int64_t b) const -> int64_t                \
+    {                                                                     \
+        return static_cast<int64_t>(                                      \
+            static_cast<uint64_t>(a) op static_cast<uint64_t>(b));        \
+    }
 
 struct OperatorAdd
 {
     NAME("+")
     DENY_OTHER()
     NULL_AS_NULL()
-    DECL_OPERATION(int64_t,            int64_t,            +)
+    DECL_WRAPPING_OPERATION(+)
     DECL_OPERATION(int64_t,            double,             +)
     DECL_OPERATION(double,             int64_t,            +)
     DECL_OPERATION(double,             double,             +)
@@ -408,7 +423,7 @@ struct OperatorSub
     NAME("-")
     DENY_OTHER()
     NULL_AS_NULL()
-    DECL_OPERATION(int64_t,     int64_t,     -)
+    DECL_WRAPPING_OPERATION(-)
     DECL_OPERATION(int64_t,     double,      -)
     DECL_OPERATION(double,      int64_t,     -)
     DECL_OPERATION(double,      double,      -)
@@ -419,7 +434,7 @@ struct OperatorMul
     NAME("*")
     DENY_OTHER()
     NULL_AS_NULL()
-    DECL_OPERATION(int64_t,     int64_t,     *)
+    DECL_WRAPPING_OPERATION(*)
     DECL_OPERATION(int64_t,     double,      *)
     DECL_OPERATION(double,      int64_t,     *)
     DECL_OPERATION(double,      double,      *)
@@ -435,6 +450,8 @@ struct OperatorDiv
     {
         if (r == 0)
             raise<std::runtime_error>("Division by zero");
+        if (r == -1) /* Wraps around on overflow. */
+            return static_cast<int64_t>(0 - static_cast<uint64_t>(l));
         return static_cast<int64_t>(l / r);
     }
 
@@ -470,6 +487,8 @@ struct OperatorMod
     {
         if (r == 0)
             raise<std::runtime_error>("Division by zero");
+        if (r == -1)
+            return 0;
         return static_cast<int64_t>(l % r);
     }
 };
@@ -606,7 +625,11 @@ struct OperatorShl
     NULL_AS_NULL()
     INT_AS_UINT()
     DENY_OTHER()
-    DECL_OPERATION(uint64_t,     uint64_t,     <<)
+
+    auto operator()(uint64_t l, uint64_t r) const -> uint64_t
+    {
+        return r < 64 ? l << r : 0;
+    }
 };
 
 struct OperatorShr
@@ -615,11 +638,16 @@ struct OperatorShr
     NULL_AS_NULL()
     INT_AS_UINT()
     DENY_OTHER()
-    DECL_OPERATION(uint64_t,     uint64_t,     >>)
+
+    auto operator()(uint64_t l, uint64_t r) const -> uint64_t
+    {
+        return r < 64 ? l >> r : 0;
+    }
 };
 
 #undef DENY_OTHER
 #undef DECL_OPERATION
+#undef DECL_WRAPPING_OPERATION
 #undef NULL_AS
 #undef NULL_AS_NULL
 #undef NAME
-- 
2.43.0


From bb802ea15cfdb9b674f00b1c31cdb7921e84665e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 15/34] fix: casting a model node to float yields a float

---
 include/simfil/operator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/simfil/operator.h b/include/simfil/operator.h
index 7900adf..f83837e 100644
--- a/include/simfil/operator.h
+++ b/include/simfil/operator.h
@@ -266,7 +266,7 @@ struct OperatorAsFloat
 
     auto operator()(const ModelNode&) const
     {
-        return (int64_t)0.0;
+        return (double)0.0;
     }
 
     NULL_AS((double)0)
-- 
2.43.0


From e70e6fda5c56f5c64bfb6e9ec44b5cc182aef849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 16/34] fix: no integer overflow in ranges at the limits of int

---
 src/types.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/types.cpp b/src/types.cpp
index 6de8d3d..05441ab 100644
--- a/src/types.cpp
+++ b/src/types.cpp
@@ -34,7 +34,7 @@ auto IRangeType::unaryOp(std::string_view op, const IRange& self) const -> Value
         return Value::make(fmt::format("{}..{}", self.begin, self.end));
 
     if (op == OperatorLen::name())
-        return Value::make(static_cast<int64_t>(self.high() - self.low()));
+        return Value::make(static_cast<int64_t>(static_cast<uint64_t>(self.high()) - static_cast<uint64_t>(self.low())));
 
     raise<InvalidOperandsError>(op);
 }
@@ -81,12 +81,9 @@ auto IRangeType::unpack(const IRange& self, std::function<bool(Value)> res) cons
     auto step = 1;
     if (begin > end)
         step = -1;
-    auto i = begin - step;
-    do {
+    auto i = begin;
+    while (res(Value(ValueType::Int, static_cast<int64_t>(i))) && i != end)
         i += step;
-        if (!res(Value(ValueType::Int, static_cast<int64_t>(i))))
-            return;
-    } while (i != end);
 }
 
 ReType ReType::Type;
-- 
2.43.0


From 6a05a8e1ad9f6a34012fbcf161fb079fa69b51e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:27 +0000
Subject: [PATCH 17/34] fix: assigning to and from moved-from user-defined
 values, and self-assignment

---
 include/simfil/transient.h | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/include/simfil/transient.h b/include/simfil/transient.h
index 03f27de..f7cf396 100644
--- a/include/simfil/transient.h
+++ b/include/simfil/transient.h
@@ -4,6 +4,7 @@
 
 #include <string>
 #include <string_view>
+#include <utility>
 
 namespace simfil
 {
@@ -50,14 +51,14 @@ struct TransientObject
     void* data = nullptr;
 
     TransientObject(const TransientObject& other)
-        : meta(other.meta), data(meta->copy(other.data))
+        : meta(other.meta), data(meta ? meta->copy(other.data) : nullptr)
     {}
 
-    auto operator=(const TransientObject& other)
+    auto operator=(const TransientObject& other) -> TransientObject&
     {
-        meta->deinit(data);
-        meta = other.meta;
-        data = meta->copy(other.data);
+        TransientObject copy(other);
+        std::swap(meta, copy.meta);
+        std::swap(data, copy.data);
         return *this;
     }
 
@@ -69,13 +70,11 @@ struct TransientObject
         other.data = nullptr;
     }
 
-    auto operator=(TransientObject&& other)
+    auto operator=(TransientObject&& other) -> TransientObject&
     {
-        meta->deinit(data);
-        meta = std::move(other.meta);
-        data = std::move(other.data);
-        other.meta = nullptr;
-        other.data = nullptr;
+        TransientObject moved(std::move(other));
+        std::swap(meta, moved.meta);
+        std::swap(data, moved.data);
         return *this;
     }
 
-- 
2.43.0


From 181c7757abd2331a30881535f10bdf75753bc59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 18/34] fix: report a stop to the caller of an expression, and
 only if it was asked for

---
 src/function.cpp |  9 +++++----
 src/simfil.cpp   | 26 ++++++++++++--------------
 2 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/function.cpp b/src/function.cpp
index 716947a..c9f3e8c 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -508,7 +508,7 @@ auto SplitFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, con
     auto items = split(str.as<ValueType::String>(), sep.as<ValueType::String>(), !keepEmpty.as<ValueType::Bool>());
     for (auto&& item : items) {
         if (res(subctx, Value::make(std::move(item))) == Result::Stop)
-            break;
+            return Result::Stop;
     }
 
     return Result::Continue;
@@ -546,15 +546,16 @@ auto SelectFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, co
     if (icnt <= 0)
         icnt = std::numeric_limits<int>::max();
 
-    auto result = args[0]->eval(ctx, val, LambdaResultFn([&, n = -1](Context ctx, Value vv) mutable {
+    auto result = Result::Continue;
+    (void)args[0]->eval(ctx, val, LambdaResultFn([&, n = -1](Context ctx, Value vv) mutable {
         ++n;
         if (ctx.phase == Context::Phase::Compilation)
             if (vv.isa(ValueType::Undef))
-                return res(ctx, std::move(vv));
+                return result = res(ctx, std::move(vv));
         if (n >= iidx + icnt)
             return Result::Stop;
         if (n >= iidx)
-            return res(ctx, std::move(vv));
+            return result = res(ctx, std::move(vv));
         return Result::Continue;
     }));
 
diff --git a/src/simfil.cpp b/src/simfil.cpp
index 52a18bd..43219ec 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -169,16 +169,17 @@ struct CountedResultFn : ResultFn
     }
 
     /* NOTE: You _must_ call finish before destruction! */
-    auto ensureCall()
+    /* Returns the result of the call, or `result` if nothing had to be called. */
+    auto ensureCall(Result result) -> Result
     {
         assert(!finished);
         if (calls == 0 && !finished) {
             finished = true;
             if (nonctx.phase == Context::Phase::Compilation)
-                fn(nonctx, Value::undef());
-            else
-                fn(nonctx, Value::null());
+                return fn(nonctx, Value::undef());
+            return fn(nonctx, Value::null());
         }
+        return result;
     }
 };
 
@@ -227,8 +228,7 @@ public:
         };
 
         auto r = Iterate{ctx, res}.iterate(*val.node, 0);
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     }
 
     auto toString() const -> std::string override
@@ -268,7 +268,7 @@ public:
             return true;
         }));
 
-        return Result::Continue;
+        return result;
     }
 
     auto toString() const -> std::string override
@@ -457,8 +457,7 @@ public:
                 return Result::Continue;
             }));
         }));
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     }
 
     auto toString() const -> std::string override
@@ -505,8 +504,7 @@ public:
                 return Result::Continue;
             }));
         }));
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     }
 
     auto toString() const -> std::string override
@@ -608,8 +606,7 @@ public:
                 return res(ctx, std::move(vv));
             }));
         }));
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     };
 
     auto toString() const -> std::string override
@@ -646,7 +643,8 @@ public:
                 auto r = Result::Continue;
                 obj.meta->unpack(obj, [&](Value vv) {
                     anyval = true;
-                    return res(ctx, std::move(vv)) == Result::Continue;
+                    r = res(ctx, std::move(vv));
+                    return r == Result::Continue;
                 });
 
                 if (r == Result::Stop)
-- 
2.43.0


From c76825d71ecc822be8af51e2df54b398cf27b88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 19/34] fix: do not drop unknown values while folding constants

---
 src/simfil.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index 43219ec..5d17277 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -430,6 +430,9 @@ public:
 
         auto r = left_->eval(ctx, val, LambdaResultFn([this, &val, &res](Context ctx, Value lval) {
             return index_->eval(ctx, val, LambdaResultFn([this, &res, &lval](Context ctx, Value ival) {
+                if (ival.isa(ValueType::Undef))
+                    return res(ctx, Value::undef());
+
                 /* Field subscript */
                 if (lval.node) {
                     ModelNode::Ptr node;
@@ -495,8 +498,8 @@ public:
         auto r = left_->eval(ctx, val, LambdaResultFn([this, &res](Context ctx, Value lv) {
             return sub_->eval(ctx, lv, LambdaResultFn([&res, &lv](Context ctx, Value vv) {
                 auto bv = UnaryOperatorDispatcher<OperatorBool>::dispatch(vv);
-                if (bv.isa(ValueType::Undef))
-                    return Result::Continue;
+                if (bv.isa(ValueType::Undef) && ctx.phase == Context::Phase::Compilation)
+                    return res(ctx, Value::undef());
 
                 if (bv.isa(ValueType::Bool) && bv.template as<ValueType::Bool>())
                     return res(ctx, lv);
@@ -591,14 +594,14 @@ public:
 
         auto r = left_->eval(ctx, val, LambdaResultFn([this, &res](Context ctx, Value v) {
             if (v.isa(ValueType::Undef))
-                return Result::Continue;
+                return res(ctx, Value::undef());
 
             if (v.isa(ValueType::Null) && !v.node)
                 return Result::Continue;
 
             return right_->eval(ctx, std::move(v), LambdaResultFn([this, &res](Context ctx, Value vv) {
                 if (vv.isa(ValueType::Undef))
-                    return Result::Continue;
+                    return res(ctx, Value::undef());
 
                 if (vv.isa(ValueType::Null) && !vv.node)
                     return Result::Continue;
@@ -920,7 +923,7 @@ static auto simplifyOrForward(Environment* env, ExprPtr expr) -> ExprPtr
     std::deque<Value> values;
     auto stub = Context(env, Context::Phase::Compilation);
     (void)expr->eval(stub, Value::undef(), LambdaResultFn([&, n = 0](Context ctx, Value vv) mutable {
-        if (!vv.isa(ValueType::Undef) || vv.node) {
+        if (!vv.isa(ValueType::Undef)) {
             values.push_back(std::move(vv));
             return Result::Continue;
         }
-- 
2.43.0


From c769fe14c160d9ac12f1f8718fb5ac40f7a72af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:25 +0000
Subject: [PATCH 20/34] fix: limit the number of values a constant expression
 is folded to

---
 src/simfil.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index 5d17277..10b145b 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -921,22 +921,21 @@ static auto simplifyOrForward(Environment* env, ExprPtr expr) -> ExprPtr
         return nullptr;
 
     std::deque<Value> values;
+    auto foldable = true;
     auto stub = Context(env, Context::Phase::Compilation);
-    (void)expr->eval(stub, Value::undef(), LambdaResultFn([&, n = 0](Context ctx, Value vv) mutable {
-        if (!vv.isa(ValueType::Undef)) {
-            values.push_back(std::move(vv));
-            return Result::Continue;
-        }
-
-        if (++n > MultiConstExpr::Limit) {
-            values.clear();
+    (void)expr->eval(stub, Value::undef(), LambdaResultFn([&](Context ctx, Value vv) {
+        if (vv.isa(ValueType::Undef) || values.size() >= MultiConstExpr::Limit)
+            foldable = false;
+        if (!foldable)
             return Result::Stop;
-        }
 
-        values.clear();
-        return Result::Stop;
+        values.push_back(std::move(vv));
+        return Result::Continue;
     }));
 
+    if (!foldable)
+        return expr;
+
     /* Warn about constant results */
     if (!values.empty() && std::all_of(values.begin(), values.end(), [](const Value& v) {
         return v.isa(ValueType::Null);
-- 
2.43.0


From 8932fa51b405dc4799671a40300bb389aaabda9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:25 +0000
Subject: [PATCH 21/34] fix: no integer overflow in the bounds of select

---
 src/function.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/function.cpp b/src/function.cpp
index c9f3e8c..be5b32b 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -546,13 +546,16 @@ auto SelectFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, co
     if (icnt <= 0)
         icnt = std::numeric_limits<int>::max();
 
+    constexpr auto maxEnd = std::numeric_limits<int64_t>::max();
+    const auto iend = iidx > maxEnd - icnt ? maxEnd : iidx + icnt;
+
     auto result = Result::Continue;
     (void)args[0]->eval(ctx, val, LambdaResultFn([&, n = -1](Context ctx, Value vv) mutable {
         ++n;
         if (ctx.phase == Context::Phase::Compilation)
             if (vv.isa(ValueType::Undef))
                 return result = res(ctx, std::move(vv));
-        if (n >= iidx + icnt)
+        if (n >= iend)
             return Result::Stop;
         if (n >= iidx)
             return result = res(ctx, std::move(vv));
-- 
2.43.0


From 1cdf52457a4086bb70fc0983edded10fcd575137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:47 +0000
Subject: [PATCH 22/34] fix: wildcards on values without a node deliver null

---
 src/simfil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index 10b145b..c30cf3b 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -227,7 +227,7 @@ public:
             };
         };
 
-        auto r = Iterate{ctx, res}.iterate(*val.node, 0);
+        auto r = val.node ? Iterate{ctx, res}.iterate(*val.node, 0) : Result::Continue;
         return res.ensureCall(r);
     }
 
-- 
2.43.0


From 068a35a871c94e492d9ae2b9881e525f8286d0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:47 +0000
Subject: [PATCH 23/34] fix: overlay nodes on values without a node, and
 overwriting overlay fields

---
 src/overlay.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/overlay.cpp b/src/overlay.cpp
index 612ea8e..b9a40f9 100644
--- a/src/overlay.cpp
+++ b/src/overlay.cpp
@@ -20,7 +20,7 @@ OverlayNode::OverlayNode(ModelNode const& n)
 
 auto OverlayNode::set(StringId const& key, Value const& child) -> void
 {
-    model().overlayChildren_.insert({key, child});
+    model().overlayChildren_.insert_or_assign(key, child);
 }
 
 [[nodiscard]] ScalarValueType OverlayNode::value() const
@@ -41,25 +41,35 @@ auto OverlayNode::set(StringId const& key, Value const& child) -> void
             return iter->second.node;
         return ValueNode(iter->second.getScalar());
     }
+    if (!model().value_.node)
+        return {};
     return model().value_.node->get(key);
 }
 
 [[nodiscard]] ModelNode::Ptr OverlayNode::at(int64_t i) const
 {
+    if (!model().value_.node)
+        return {};
     return model().value_.node->at(i);
 }
 
 [[nodiscard]] StringId OverlayNode::keyAt(int64_t i) const
 {
+    if (!model().value_.node)
+        return {};
     return model().value_.node->keyAt(i);
 }
 
 [[nodiscard]] uint32_t OverlayNode::size() const
 {
+    if (!model().value_.node)
+        return 0;
     return model().value_.node->size();
 }
 
 [[nodiscard]] bool OverlayNode::iterate(IterCallback const& cb) const {
+    if (!model().value_.node)
+        return true;
     return model().value_.node->iterate(cb);
 }
 
-- 
2.43.0


From 6a95381f1f14f964690dcd99e90c1ba835a031f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 24/34] fix: do not fold the sum of unknown values to a
 constant

---
 src/function.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/function.cpp b/src/function.cpp
index be5b32b..6a69915 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -594,6 +594,12 @@ auto SumFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, const
         }));
 
     (void)args[0]->eval(ctx, val, LambdaResultFn([&, n = 0](Context ctx, Value vv) mutable {
+        /* The overlay has no representation for unknown values */
+        if (ctx.phase == Context::Phase::Compilation && (vv.isa(ValueType::Undef) || sum.isa(ValueType::Undef))) {
+            sum = Value::undef();
+            return Result::Stop;
+        }
+
         if (subexpr) {
             auto ov = model_ptr<OverlayNode>::make(vv);
             ov->set(StringPool::OverlaySum, sum);
-- 
2.43.0


From 05aa3b3c37e6cfe869ac12a86f4005b160b90a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 25/34] fix: trace with unknown arguments

---
 src/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function.cpp b/src/function.cpp
index 6a69915..21ca4f9 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -297,7 +297,7 @@ auto TraceFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, con
         .ok();
 
     /* Never run in compilation phase */
-    if (ctx.phase == Context::Phase::Compilation)
+    if (!ok || ctx.phase == Context::Phase::Compilation)
         return res(ctx, Value::undef());
 
     auto sname = name.as<ValueType::String>();
-- 
2.43.0


From 05e25ed439893e679ed68e502cc7ca7bcb8b2291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 26/34] fix: end the debug scope of an expression that throws

---
 include/simfil/expression.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/simfil/expression.h b/include/simfil/expression.h
index e1a6c53..a25b33c 100644
--- a/include/simfil/expression.h
+++ b/include/simfil/expression.h
@@ -41,9 +41,18 @@ public:
     auto eval(Context ctx, Value val, const ResultFn& res) const -> Result
     {
         auto dbg = ctx.env->debug;
-        if (dbg) dbg->evalBegin(*this, ctx, val, res);
-        auto r = ieval(std::move(ctx), std::move(val), res);
-        if (dbg) dbg->evalEnd(*this);
+        if (!dbg)
+            return ieval(std::move(ctx), std::move(val), res);
+
+        dbg->evalBegin(*this, ctx, val, res);
+        auto r = Result::Stop;
+        try {
+            r = ieval(std::move(ctx), std::move(val), res);
+        } catch (...) {
+            dbg->evalEnd(*this);
+            throw;
+        }
+        dbg->evalEnd(*this);
         return r;
     }
 
-- 
2.43.0


From 3020c3dd96cc838a03b30a6fc2eec2d6be099d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:27 +0000
Subject: [PATCH 27/34] fix: comparison operators bind tighter than equality

---
 src/simfil.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index c30cf3b..56053e9 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -1359,10 +1359,10 @@ auto compile(Environment& env, std::string_view sv, bool any, bool autoWildcard)
     /* Comparison/Test */
     p.infixParsers[Token::OP_EQ]     = std::make_unique<BinaryOpParser<OperatorEq,   Precedence::EQUALITY>>();
     p.infixParsers[Token::OP_NOT_EQ] = std::make_unique<BinaryOpParser<OperatorNeq,  Precedence::EQUALITY>>();
-    p.infixParsers[Token::OP_LT]     = std::make_unique<BinaryOpParser<OperatorLt,   Precedence::EQUALITY>>();
-    p.infixParsers[Token::OP_LTEQ]   = std::make_unique<BinaryOpParser<OperatorLtEq, Precedence::EQUALITY>>();
-    p.infixParsers[Token::OP_GT]     = std::make_unique<BinaryOpParser<OperatorGt,   Precedence::EQUALITY>>();
-    p.infixParsers[Token::OP_GTEQ]   = std::make_unique<BinaryOpParser<OperatorGtEq, Precedence::EQUALITY>>();
+    p.infixParsers[Token::OP_LT]     = std::make_unique<BinaryOpParser<OperatorLt,   Precedence::COMPARISON>>();
+    p.infixParsers[Token::OP_LTEQ]   = std::make_unique<BinaryOpParser<OperatorLtEq, Precedence::COMPARISON>>();
+    p.infixParsers[Token::OP_GT]     = std::make_unique<BinaryOpParser<OperatorGt,   Precedence::COMPARISON>>();
+    p.infixParsers[Token::OP_GTEQ]   = std::make_unique<BinaryOpParser<OperatorGtEq, Precedence::COMPARISON>>();
     p.infixParsers[Token::OP_AND]    = std::make_unique<AndOrParser>();
     p.infixParsers[Token::OP_OR]     = std::make_unique<AndOrParser>();
 
-- 
2.43.0


From 289efca56e106da39b27934eebb4d741d698fe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:27 +0000
Subject: [PATCH 28/34] fix: operators after a postfix operator keep their
 precedence

---
 src/simfil.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index 56053e9..275f081 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -1065,7 +1065,7 @@ class UnaryPostOpParser : public InfixParselet
 {
     auto parse(Parser& p, ExprPtr left, Token t) const -> ExprPtr override
     {
-        return p.parseInfix(simplifyOrForward(p.env, std::make_unique<UnaryExpr<Operator>>(std::move(left))), 0);
+        return simplifyOrForward(p.env, std::make_unique<UnaryExpr<Operator>>(std::move(left)));
     }
 
     auto precedence() const -> int override
@@ -1081,7 +1081,7 @@ class UnpackOpParser : public InfixParselet
 {
     auto parse(Parser& p, ExprPtr left, Token t) const -> ExprPtr override
     {
-        return p.parseInfix(simplifyOrForward(p.env, std::make_unique<UnpackExpr>(std::move(left))), 0);
+        return simplifyOrForward(p.env, std::make_unique<UnpackExpr>(std::move(left)));
     }
 
     auto precedence() const -> int override
@@ -1104,8 +1104,8 @@ class WordOpParser : public InfixParselet
                                                                                std::move(left),
                                                                                std::move(right)));
         /* Parse as unary operator */
-        return p.parseInfix(simplifyOrForward(p.env, std::make_unique<UnaryWordOpExpr>(std::move(t),
-                                                                                       std::move(left))), 0);
+        return simplifyOrForward(p.env, std::make_unique<UnaryWordOpExpr>(std::move(t),
+                                                                          std::move(left)));
     }
 
     auto precedence() const -> int override
-- 
2.43.0


From 48a529b63f914bb2aafc3c4138f95ad4c475ec4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:20 +0000
Subject: [PATCH 29/34] fix: data race on the caches of expressions evaluated
 by multiple threads

---
 src/simfil.cpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index 275f081..05bd963 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -12,6 +12,7 @@
 #include "fmt/core.h"
 
 #include <algorithm>
+#include <atomic>
 #include <cctype>
 #include <cstdint>
 #include <iterator>
@@ -301,16 +302,19 @@ public:
         if (!val.node)
             return res(ctx, Value::null());
 
-        if (!nameId_)
-            nameId_ = ctx.env->strings()->get(name_);
+        StringId nameId = nameId_.load(std::memory_order_relaxed);
+        if (!nameId) {
+            nameId = ctx.env->strings()->get(name_);
+            nameId_.store(nameId, std::memory_order_relaxed);
+        }
 
-        if (!nameId_)
+        if (!nameId)
             /* If the field name is not in the string cache, then there
                is no field with that name. */
             return res(ctx, Value::null());
 
         /* Enter sub-node */
-        if (auto sub = val.node->get(nameId_)) {
+        if (auto sub = val.node->get(nameId)) {
             return res(ctx, Value::field(*sub));
         }
 
@@ -325,7 +329,8 @@ public:
     }
 
     std::string name_;
-    mutable StringId nameId_ = {};
+    /* Cache; expressions can be evaluated by multiple threads. */
+    mutable std::atomic<StringId> nameId_ = {};
 };
 
 class MultiConstExpr : public Expr
@@ -534,13 +539,16 @@ public:
 
     auto ieval(Context ctx, Value val, const ResultFn& res) const -> Result override
     {
-        if (!fn_)
-            fn_ = ctx.env->findFunction(name_);
-        if (!fn_)
+        const Function* fn = fn_.load(std::memory_order_relaxed);
+        if (!fn) {
+            fn = ctx.env->findFunction(name_);
+            fn_.store(fn, std::memory_order_relaxed);
+        }
+        if (!fn)
             raise<std::runtime_error>("Unknown function "s + name_);
 
         auto anyval = false;
-        auto result = fn_->eval(ctx, val, args_, LambdaResultFn([&res, &anyval](Context ctx, Value vv) {
+        auto result = fn->eval(ctx, val, args_, LambdaResultFn([&res, &anyval](Context ctx, Value vv) {
             anyval = true;
             return res(ctx, std::move(vv));
         }));
@@ -564,7 +572,8 @@ public:
 
     std::string name_;
     std::vector<ExprPtr> args_;
-    mutable const Function* fn_;
+    /* Cache; expressions can be evaluated by multiple threads. */
+    mutable std::atomic<const Function*> fn_;
 };
 
 class PathExpr : public Expr
-- 
2.43.0


From 1fb88355e372fb42ce52682221587326c83ee5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 30/34] fix: treat an upper-case word on the left side of a
 path operator as a field

---
 src/simfil.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index 05bd963..921681b 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -1289,6 +1289,9 @@ class WordParser : public PrefixParselet
         } else if (!p.ctx.inPath) {
             /* Parse Symbols (words in upper-case) */
             if (isSymbolWord(word)) {
+                /* A symbol on the left side of a path operator is a field */
+                if (p.match(Token::DOT))
+                    return std::make_unique<FieldExpr>(std::move(word));
                 return std::make_unique<ConstExpr>(Value::make<std::string>(std::move(word)));
             }
             /* Constant */
-- 
2.43.0


From f5ef046d0746549955631ffac11b70cb05c33e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:16 +0000
Subject: [PATCH 31/34] fix: raise an error for a reference to an object or
 array that does not exist

---
 src/model/model.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/model/model.cpp b/src/model/model.cpp
index 85af8dc..cfa6f6d 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -202,12 +202,23 @@ void ModelPool::resolve(ModelNode const& n, ResolveFn const& cb) const
         return vec[idx];
     };
 
+    auto check = [&n](auto const& arena) {
+        if (n.addr_.index() >= arena.size())
+            raise<std::runtime_error>(
+                fmt::format(
+                    "Bad node reference: col={}, i={}",
+                    (uint16_t)n.addr_.column(), n.addr_.index()
+                ));
+    };
+
     switch (n.addr_.column()) {
     case Objects: {
+        check(impl_->columns_.objectMemberArrays_);
         cb(Object(shared_from_this(), n.addr_));
         break;
     }
     case Arrays: {
+        check(impl_->columns_.arrayMemberArrays_);
         cb(Array(shared_from_this(), n.addr_));
         break;
     }
@@ -312,6 +323,8 @@ ModelNode::Ptr ModelPool::newValue(std::string_view const& value)
 model_ptr<Object> ModelPool::resolveObject(const ModelNode::Ptr& n) const {
     if (n->addr_.column() != Objects)
         raise<std::runtime_error>("Cannot cast this node to an object.");
+    if (n->addr_.index() >= impl_->columns_.objectMemberArrays_.size())
+        raise<std::runtime_error>("Cannot access an object which does not exist.");
     return Object(shared_from_this(), n->addr_);
 }
 
@@ -319,6 +332,8 @@ model_ptr<Array> ModelPool::resolveArray(ModelNode::Ptr const& n) const
 {
     if (n->addr_.column() != Arrays)
         raise<std::runtime_error>("Cannot cast this node to an array.");
+    if (n->addr_.index() >= impl_->columns_.arrayMemberArrays_.size())
+        raise<std::runtime_error>("Cannot access an array which does not exist.");
     return Array(shared_from_this(), n->addr_);
 }
 
-- 
2.43.0


From 9db9a1fe88b75254fba3f1a2438aeee85bb5c572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:38 +0000
Subject: [PATCH 32/34] fix: raise an error instead of truncating the address
 of an entry when a model column is full

---
 include/simfil/model/nodes.h |  2 +-
 src/model/model.cpp          | 28 +++++++++++++++++++++++++---
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/simfil/model/nodes.h b/include/simfil/model/nodes.h
index 5bace3f..76b1742 100644
--- a/include/simfil/model/nodes.h
+++ b/include/simfil/model/nodes.h
@@ -140,7 +140,7 @@ private:
 /**
  * Unique address of a ModelNode within a Pool.
  * Consists of an 8b column id and 24b index within a column.
- * No column may grow beyond 2^25-1 (33.5M) entries.
+ * No column may grow beyond 2^24 (16.7M) entries.
  *
  * Some special cases apply for small scalar types:
  * - String: The index is interpreted directly as a string ID.
diff --git a/src/model/model.cpp b/src/model/model.cpp
index cfa6f6d..e10eb53 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -18,6 +18,21 @@
 namespace simfil
 {
 
+namespace
+{
+
+/// Index for the next entry of a column. Node addresses have 24 bits for it.
+template <class Column>
+uint32_t nextIndex(Column const& column)
+{
+    constexpr size_t maxColumnSize = size_t(1) << 24;
+    if (column.size() >= maxColumnSize)
+        raise<std::runtime_error>("Model column is full.");
+    return static_cast<uint32_t>(column.size());
+}
+
+}
+
 void Model::resolve(const ModelNode& n, const ResolveFn& cb) const
 {
     switch (n.addr_.column()) {
@@ -260,6 +275,7 @@ void ModelPool::addRoot(ModelNode::Ptr const& rootNode) {
 
 model_ptr<Object> ModelPool::newObject(size_t initialFieldCapacity)
 {
+    nextIndex(impl_->columns_.objectMemberArrays_);
     auto memberArrId = impl_->columns_.objectMemberArrays_.new_array(initialFieldCapacity);
     return Object(
         shared_from_this(),
@@ -268,6 +284,7 @@ model_ptr<Object> ModelPool::newObject(size_t initialFieldCapacity)
 
 model_ptr<Array> ModelPool::newArray(size_t initialFieldCapacity)
 {
+    nextIndex(impl_->columns_.arrayMemberArrays_);
     auto memberArrId = impl_->columns_.arrayMemberArrays_.new_array(initialFieldCapacity);
     return Array(
         shared_from_this(),
@@ -300,24 +317,29 @@ ModelNode::Ptr ModelPool::newValue(int64_t const& value)
         return newSmallValue((int16_t)value);
     else if (value >= 0 && value <= std::numeric_limits<uint16_t>::max())
         return newSmallValue((uint16_t)value);
+    auto index = nextIndex(impl_->columns_.i64_);
     impl_->columns_.i64_.emplace_back(value);
-    return ModelNode(shared_from_this(), {Int64, (uint32_t)impl_->columns_.i64_.size()-1});
+    return ModelNode(shared_from_this(), {Int64, index});
 }
 
 ModelNode::Ptr ModelPool::newValue(double const& value)
 {
+    auto index = nextIndex(impl_->columns_.double_);
     impl_->columns_.double_.emplace_back(value);
-    return ModelNode(shared_from_this(), {Double, (uint32_t)impl_->columns_.double_.size()-1});
+    return ModelNode(shared_from_this(), {Double, index});
 }
 
 ModelNode::Ptr ModelPool::newValue(std::string_view const& value)
 {
+    auto index = nextIndex(impl_->columns_.strings_);
+    if (impl_->columns_.stringData_.size() + value.size() > std::numeric_limits<uint32_t>::max())
+        raise<std::runtime_error>("Model string data is full.");
     impl_->columns_.strings_.emplace_back(Impl::StringRange{
         (uint32_t)impl_->columns_.stringData_.size(),
         (uint32_t)value.size()
     });
     impl_->columns_.stringData_ += value;
-    return ModelNode(shared_from_this(), {String, (uint32_t)impl_->columns_.strings_.size()-1});
+    return ModelNode(shared_from_this(), {String, index});
 }
 
 model_ptr<Object> ModelPool::resolveObject(const ModelNode::Ptr& n) const {
-- 
2.43.0


From 688019cc1d48ae53fdb2e5f84b8a71d2d823bbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:28 +0000
Subject: [PATCH 33/34] fix: reading a model pool replaces its objects and
 arrays

---
 include/simfil/model/bitsery-traits.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/simfil/model/bitsery-traits.h b/include/simfil/model/bitsery-traits.h
index a2318c4..57d38e1 100644
--- a/include/simfil/model/bitsery-traits.h
+++ b/include/simfil/model/bitsery-traits.h
@@ -61,10 +61,11 @@ struct ArrayArenaExt
     template <typename S, typename ElementType, size_t PageSize, size_t ChunkPageSize, typename Fnc>
     void deserialize(S& s, simfil::ArrayArena<ElementType, PageSize, ChunkPageSize>& arena, Fnc&& fnc) const
     {
-        simfil::ArrayIndex numArrays;
+        arena.clear();
+        simfil::ArrayIndex numArrays = 0;
         s.value4b(numArrays);
         for (simfil::ArrayIndex i = 0; i < numArrays; ++i) {
-            typename std::decay_t<decltype(arena)>::SizeType size;
+            typename std::decay_t<decltype(arena)>::SizeType size = 0;
             s.value4b(size);
             auto arrayIndex = arena.new_array(size);
             for (size_t j = 0; j < size; ++j)
-- 
2.43.0


From 2f9146ac7e11cc1a13c394acd1fa4aea4bd60762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:29 +0000
Subject: [PATCH 34/34] fix: nulls and large unsigned numbers in JSON input

---
 src/model/json.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/model/json.cpp b/src/model/json.cpp
index 06728b4..c2d53d7 100644
--- a/src/model/json.cpp
+++ b/src/model/json.cpp
@@ -3,6 +3,7 @@
 #include "simfil/model/json.h"
 #include "simfil/model/model.h"
 
+#include <limits>
 #include <nlohmann/json.hpp>
 
 namespace simfil::json
@@ -13,12 +14,14 @@ static ModelNode::Ptr build(const json& j, ModelPool & model)
 {
     switch (j.type()) {
     case json::value_t::null:
-        return {};
+        return ModelNode::Ptr::make(model.shared_from_this(), ModelNodeAddress{Model::Null, 1});
     case json::value_t::boolean:
         return model.newSmallValue(j.get<bool>());
     case json::value_t::number_float:
         return model.newValue(j.get<double>());
     case json::value_t::number_unsigned:
+        if (j.get<uint64_t>() > (uint64_t)std::numeric_limits<int64_t>::max())
+            return model.newValue(j.get<double>());
         return model.newValue((int64_t)j.get<uint64_t>());
     case json::value_t::number_integer:
         return model.newValue(j.get<int64_t>());
-- 
2.43.0

