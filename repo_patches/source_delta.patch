From 462486c1509743906d4630e959029754d7295bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 01/75] fix: refuse a lone non-ASCII byte as a Char, whose code
 point was read past its text

---
 include/Caitlyn/__Core/Char/Char.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/Caitlyn/__Core/Char/Char.h b/include/Caitlyn/__Core/Char/Char.h
index 80d0836..5e58745 100644
--- a/include/Caitlyn/__Core/Char/Char.h
+++ b/include/Caitlyn/__Core/Char/Char.h
@@ -38,6 +38,10 @@ public:
 
     Char(const StdChar byte)
     {
+        if (!IsValidUtf8Char(DataType(1, byte)))
+        {
+            throw std::invalid_argument("Invalid UTF-8 character");
+        }
         data_ = byte;
     }
 
@@ -66,6 +70,10 @@ public:
 public:
     Char& operator=(const char byte)
     {
+        if (!IsValidUtf8Char(DataType(1, byte)))
+        {
+            throw std::invalid_argument("Invalid UTF-8 character");
+        }
         data_ = byte;
         return *this;
     }
-- 
2.43.0


From 4c3c5e47162bdb737a760fc2093effe2afa4549f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:07 +0000
Subject: [PATCH 02/75] fix: BigInteger refuses a sign without digits and
 non-ASCII digits

---
 include/Caitlyn/__Numeric/Types/BigInteger.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index 6daacbe..4f11de2 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -68,9 +68,13 @@ public:
                 start = 1;
             }
         }
+        if (start == number.size())
+        {
+            throw std::invalid_argument{"Invalid number format"};
+        }
         for (SizeType i = start; i < number.size(); ++i)
         {
-            if (!IsDigit(number[i].GetCodePoint()))
+            if (ToDigit(number[i].GetCodePoint()) < 0)
             {
                 throw std::invalid_argument{"Invalid number format"};
             }
-- 
2.43.0


From 151605f9cd11063ddf0e8cec4f61d2079bcc2e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:07 +0000
Subject: [PATCH 03/75] fix: BigInteger::LessThan orders two negative numbers
 by value

---
 include/Caitlyn/__Numeric/Types/BigInteger.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index 4f11de2..7f34ddc 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -357,13 +357,13 @@ public:
         }
         if (digits_.size() != other.digits_.size())
         {
-            return digits_.size() < other.digits_.size();
+            return (digits_.size() < other.digits_.size()) != is_negative_;
         }
         for (SizeType i = digits_.size(); i > 0; --i)
         {
             if (digits_[i - 1] != other.digits_[i - 1])
             {
-                return digits_[i - 1] < other.digits_[i - 1];
+                return (digits_[i - 1] < other.digits_[i - 1]) != is_negative_;
             }
         }
         return false;
-- 
2.43.0


From 9d60c2143411e0a31e4354591b69725bb49e03ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:07 +0000
Subject: [PATCH 04/75] fix: BigInteger::Subtract handles differing signs and
 two negative operands

---
 include/Caitlyn/__Numeric/Types/BigInteger.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index 7f34ddc..ce40510 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -157,17 +157,18 @@ public:
     {
         if (this->is_negative_ != other.is_negative_)
         {
-            BigInteger result = Add(other);
-            result.is_negative_ = this->is_negative_;
-            return result;
+            BigInteger negated = other;
+            negated.is_negative_ = this->is_negative_;
+            return Add(negated);
         }
         if (Equal(other))
         {
             return BigInteger{"0"};
         }
         const bool result_is_negative = LessThan(other);
-        const BigInteger& larger = result_is_negative ? other : *this;
-        const BigInteger& smaller = result_is_negative ? *this : other;
+        const bool is_smaller = result_is_negative != is_negative_;
+        const BigInteger& larger = is_smaller ? other : *this;
+        const BigInteger& smaller = is_smaller ? *this : other;
 
         BigInteger result;
         result.is_negative_ = result_is_negative;
-- 
2.43.0


From 5dc8452097cec7db8fb7152f8d11a3d97b9087e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:27 +0000
Subject: [PATCH 05/75] fix: BigInteger::Add keeps the sign of the larger
 operand and gives no negative zero

---
 include/Caitlyn/__Numeric/Types/BigInteger.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index ce40510..d2a3832 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -146,10 +146,13 @@ public:
 
         if (abs_this.GreaterThan(abs_other))
         {
-            return abs_this.Subtract(abs_other);
+            BigInteger result = abs_this.Subtract(abs_other);
+            result.is_negative_ = is_negative_;
+            return result;
         }
         BigInteger result = abs_other.Subtract(abs_this);
         result.is_negative_ = other.is_negative_;
+        result.RemoveLeadingZeros();
         return result;
     }
 
-- 
2.43.0


From f10dfc8d9eb7a719c22b44ebd76e7f466c70c7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:27 +0000
Subject: [PATCH 06/75] fix: BigInteger::Modulo gives no negative zero

---
 include/Caitlyn/__Numeric/Types/BigInteger.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index d2a3832..6daee49 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -271,6 +271,7 @@ public:
         {
             result.is_negative_ = is_negative_;
         }
+        result.RemoveLeadingZeros();
         return result;
     }
 
-- 
2.43.0


From 41b070393bb26c459cf47e5b17ff7a616c0aa275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:27 +0000
Subject: [PATCH 07/75] fix: cmp_ne, cmp_greater, cmp_le and cmp_ge call
 functions that exist

---
 include/Caitlyn/__Core/Utility/Comparators.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Core/Utility/Comparators.h b/include/Caitlyn/__Core/Utility/Comparators.h
index 4fbff51..8b70d75 100644
--- a/include/Caitlyn/__Core/Utility/Comparators.h
+++ b/include/Caitlyn/__Core/Utility/Comparators.h
@@ -42,7 +42,7 @@ bool cmp_eq(T t, U u) noexcept
 template <typename T, typename U>
 constexpr bool cmp_ne(T t, U u) noexcept
 {
-    return !compare_equal(t, u);
+    return !cmp_eq(t, u);
 }
 
 template <typename T, typename U>
@@ -65,19 +65,19 @@ bool cmp_less(T t, U u) noexcept
 template <typename T, typename U>
 constexpr bool cmp_greater(T t, U u) noexcept
 {
-    return compare_less(u, t);
+    return cmp_less(u, t);
 }
 
 template <typename T, typename U>
 constexpr bool cmp_le(T t, U u) noexcept
 {
-    return !compare_greater(t, u);
+    return !cmp_greater(t, u);
 }
 
 template <typename T, typename U>
 constexpr bool cmp_ge(T t, U u) noexcept
 {
-    return !compare_less(t, u);
+    return !cmp_less(t, u);
 }
 
 __CAITLYN_GLOBAL_NAMESPACE_END
-- 
2.43.0


From 9a183d2d4bf9f84a3e8b1d5fb8f9808ab3705a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:41 +0000
Subject: [PATCH 08/75] fix: kmp finds the empty pattern and does not read past
 it

---
 include/Caitlyn/__Core/String/Algorithms/Kmp.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Caitlyn/__Core/String/Algorithms/Kmp.h b/include/Caitlyn/__Core/String/Algorithms/Kmp.h
index daf313b..9b87377 100644
--- a/include/Caitlyn/__Core/String/Algorithms/Kmp.h
+++ b/include/Caitlyn/__Core/String/Algorithms/Kmp.h
@@ -49,6 +49,10 @@ inline bool kmp(const std::string& pattern, const std::string& text)
 {
     const size_t text_size = text.size();
     const size_t pattern_size = pattern.size();
+    if (pattern_size == 0)
+    {
+        return true;
+    }
     const auto failure = __Detail::get_kmp_failure_vec(pattern);
 
     for (size_t i = 0, j = 0; i < text_size; ++i)
-- 
2.43.0


From bb256fd6eaaf5a6e68d32ec8c17e56c54178c9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:12 +0000
Subject: [PATCH 09/75] fix: String does not read past the terminator of text
 cut inside a UTF-8 sequence

---
 include/Caitlyn/__Core/String/String.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index b192a9e..0e38bd7 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -999,7 +999,12 @@ private:
         {
             throw std::runtime_error("Invalid UTF-8 sequence");
         }
-        return CharType{BasicString(cstr, len)};
+        BasicString bytes;
+        for (SizeType i = 0; i < len && cstr[i] != '\0'; ++i)
+        {
+            bytes.push_back(cstr[i]);
+        }
+        return CharType{bytes};
     }
 
 private:
-- 
2.43.0


From 750c8b027326ac4ab1780d45a535dba84bf14ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:12 +0000
Subject: [PATCH 10/75] fix: String searches accept any start position and find
 the empty pattern

---
 include/Caitlyn/__Core/String/String.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 0e38bd7..3708a38 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -385,12 +385,24 @@ public:
     // Method to check if the string contains a given substring
     bool Contains(const String& substring) const
     {
+        if (substring.IsEmpty())
+        {
+            return true;
+        }
         return std::search(data_.begin(), data_.end(), substring.begin(), substring.end()) != data_.end();
     }
 
     // Method to find the first occurrence of a substring
     SizeType Find(const String& substr, const SizeType pos = 0) const
     {
+        if (pos > size())
+        {
+            return NPosition;
+        }
+        if (substr.IsEmpty())
+        {
+            return pos;
+        }
         const auto it =
             std::search(data_.begin() + static_cast<DifferenceType>(pos), data_.end(), substr.begin(), substr.end());
         return (it != data_.end()) ? std::distance(data_.begin(), it) : NPosition;
@@ -442,6 +454,10 @@ public:
     template <typename Predicate>
     SizeType FindIf(Predicate pred, const SizeType pos = 0) const
     {
+        if (pos > size())
+        {
+            return NPosition;
+        }
         auto it = std::find_if(data_.begin() + static_cast<DifferenceType>(pos), data_.end(), pred);
         return (it != data_.end()) ? std::distance(data_.begin(), it) : NPosition;
     }
@@ -450,6 +466,10 @@ public:
     template <typename Predicate>
     SizeType FindIfNot(Predicate pred, const SizeType pos = 0) const
     {
+        if (pos > size())
+        {
+            return NPosition;
+        }
         auto it = std::find_if_not(data_.begin() + static_cast<DifferenceType>(pos), data_.end(), pred);
         return (it != data_.end()) ? std::distance(data_.begin(), it) : NPosition;
     }
-- 
2.43.0


From 0165ba2783f41f7f1b157cf7d12a0429ed9a1795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:12 +0000
Subject: [PATCH 11/75] fix: String::ReverseFind gives the index where the last
 occurrence starts

---
 include/Caitlyn/__Core/String/String.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 3708a38..8885099 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -415,16 +415,20 @@ public:
         {
             return NPosition;
         }
-        if (pos >= size())
+        if (pos >= size() - substr.size())
         {
-            pos = size() - 1;
+            pos = size() - substr.size();
+        }
+        if (substr.IsEmpty())
+        {
+            return pos;
         }
         const auto it = std::search(
-            data_.rbegin() + static_cast<DifferenceType>(size() - pos - 1),
+            data_.rbegin() + static_cast<DifferenceType>(size() - pos - substr.size()),
             data_.rend(),
             substr.rbegin(),
             substr.rend());
-        return (it != data_.rend()) ? size() - 1 - std::distance(data_.rbegin(), it) : NPosition;
+        return (it != data_.rend()) ? size() - substr.size() - std::distance(data_.rbegin(), it) : NPosition;
     }
 
     // Substring method
-- 
2.43.0


From ccf4d7cb7b4c6e74308cd9e0fa40c59b030ce45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:12 +0000
Subject: [PATCH 12/75] fix: String iterator-range constructor called a
 function that does not exist

---
 include/Caitlyn/__Core/String/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 8885099..7779763 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -102,7 +102,7 @@ public:
     {
         while (first != last)
         {
-            data_.emplace_back(decode_utf8_char(&(*first)));
+            data_.emplace_back(*first);
             ++first;
         }
     }
-- 
2.43.0


From 45594b24b6fbf4fe02f3929d0a897d0890c55c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:12 +0000
Subject: [PATCH 13/75] fix: String edits accept the string itself, or one of
 its characters, as argument

---
 include/Caitlyn/__Core/String/String.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 7779763..b05e283 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -241,7 +241,8 @@ public:
 public:
     String& operator+=(const String& str)
     {
-        data_.insert(data_.end(), str.data_.begin(), str.data_.end());
+        const DataType tail = str.data_;
+        data_.insert(data_.end(), tail.begin(), tail.end());
         return *this;
     }
 
@@ -289,10 +290,11 @@ public:
 
     void Append(const SizeType count, const CharType& pattern)
     {
+        const CharType ch = pattern;
         SizeType i = 0;
         while (i < count)
         {
-            data_.emplace_back(pattern);
+            data_.emplace_back(ch);
             ++i;
         }
     }
@@ -527,7 +529,8 @@ public:
         {
             throw std::out_of_range("Position out of range");
         }
-        data_.insert(data_.begin() + static_cast<DifferenceType>(pos), str.data_.begin(), str.data_.end());
+        const DataType text = str.data_;
+        data_.insert(data_.begin() + static_cast<DifferenceType>(pos), text.begin(), text.end());
     }
 
     void Insert(const SizeType pos, const SizeType count, const CharType& ch)
-- 
2.43.0


From 0454a340b3af62f72ae33633da1635acaeacf09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:33 +0000
Subject: [PATCH 14/75] fix: case mapping of Extended Greek and of
 U+0139-U+0148 follows Unicode

---
 include/Caitlyn/__Core/Char/Utility.h | 42 +++++++++++++++------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/include/Caitlyn/__Core/Char/Utility.h b/include/Caitlyn/__Core/Char/Utility.h
index 8e8b51a..5fe65ea 100644
--- a/include/Caitlyn/__Core/Char/Utility.h
+++ b/include/Caitlyn/__Core/Char/Utility.h
@@ -167,51 +167,51 @@ inline CodePoint ToUppercase(const CodePoint codePoint)
     // Additional
     if (codePoint >= 0x1F00 && codePoint <= 0x1F07)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F10 && codePoint <= 0x1F15)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F20 && codePoint <= 0x1F27)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F30 && codePoint <= 0x1F37)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F40 && codePoint <= 0x1F45)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F60 && codePoint <= 0x1F67)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F70 && codePoint <= 0x1F71)
     {
-        return codePoint + 0x56;
+        return codePoint + 0x4A;
     }
     if (codePoint >= 0x1F72 && codePoint <= 0x1F75)
     {
-        return codePoint + 0x64;
+        return codePoint + 0x56;
     }
     if (codePoint >= 0x1F76 && codePoint <= 0x1F77)
     {
-        return codePoint + 0x80;
+        return codePoint + 0x64;
     }
     if (codePoint >= 0x1F78 && codePoint <= 0x1F79)
     {
-        return codePoint + 0x7E;
+        return codePoint + 0x80;
     }
     if (codePoint >= 0x1F7A && codePoint <= 0x1F7B)
     {
-        return codePoint + 0x7C;
+        return codePoint + 0x70;
     }
     if (codePoint >= 0x1F7C && codePoint <= 0x1F7D)
     {
-        return codePoint + 0x7A;
+        return codePoint + 0x7E;
     }
     // Ranges for Latin characters with diacritics
     if (codePoint >= 0x0100 && codePoint <= 0x012F)
@@ -232,7 +232,7 @@ inline CodePoint ToUppercase(const CodePoint codePoint)
     }
     if (codePoint >= 0x0139 && codePoint <= 0x0148)
     {
-        if (codePoint % 2 == 0)
+        if (codePoint % 2 != 0)
         {
             return codePoint;
         }
@@ -311,27 +311,31 @@ inline CodePoint ToLowercase(const CodePoint codePoint)
     }
     if (codePoint >= 0x1FBA && codePoint <= 0x1FBB)
     {
-        return codePoint - 0x08;
+        return codePoint - 0x4A;
     }
     if (codePoint >= 0x1FC8 && codePoint <= 0x1FCB)
     {
-        return codePoint - 0x08;
+        return codePoint - 0x56;
     }
     if (codePoint >= 0x1FD8 && codePoint <= 0x1FD9)
     {
         return codePoint - 0x08;
     }
+    if (codePoint >= 0x1FDA && codePoint <= 0x1FDB)
+    {
+        return codePoint - 0x64;
+    }
     if (codePoint >= 0x1FE8 && codePoint <= 0x1FE9)
     {
         return codePoint - 0x08;
     }
     if (codePoint >= 0x1FEA && codePoint <= 0x1FEB)
     {
-        return codePoint - 0x08;
+        return codePoint - 0x70;
     }
-    if (codePoint >= 0x1FEC)
+    if (codePoint == 0x1FEC)
     {
-        return codePoint - 0x08;
+        return codePoint - 0x07;
     }
     // Ranges for Latin characters with diacritics
     if (codePoint >= 0x0100 && codePoint <= 0x012F)
@@ -352,7 +356,7 @@ inline CodePoint ToLowercase(const CodePoint codePoint)
     }
     if (codePoint >= 0x0139 && codePoint <= 0x0148)
     {
-        if (codePoint % 2 != 0)
+        if (codePoint % 2 == 0)
         {
             return codePoint;
         }
-- 
2.43.0


From eac094f6b1afcbc635ad90e17e0abb03bc26a2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:06 +0000
Subject: [PATCH 15/75] fix: Repeat with a count of zero gives the empty text

---
 include/Caitlyn/__Core/String/Utility.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/String/Utility.h b/include/Caitlyn/__Core/String/Utility.h
index 1533432..bce120e 100644
--- a/include/Caitlyn/__Core/String/Utility.h
+++ b/include/Caitlyn/__Core/String/Utility.h
@@ -42,7 +42,7 @@ inline std::vector<std::string> Split(const std::string& text, const char delim)
 
 inline std::string Repeat(const std::string& str, const size_t count)
 {
-    if (count < 2)
+    if (count == 1)
     {
         return str;
     }
-- 
2.43.0


From 97f1bebd260450c857eca254a9f54db4e2d36d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:06 +0000
Subject: [PATCH 16/75] fix: FindLastNonSpace looks at the first character and
 accepts the empty text

---
 include/Caitlyn/__Core/String/Utility.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/String/Utility.h b/include/Caitlyn/__Core/String/Utility.h
index bce120e..8d0b8c9 100644
--- a/include/Caitlyn/__Core/String/Utility.h
+++ b/include/Caitlyn/__Core/String/Utility.h
@@ -166,11 +166,11 @@ inline size_t FindFirstNonSpace(const String& str)
 
 inline size_t FindLastNonSpace(const String& str)
 {
-    for (size_t i = str.size() - 1; i > 0; --i)
+    for (size_t i = str.size(); i > 0; --i)
     {
-        if (!IsSpace(str[i].GetCodePoint()))
+        if (!IsSpace(str[i - 1].GetCodePoint()))
         {
-            return i;
+            return i - 1;
         }
     }
     return str.size();
-- 
2.43.0


From 700c8750037111d15d4eb25a54248632389b6449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:06 +0000
Subject: [PATCH 17/75] fix: EscapeString keeps an unrecognised escape without
 doubling its character

---
 include/Caitlyn/__Core/String/Utility.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Core/String/Utility.h b/include/Caitlyn/__Core/String/Utility.h
index 8d0b8c9..ba2950c 100644
--- a/include/Caitlyn/__Core/String/Utility.h
+++ b/include/Caitlyn/__Core/String/Utility.h
@@ -128,14 +128,14 @@ inline String EscapeString(const String& str)
                 }
                 else
                 {
-                    // Incomplete escape sequence, handle it as an error
-                    oss << Def::ReverseSolidus << str[i + 1];
+                    // Incomplete escape sequence, keep it as it is
+                    oss << Def::ReverseSolidus;
                 }
             }
             else
             {
-                // Invalid escape sequence, handle it as an error
-                oss << Def::ReverseSolidus << str[i + 1];
+                // Invalid escape sequence, keep it as it is
+                oss << Def::ReverseSolidus;
             }
         }
         else
-- 
2.43.0


From 014581cef155615f2f7c2073ee4818a0115693ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:06 +0000
Subject: [PATCH 18/75] fix: EscapeString encodes \\u as its code point and
 keeps it when the digits are not hexadecimal

---
 include/Caitlyn/__Core/String/Utility.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/String/Utility.h b/include/Caitlyn/__Core/String/Utility.h
index ba2950c..e41edf6 100644
--- a/include/Caitlyn/__Core/String/Utility.h
+++ b/include/Caitlyn/__Core/String/Utility.h
@@ -119,11 +119,12 @@ inline String EscapeString(const String& str)
             }
             else if (str[i + 1] == Def::LatinSmallLetterU)
             {
-                if (i + 5 < str.size())
+                if (i + 5 < str.size() && str.Substring(i + 2, 4).str().find_first_not_of("0123456789abcdefABCDEF") ==
+                                              std::string::npos)
                 {
                     auto hex = str.Substring(i + 2, 4).str();
                     // Convert the hexadecimal representation to a character
-                    oss << static_cast<char>(std::stoi(hex, nullptr, 16));
+                    oss << Char{static_cast<CodePoint>(std::stoi(hex, nullptr, 16))};
                     i += 5; // Skip the escaped sequence
                 }
                 else
-- 
2.43.0


From 54d3af7f7e7fb9eef3fc4ff4fd990a12a1603f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:06 +0000
Subject: [PATCH 19/75] fix: a copied StringBuilder appends after the copied
 text

---
 include/Caitlyn/__Core/String/StringBuilder.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/String/StringBuilder.h b/include/Caitlyn/__Core/String/StringBuilder.h
index abd42e6..d7b702b 100644
--- a/include/Caitlyn/__Core/String/StringBuilder.h
+++ b/include/Caitlyn/__Core/String/StringBuilder.h
@@ -51,8 +51,9 @@ public:
         data_ << String::Format(str, std::forward<Args>(args)...);
     }
 
-    StringBuilder(const StringBuilder& other) : data_{other.data_.str()}
+    StringBuilder(const StringBuilder& other)
     {
+        data_ << other.data_.str();
     }
 
     StringBuilder(StringBuilder&& other) noexcept : data_{std::move(other.data_)}
-- 
2.43.0


From 356d0cb657b09e468bb7f6f27af7a5151208e497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:16 +0000
Subject: [PATCH 20/75] fix: EscapeString takes exactly four hexadecimal digits
 after \\u

---
 include/Caitlyn/__Core/String/Utility.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/String/Utility.h b/include/Caitlyn/__Core/String/Utility.h
index e41edf6..a37840b 100644
--- a/include/Caitlyn/__Core/String/Utility.h
+++ b/include/Caitlyn/__Core/String/Utility.h
@@ -119,10 +119,10 @@ inline String EscapeString(const String& str)
             }
             else if (str[i + 1] == Def::LatinSmallLetterU)
             {
-                if (i + 5 < str.size() && str.Substring(i + 2, 4).str().find_first_not_of("0123456789abcdefABCDEF") ==
-                                              std::string::npos)
+                const auto hex = str.Substring(i + 2, 4).str();
+
+                if (hex.size() == 4 && hex.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos)
                 {
-                    auto hex = str.Substring(i + 2, 4).str();
                     // Convert the hexadecimal representation to a character
                     oss << Char{static_cast<CodePoint>(std::stoi(hex, nullptr, 16))};
                     i += 5; // Skip the escaped sequence
-- 
2.43.0


From 389ff0effc01e5b57630067735a9224a560653e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:30 +0000
Subject: [PATCH 21/75] fix: Format lays out the argument the index names

---
 include/Caitlyn/__Core/String/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index b05e283..a3ee8e2 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -641,7 +641,7 @@ public:
                             if (format_spec[0] == Def::Colon)
                             {
                                 auto parsed_spec = Formatter::MakeSpacifier(format_spec);
-                                result << Formatter::Process(arguments[auto_index], parsed_spec).str();
+                                result << Formatter::Process(arguments[arg_index], parsed_spec).str();
                             }
                         }
                         else
-- 
2.43.0


From 72525084c28d3698edd626b496a42dfa9e0c57a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:30 +0000
Subject: [PATCH 22/75] fix: Format refuses an index when there are no
 arguments

---
 include/Caitlyn/__Core/String/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index a3ee8e2..ed4ac9c 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -630,7 +630,7 @@ public:
                         {
                             throw Formatter::FormatError{"Invalid argument index"};
                         }
-                        if (arg_index > arguments.size() - 1)
+                        if (arg_index >= arguments.size())
                         {
                             throw Formatter::FormatError{"Argument index out of range"};
                         }
-- 
2.43.0


From d44219a239460325cb9eb7ed3ef30193e05c8fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:30 +0000
Subject: [PATCH 23/75] fix: Format takes the next argument for a placeholder
 without index and refuses a missing one

---
 include/Caitlyn/__Core/String/String.h | 31 ++++++++++++++------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index ed4ac9c..80eba15 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -649,22 +649,25 @@ public:
                             result << arguments[arg_index].str();
                         }
                     }
-                    else if (spec.NotEmpty() && spec[spec_begin] == Def::Colon)
-                    {
-                        auto parsed_spec = Formatter::MakeSpacifier(spec);
-                        result << Formatter::Process(arguments[arg_index], parsed_spec).str();
-                    }
-                    else if (arguments.size() == 1)
-                    {
-                        result << arguments[0].str();
-                    }
-                    else if (arguments.size() > 1)
-                    {
-                        result << arguments[auto_index++].str();
-                    }
                     else
                     {
-                        throw Formatter::FormatError{"Missing argument index in format string"};
+                        if (arguments.size() > 1)
+                        {
+                            arg_index = auto_index++;
+                        }
+                        if (arg_index >= arguments.size())
+                        {
+                            throw Formatter::FormatError{"Missing argument index in format string"};
+                        }
+                        if (spec.NotEmpty() && spec[spec_begin] == Def::Colon)
+                        {
+                            auto parsed_spec = Formatter::MakeSpacifier(spec);
+                            result << Formatter::Process(arguments[arg_index], parsed_spec).str();
+                        }
+                        else
+                        {
+                            result << arguments[arg_index].str();
+                        }
                     }
                     pos = end + 1;
                 }
-- 
2.43.0


From 04d78e3b94ed81cba4cf09e90274296e2813cdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:30 +0000
Subject: [PATCH 24/75] fix: an empty layout in a Format placeholder is not
 read past its end

---
 include/Caitlyn/__Core/String/String.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 80eba15..a137470 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -816,17 +816,17 @@ private:
                     ++pos;
                 }
             }
-            else if (config[pos] == Def::LessThanSign)
+            else if (pos < config.size() && config[pos] == Def::LessThanSign)
             {
                 spec.align = Alignment::Left;
                 ++pos;
             }
-            else if (config[pos] == Def::GreaterThanSign)
+            else if (pos < config.size() && config[pos] == Def::GreaterThanSign)
             {
                 spec.align = Alignment::Right;
                 ++pos;
             }
-            else if (config[pos] == Def::CircumflexAccent)
+            else if (pos < config.size() && config[pos] == Def::CircumflexAccent)
             {
                 spec.align = Alignment::Center;
                 ++pos;
-- 
2.43.0


From 2a2c83ef0c049658a1c72d0b33a218ba9f6d3014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:37 +0000
Subject: [PATCH 25/75] fix: Expected::UnwrapOrDefault called a function that
 does not exist

---
 include/Caitlyn/__Core/Error/Expected.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index a37d5cd..641a08c 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -220,12 +220,16 @@ public:
     const ValueType& UnwrapOrDefault() const
     {
         static ValueType default_value{};
-        return unwrap_or(default_value);
+        return UnwrapOrDefault(default_value);
     }
 
     const ValueType& UnwrapOrDefault(const ValueType& default_value) const
     {
-        return unwrap_or(default_value);
+        if (hasValue_)
+        {
+            return data_.value;
+        }
+        return default_value;
     }
 
     const ValueType& Expect(const String& message) const
-- 
2.43.0


From cf6337aa7d83403627824ce9e270aa7aa7d02b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:37 +0000
Subject: [PATCH 26/75] fix: Expected::Filter did not compile and dropped the
 error of an error result

---
 include/Caitlyn/__Core/Error/Expected.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index 641a08c..4d58fb5 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -254,11 +254,11 @@ public:
     template <typename Func>
     auto Filter(Func func) const -> Expected
     {
-        if (hasValue_ && func(data_.value))
+        if (!hasValue_ || func(data_.value))
         {
             return *this;
         }
-        return result_t(Unexpected<ErrorType>{});
+        return Expected(Unexpected<ErrorType>{ErrorType{}});
     }
 
     template <typename U, typename Func>
-- 
2.43.0


From 6769bd42b5a69dfb9f68f7d9c69d2288876fb975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:37 +0000
Subject: [PATCH 27/75] fix: Expected::MapError returned the wrong type when it
 holds a value

---
 include/Caitlyn/__Core/Error/Expected.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index 4d58fb5..f3458f1 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -174,7 +174,7 @@ public:
         {
             return Expected<ValueType, result_error_type>(Unexpected<result_error_type>(func(data_.error.Get())));
         }
-        return *this;
+        return Expected<ValueType, result_error_type>(data_.value);
     }
 
     template <typename Func>
-- 
2.43.0


From ca5ec259a1c4ca8fd469dcb81f4529635ea65bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:37 +0000
Subject: [PATCH 28/75] fix: copy assignment of Expected destroyed the held
 object twice when the copy threw

---
 include/Caitlyn/__Core/Error/Expected.h | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index f3458f1..1649907 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -71,16 +71,8 @@ public:
     {
         if (this != &other)
         {
-            DestroyUnion();
-            hasValue_ = other.hasValue_;
-            if (hasValue_)
-            {
-                new (&data_.value) ValueType{other.data_.value};
-            }
-            else
-            {
-                new (&data_.error) Unexpected<ErrorType>{other.data_.error};
-            }
+            Expected copy(other);
+            *this = std::move(copy);
         }
         return *this;
     }
-- 
2.43.0


From 1f32a20fc1820f214809c1830a69728ad0be63c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:39 +0000
Subject: [PATCH 29/75] fix: RandomBoolean refuses a NaN percentage

---
 include/Caitlyn/__Core/Utility/Random.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Utility/Random.h b/include/Caitlyn/__Core/Utility/Random.h
index 32004fa..5ad8ac0 100644
--- a/include/Caitlyn/__Core/Utility/Random.h
+++ b/include/Caitlyn/__Core/Utility/Random.h
@@ -95,7 +95,7 @@ inline Decimal Random(const Decimal min, const Decimal max)
 
 inline Bool RandomBoolean(const Double percentage = 0.5)
 {
-    if (percentage < 0.0 || percentage > 1.0)
+    if (!(percentage >= 0.0 && percentage <= 1.0))
     {
         throw std::invalid_argument{"True percentage is only 0.0..1.0"};
     }
-- 
2.43.0


From c76fd9f76e26e5d9b5fe6fde9f7b9b54e7b8cd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:45 +0000
Subject: [PATCH 30/75] fix: a test whose exception text is not UTF-8
 terminated the test runner

---
 include/Caitlyn/__Testing/Types/TestRegistry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Testing/Types/TestRegistry.h b/include/Caitlyn/__Testing/Types/TestRegistry.h
index fc2c323..24b67b2 100644
--- a/include/Caitlyn/__Testing/Types/TestRegistry.h
+++ b/include/Caitlyn/__Testing/Types/TestRegistry.h
@@ -138,7 +138,7 @@ private:
         }
     }
 
-    void LogTestFailure(const TestCase& test, const String& message) const
+    void LogTestFailure(const TestCase& test, const char* message) const
     {
         std::cout << "[     FAIL ] " << test.suite_name << '.' << test.test_name << " (" << localDiff_.count()
                   << " ms)\n"
-- 
2.43.0


From 260be5df7bf082aea5be956ce04ae2204c61fd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:17 +0000
Subject: [PATCH 31/75] fix: a failing ASSERT_STREQ aborted the whole test run

---
 include/Caitlyn/__Testing/Macro/Assert.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/Caitlyn/__Testing/Macro/Assert.h b/include/Caitlyn/__Testing/Macro/Assert.h
index a386cd8..30472b3 100644
--- a/include/Caitlyn/__Testing/Macro/Assert.h
+++ b/include/Caitlyn/__Testing/Macro/Assert.h
@@ -99,19 +99,21 @@
         }                                                                                                              \
         else if ((expected) == nullptr)                                                                                \
         {                                                                                                              \
-            std::cerr << "Assertion failed: Expected nullptr, but got \"" << (actual) << "\"" << std::endl;            \
-            std::abort();                                                                                              \
+            std::ostringstream oss;                                                                                    \
+            oss << "Assertion failed: Expected nullptr, but got \"" << (actual) << "\"";                               \
+            throw std::runtime_error(oss.str());                                                                       \
         }                                                                                                              \
         else if ((actual) == nullptr)                                                                                  \
         {                                                                                                              \
-            std::cerr << "Assertion failed: Expected \"" << (expected) << "\", but got nullptr" << std::endl;          \
-            std::abort();                                                                                              \
+            std::ostringstream oss;                                                                                    \
+            oss << "Assertion failed: Expected \"" << (expected) << "\", but got nullptr";                             \
+            throw std::runtime_error(oss.str());                                                                       \
         }                                                                                                              \
         else if (std::strcmp((expected), (actual)) != 0)                                                               \
         {                                                                                                              \
-            std::cerr << "Assertion failed: Expected \"" << (expected) << "\", but got \"" << (actual) << "\""         \
-                      << std::endl;                                                                                    \
-            std::abort();                                                                                              \
+            std::ostringstream oss;                                                                                    \
+            oss << "Assertion failed: Expected \"" << (expected) << "\", but got \"" << (actual) << "\"";              \
+            throw std::runtime_error(oss.str());                                                                       \
         }                                                                                                              \
     }                                                                                                                  \
     while (false)
-- 
2.43.0


From 77339b4ce0d4a32ca8b78efeabde061b1dc3a81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:17 +0000
Subject: [PATCH 32/75] fix: TestRegistry::RunAll counted the results of
 earlier runs again

---
 include/Caitlyn/__Testing/Types/TestRegistry.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/Caitlyn/__Testing/Types/TestRegistry.h b/include/Caitlyn/__Testing/Types/TestRegistry.h
index 24b67b2..33bf404 100644
--- a/include/Caitlyn/__Testing/Types/TestRegistry.h
+++ b/include/Caitlyn/__Testing/Types/TestRegistry.h
@@ -52,6 +52,9 @@ public:
 
     int RunAll()
     {
+        passed_ = 0;
+        failed_ = 0;
+
         LogStart();
 
         startGlobalTime_ = std::chrono::steady_clock::now();
-- 
2.43.0


From bdacab4bc5b4803f7a4f26cbed929e9d2fee9468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:01 +0000
Subject: [PATCH 33/75] fix: InputStream::ReadChar read outside an empty line

---
 include/Caitlyn/__Core/IO/Stream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/IO/Stream.h b/include/Caitlyn/__Core/IO/Stream.h
index 7db32f4..be90dca 100644
--- a/include/Caitlyn/__Core/IO/Stream.h
+++ b/include/Caitlyn/__Core/IO/Stream.h
@@ -49,7 +49,8 @@ public:
 
     static Char ReadChar(const String& message = String::Empty())
     {
-        return ReadLine(message)[0];
+        const String line = ReadLine(message);
+        return line.NotEmpty() ? line[0] : Char{};
     }
 
     template <typename... Args>
-- 
2.43.0


From b520ca3991dc9f0f24471d07b33bfef350e5d17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:31 +0000
Subject: [PATCH 34/75] fix: SharedPtr never deleted the object when its last
 owner went

---
 include/Caitlyn/__Core/Memory/Types/SharedPointer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index e7160ec..3d87d10 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -152,7 +152,7 @@ public:
 private:
     void Release() const
     {
-        if (ref_count_ && ref_count_->fetch_sub(1, std::memory_order_relaxed) == 0)
+        if (ref_count_ && ref_count_->fetch_sub(1, std::memory_order_relaxed) == 1)
         {
             delete data_;
             delete ref_count_;
-- 
2.43.0


From 162a8cea5d729177576a684af9ed3618816d71ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:31 +0000
Subject: [PATCH 35/75] fix: copying a null SharedPtr dereferenced a null
 counter

---
 include/Caitlyn/__Core/Memory/Types/SharedPointer.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index 3d87d10..9a537cd 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -43,7 +43,10 @@ public:
 
     SharedPtr(const SharedPtr& other) : data_{other.data_}, ref_count_{other.ref_count_}
     {
-        ref_count_->fetch_add(1, std::memory_order_relaxed);
+        if (ref_count_)
+        {
+            ref_count_->fetch_add(1, std::memory_order_relaxed);
+        }
     }
 
     SharedPtr(SharedPtr&& other) noexcept : data_{other.data_}, ref_count_{other.ref_count_}
-- 
2.43.0


From e7a11da6b8212f9eaa6ce58d2bf69730aadd1876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:31 +0000
Subject: [PATCH 36/75] fix: assigning a raw pointer to a SharedPtr called a
 function that does not exist

---
 include/Caitlyn/__Core/Memory/Types/SharedPointer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index 9a537cd..fb8b7fc 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -63,7 +63,7 @@ public:
 public:
     SharedPtr& operator=(Pointer data)
     {
-        reset(data);
+        Reset(data);
         return *this;
     }
 
-- 
2.43.0


From 0c9a0dc9797ef27bf30502a22f2594e855a88d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:31 +0000
Subject: [PATCH 37/75] fix: assigning a raw pointer to a UniquePtr called a
 function that does not exist

---
 include/Caitlyn/__Core/Memory/Types/UniquePointer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
index ba2d065..cf049fb 100644
--- a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
@@ -53,7 +53,7 @@ public:
 public:
     UniquePtr& operator=(Pointer data)
     {
-        reset(data);
+        Reset(data);
         return *this;
     }
 
-- 
2.43.0


From edc9bf830c72fdb30499db925e0f6a02edc296f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:31 +0000
Subject: [PATCH 38/75] fix: UniquePtr::Release did not compile

---
 include/Caitlyn/__Core/Memory/Types/UniquePointer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
index cf049fb..f45b283 100644
--- a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
@@ -126,7 +126,7 @@ public:
 
     Pointer Release()
     {
-        ConstPointer tmp = data_;
+        Pointer tmp = data_;
         data_ = nullptr;
         return tmp;
     }
-- 
2.43.0


From 2fabe55f793aad7af85b32b396d7b8f64107f375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:47 +0000
Subject: [PATCH 39/75] fix: UniquePointer.h uses std::runtime_error without
 including its header

---
 include/Caitlyn/__Core/Memory/Types/UniquePointer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
index f45b283..fec24da 100644
--- a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
@@ -18,6 +18,8 @@
 #ifndef CAITLYN_CORE_MEMORY_TYPES_UNIQUEPOINTER_H
 #define CAITLYN_CORE_MEMORY_TYPES_UNIQUEPOINTER_H
 
+#include <stdexcept>
+
 #include "Caitlyn/__Base.h"
 
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
-- 
2.43.0


From 05a87013c38c2b34d9ea9491e417c4ebcba92454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:01 +0000
Subject: [PATCH 40/75] fix: move assignment from a UniquePtr inside the object
 being deleted read freed memory

---
 include/Caitlyn/__Core/Memory/Types/UniquePointer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
index fec24da..408c1ce 100644
--- a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
@@ -63,9 +63,10 @@ public:
     {
         if (this != &other)
         {
+            // other may live inside the object deleted here
+            const Pointer data = other.Release();
             delete data_;
-            data_ = other.data_;
-            other.data_ = nullptr;
+            data_ = data;
         }
         return *this;
     }
-- 
2.43.0


From b8ca63d01e96a845c45f47e9e6f386ced008c197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:01 +0000
Subject: [PATCH 41/75] fix: assigning from a SharedPtr inside the object being
 released read freed memory

---
 .../__Core/Memory/Types/SharedPointer.h       | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index fb8b7fc..edce950 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -71,13 +71,16 @@ public:
     {
         if (this != &other)
         {
-            Release();
-            data_ = other.data_;
-            ref_count_ = other.ref_count_;
-            if (ref_count_)
+            // other may live inside the object released here
+            const Pointer data = other.data_;
+            Counter* const ref_count = other.ref_count_;
+            if (ref_count)
             {
-                ref_count_->fetch_add(1);
+                ref_count->fetch_add(1);
             }
+            Release();
+            data_ = data;
+            ref_count_ = ref_count;
         }
         return *this;
     }
@@ -86,11 +89,14 @@ public:
     {
         if (this != &other)
         {
-            Release();
-            data_ = other.data_;
-            ref_count_ = other.ref_count_;
+            // other may live inside the object released here
+            const Pointer data = other.data_;
+            Counter* const ref_count = other.ref_count_;
             other.data_ = nullptr;
             other.ref_count_ = nullptr;
+            Release();
+            data_ = data;
+            ref_count_ = ref_count;
         }
         return *this;
     }
-- 
2.43.0


From 6526b283d8825d720b83551bcdf284f9a2104c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:04 +0000
Subject: [PATCH 42/75] fix: File::Read built its result from a buffer without
 a terminator

---
 include/Caitlyn/__Core/File/File.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 21c18a9..963a337 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -128,7 +128,7 @@ public:
         std::vector<char> buffer(size);
         if (file_.read(buffer.data(), size))
         {
-            return buffer.data();
+            return std::string(buffer.begin(), buffer.end());
         }
         return {};
     }
-- 
2.43.0


From 28cf2416f2082562114e0c6a900093afb81b6077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:04 +0000
Subject: [PATCH 43/75] fix: opening an already open File left its stream
 unusable

---
 include/Caitlyn/__Core/File/File.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 963a337..19328a9 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -60,6 +60,7 @@ public:
         {
             throw std::ios_base::failure{"Filename is empty"};
         }
+        Close();
         file_.open(GetFilename(), std::ios::in | std::ios::out | std::ios::app | std::ios::binary);
         if (!file_.is_open())
         {
-- 
2.43.0


From d9da1ce12b40fb763069adce96b45a1d87e2c494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:04 +0000
Subject: [PATCH 44/75] fix: File::Erase kept the reading position of the
 erased content

---
 include/Caitlyn/__Core/File/File.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 19328a9..0352aa7 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -85,6 +85,7 @@ public:
             throw std::ios_base::failure{"Failed to open file for clearing."};
         }
         clearFile.close();
+        currentPosition_ = 0;
         Open();
     }
 
-- 
2.43.0


From 602920cb6c1bf3b3500c1e97da0ec7a8c2641457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:04 +0000
Subject: [PATCH 45/75] fix: a refused File::SetPosition moved the position and
 left the stream unusable

---
 include/Caitlyn/__Core/File/File.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 0352aa7..620b928 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -101,13 +101,14 @@ public:
 
     void SetPosition(const std::streampos& position)
     {
-        currentPosition_ = position;
         file_.clear();
-        file_.seekg(currentPosition_, std::ios::beg);
+        file_.seekg(position, std::ios::beg);
         if (file_.fail())
         {
+            file_.clear();
             throw std::ios_base::failure{"Failed to set position in the file."};
         }
+        currentPosition_ = position;
     }
 
     std::streampos GetPosition() const
-- 
2.43.0


From 9e2083337481ef49a180cff0e04752b2c631d2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:04 +0000
Subject: [PATCH 46/75] fix: reaching the end with File::ReadLine left the
 stream unusable

---
 include/Caitlyn/__Core/File/File.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 620b928..6f02bcc 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -66,6 +66,7 @@ public:
         {
             throw std::ios_base::failure{"Failed to open file for writing."};
         }
+        eof_ = false;
     }
 
     void Close()
@@ -91,12 +92,12 @@ public:
 
     bool IsEof() const
     {
-        return file_.eof();
+        return eof_;
     }
 
     explicit operator bool() const noexcept
     {
-        return !file_.eof();
+        return !eof_;
     }
 
     void SetPosition(const std::streampos& position)
@@ -109,6 +110,7 @@ public:
             throw std::ios_base::failure{"Failed to set position in the file."};
         }
         currentPosition_ = position;
+        eof_ = false;
     }
 
     std::streampos GetPosition() const
@@ -142,14 +144,11 @@ public:
         {
             Open();
         }
-        if (file_.eof())
-        {
-            return {};
-        }
         if (file_.fail() || file_.bad())
         {
             throw std::ios_base::failure{"Stream error encountered before reading."};
         }
+        eof_ = false;
         file_.clear();
         file_.seekg(currentPosition_, std::ios::beg);
 
@@ -166,6 +165,8 @@ public:
         }
         if (file_.eof())
         {
+            eof_ = true;
+            file_.clear();
             currentPosition_ = file_.tellg();
             return result.str();
         }
@@ -454,6 +455,7 @@ private:
     String filename_;
     std::basic_fstream<char> file_;
     std::streampos currentPosition_{};
+    bool eof_{};
 };
 
 inline File MakeFile(const String& filename)
-- 
2.43.0


From 22153711d128143c1ca5faf73a0e98ff586ed2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:04 +0000
Subject: [PATCH 47/75] fix: destroying a JSON string value leaked its text

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index b5d8a48..fb12390 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -554,6 +554,9 @@ private:
                 }
                 data_.object_value.~ObjectType();
                 break;
+            case JsonClass::String:
+                data_.string_value.~StringType();
+                break;
             default:
                 break;
         }
-- 
2.43.0


From 15185851fe680fb0c786129651dc4a061ef7eb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:04 +0000
Subject: [PATCH 48/75] fix: moving a JSON array or object left the source
 container undestroyed

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index fb12390..6bfc04e 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -532,6 +532,7 @@ private:
             default:
                 break;
         }
+        other.DestroyUnion();
         other.type_ = JsonClass::Null;
         new (&other.data_.null_value) NullType{};
     }
-- 
2.43.0


From 8a23f3cc266d8b722a5313742a1d43f2a40a9e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:04 +0000
Subject: [PATCH 49/75] fix: assigning a JSON value from inside itself read
 freed memory

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 6bfc04e..97a10b3 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -101,9 +101,10 @@ public:
     {
         if (this != &other)
         {
+            JsonData copy{other};
             DestroyUnion();
-            type_ = other.type_;
-            CopyUnion(other);
+            type_ = copy.type_;
+            MoveUnion(std::move(copy));
         }
         return *this;
     }
@@ -112,9 +113,10 @@ public:
     {
         if (this != &other)
         {
+            JsonData moved{std::move(other)};
             DestroyUnion();
-            type_ = other.type_;
-            MoveUnion(std::move(other));
+            type_ = moved.type_;
+            MoveUnion(std::move(moved));
         }
         return *this;
     }
-- 
2.43.0


From 3fe36b8f33f4c00f66514364ab2b44c92547092a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:04 +0000
Subject: [PATCH 50/75] fix: indexing a JSON array past its end constructed a
 value at a null pointer

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 97a10b3..1738f70 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -176,13 +176,9 @@ public:
     {
         SetType(JsonClass::Array);
         auto& array = data_.array_value;
-        if (index >= array.size())
+        while (index >= array.size())
         {
-            array.resize(index + 1, nullptr);
-        }
-        if (!array[index])
-        {
-            new (array[index]) JsonData{};
+            array.emplace_back(new JsonData{});
         }
         return *array[index];
     }
-- 
2.43.0


From 642da06d616164d4f81e815f90be98d1ceb68a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:04 +0000
Subject: [PATCH 51/75] fix: const At of a JSON value of another type read an
 inactive union member

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 1738f70..143d097 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -191,6 +191,10 @@ public:
 
     const JsonData& At(const StringType& key) const
     {
+        if (!IsObject())
+        {
+            throw std::out_of_range{"Key not found"};
+        }
         const auto& object = data_.object_value;
         const auto it = std::find_if(
             object.begin(),
@@ -211,6 +215,10 @@ public:
 
     const JsonData& At(const SizeType index) const
     {
+        if (!IsArray())
+        {
+            throw std::out_of_range{"Index not found"};
+        }
         return *data_.array_value.at(index);
     }
 
-- 
2.43.0


From 4acb07cbf442c78b08a44b2ccdf06265ec84b9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:04 +0000
Subject: [PATCH 52/75] fix: MakeFloating, MakeIntegral and MakeBoolean made
 JSON strings

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 143d097..8bc813d 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -664,17 +664,17 @@ inline __Detail::JsonData MakeString(const std::string& value)
 
 inline __Detail::JsonData MakeFloating(const __Detail::JsonData::FloatingType value)
 {
-    return __Detail::JsonData{std::to_string(value)};
+    return __Detail::JsonData{value};
 }
 
 inline __Detail::JsonData MakeIntegral(const __Detail::JsonData::IntegralType value)
 {
-    return __Detail::JsonData{std::to_string(value)};
+    return __Detail::JsonData{value};
 }
 
 inline __Detail::JsonData MakeBoolean(const __Detail::JsonData::BooleanType value)
 {
-    return __Detail::JsonData{std::to_string(value)};
+    return __Detail::JsonData{value};
 }
 
 __CAITLYN_JSON_NAMESPACE_END
-- 
2.43.0


From 424babc27236ff933556c52b84b5ee3fe2257762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:04 +0000
Subject: [PATCH 53/75] fix: RemoveMember leaked the removed JSON value

---
 include/Caitlyn/__Serializing/Json/Types/Json.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/Json.h b/include/Caitlyn/__Serializing/Json/Types/Json.h
index f4cff9a..9858083 100644
--- a/include/Caitlyn/__Serializing/Json/Types/Json.h
+++ b/include/Caitlyn/__Serializing/Json/Types/Json.h
@@ -136,13 +136,13 @@ public:
         if (root_.HasMember(key))
         {
             auto& obj = root_.GetData();
-            obj.erase(
-                std::remove_if(
-                    obj.begin(),
-                    obj.end(),
-                    [&key](const std::pair<const String&, const DataType*>& pair)
-                    { return pair.first == key; }),
-                obj.end());
+            const auto it = std::find_if(
+                obj.begin(),
+                obj.end(),
+                [&key](const std::pair<const String&, const DataType*>& pair)
+                { return pair.first == key; });
+            delete it->second;
+            obj.erase(it);
         }
     }
 
-- 
2.43.0


From 47ff83c3fb8277d6a3b6371500ab271128399a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:14 +0000
Subject: [PATCH 54/75] fix: JSON text of white space only was read past its
 end

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 4f39650..ea74621 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -42,7 +42,7 @@ public:
         const auto first = FindFirstNonSpace(json);
         const auto last = FindLastNonSpace(json);
 
-        if (json[first] != Def::LeftCurlyBracket)
+        if (first == json.size() || json[first] != Def::LeftCurlyBracket)
         {
             parser.SetError(JsonError::InvalidJson);
             parser.SetErrorPosition(first);
-- 
2.43.0


From 365ef374cc85d55250c0cca4dacc7fbf2731f09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:14 +0000
Subject: [PATCH 55/75] fix: text after the root object of a JSON document was
 ignored

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index ea74621..3d4f139 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -55,6 +55,13 @@ public:
             return parser;
         }
         parser.data_ = parser.ParseValue();
+
+        if (!parser.HasError() && parser.position_ <= last)
+        {
+            parser.SetError(JsonError::UnexpectedCharacter);
+            parser.SetErrorPosition(parser.position_);
+            parser.data_ = JsonData{};
+        }
         return parser;
     }
 
@@ -430,7 +437,7 @@ private:
     JsonError error_;
     const String& json_;
     SizeType position_;
-    SizeType errorPosition_;
+    SizeType errorPosition_{};
 };
 
 __CAITLYN_DETAIL_NAMESPACE_END
-- 
2.43.0


From ace159e5591bc2887c442979440175a0a5bd3dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:14 +0000
Subject: [PATCH 56/75] fix: JSON literals were compared at a byte position
 computed from characters

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 3d4f139..150f77b 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -251,7 +251,7 @@ private:
 
     JsonData ParseNull()
     {
-        if (json_.str().compare(position_, 4, String::ValueOf(nullptr)) == 0)
+        if (json_.Substring(position_, 4) == String::ValueOf(nullptr))
         {
             Next(4);
             return MakeNull();
@@ -353,12 +353,12 @@ private:
 
     JsonData ParseBoolean()
     {
-        if (json_.str().compare(position_, 4, String::ValueOf(true)) == 0)
+        if (json_.Substring(position_, 4) == String::ValueOf(true))
         {
             Next(4);
             return true;
         }
-        if (json_.str().compare(position_, 5, String::ValueOf(false)) == 0)
+        if (json_.Substring(position_, 5) == String::ValueOf(false))
         {
             Next(5);
             return false;
-- 
2.43.0


From 506a82faa4abc49ee4e677e875371184b6702ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:14 +0000
Subject: [PATCH 57/75] fix: the character after an escape in a JSON string was
 dropped

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 150f77b..68a58af 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -333,7 +333,6 @@ private:
                     SetErrorPosition(position_);
                     return JsonData{};
                 }
-                Next();
             }
             else
             {
-- 
2.43.0


From af612bcc839eb5a58ca86b5899d0dc02ae7292f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:14 +0000
Subject: [PATCH 58/75] fix: the escaped solidus was refused in JSON strings

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 68a58af..71c000c 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -285,6 +285,10 @@ private:
                 {
                     escaped_stream << Def::ReverseSolidus;
                 }
+                else if (json_[position_] == Def::Solidus)
+                {
+                    escaped_stream << Def::Solidus;
+                }
                 else if (json_[position_] == Def::LatinSmallLetterB)
                 {
                     escaped_stream << Def::Backspace;
-- 
2.43.0


From 1ea9a9ce134917bcb640efc4064135e4072639f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:14 +0000
Subject: [PATCH 59/75] fix: \u escapes in JSON strings became single bytes

---
 .../__Serializing/Json/Types/JsonParser.h     | 41 +++++++++++++------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 71c000c..d698bd7 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -311,25 +311,25 @@ private:
                 }
                 else if (json_[position_] == Def::LatinSmallLetterU)
                 {
-                    if (position_ + 4 >= json_.size())
-                    {
-                        SetError(JsonError::InvalidEscapeSequence);
-                        SetErrorPosition(position_);
-                        return JsonData{};
-                    }
-                    String hex_code = json_.Substring(position_ + 1, 4);
-                    try
+                    auto code_point = ParseCodeUnit();
+
+                    if (code_point >= 0xD800 && code_point <= 0xDBFF && position_ + 2 < json_.size() &&
+                        json_[position_ + 1] == Def::ReverseSolidus && json_[position_ + 2] == Def::LatinSmallLetterU)
                     {
-                        const uint32_t code_point = std::stoul(hex_code.str(), nullptr, 16);
-                        escaped_stream << static_cast<char>(code_point);
+                        Next(2);
+                        const auto low = ParseCodeUnit();
+                        code_point = low >= 0xDC00 && low <= 0xDFFF
+                                         ? 0x10000 + (code_point - 0xD800) * 0x400 + (low - 0xDC00)
+                                         : 0;
                     }
-                    catch (const std::exception&)
+                    // A String cannot hold U+0000 or a lone surrogate
+                    if (code_point == 0 || (code_point >= 0xD800 && code_point <= 0xDFFF))
                     {
                         SetError(JsonError::InvalidEscapeSequence);
                         SetErrorPosition(position_);
                         return JsonData{};
                     }
-                    position_ += 4;
+                    escaped_stream << Char{code_point};
                 }
                 else
                 {
@@ -354,6 +354,23 @@ private:
         return JsonData{};
     }
 
+    // The four hexadecimal digits after the current character, or 0
+    CodePoint ParseCodeUnit()
+    {
+        if (position_ + 4 >= json_.size())
+        {
+            return 0;
+        }
+        const auto hex = json_.Substring(position_ + 1, 4).str();
+
+        if (hex.size() != 4 || hex.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos)
+        {
+            return 0;
+        }
+        Next(4);
+        return static_cast<CodePoint>(std::stoul(hex, nullptr, 16));
+    }
+
     JsonData ParseBoolean()
     {
         if (json_.Substring(position_, 4) == String::ValueOf(true))
-- 
2.43.0


From b0bfa9316197ff6d111de5c133ded1eae928474b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:14 +0000
Subject: [PATCH 60/75] fix: JSON keys kept their escapes and ended at an
 escaped quotation mark

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index d698bd7..7768928 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -141,17 +141,12 @@ private:
             }
             if (json_[position_] == Def::QuotationMark)
             {
-                Next();
-                const auto key_end = json_.Find(Def::QuotationMark, position_);
+                const auto key = ParseString().GetString();
 
-                if (key_end == String::NPosition)
+                if (HasError())
                 {
-                    SetError(JsonError::UnterminatedString);
-                    SetErrorPosition(position_);
                     return JsonData{};
                 }
-                String key = json_.Substring(position_, key_end - position_);
-                position_ = key_end + 1;
 
                 SkipSpace();
                 if (json_[position_] != Def::Colon)
-- 
2.43.0


From c7c9ae6bab11ceccc1bb68158e0040d126577581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:14 +0000
Subject: [PATCH 61/75] fix: the JSON parser read past the end of incomplete
 text

---
 .../__Serializing/Json/Types/JsonParser.h     | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 7768928..022c4b6 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -149,7 +149,7 @@ private:
                 }
 
                 SkipSpace();
-                if (json_[position_] != Def::Colon)
+                if (!IsNext(Def::Colon))
                 {
                     SetError(JsonError::MissingColon);
                     SetErrorPosition(position_);
@@ -160,19 +160,19 @@ private:
                 result[key] = ParseValue();
 
                 SkipSpace();
-                if (json_[position_] == Def::Comma)
+                if (IsNext(Def::Comma))
                 {
                     Next();
                     SkipSpace();
 
-                    if (json_[position_] == Def::RightCurlyBracket)
+                    if (IsNext(Def::RightCurlyBracket))
                     {
                         SetError(JsonError::TrailingComma);
                         SetErrorPosition(position_);
                         return JsonData{};
                     }
                 }
-                else if (json_[position_] == Def::RightCurlyBracket)
+                else if (IsNext(Def::RightCurlyBracket))
                 {
                     Next();
                     return result;
@@ -215,19 +215,19 @@ private:
             result.Append(value);
 
             SkipSpace();
-            if (json_[position_] == Def::Comma)
+            if (IsNext(Def::Comma))
             {
                 Next();
                 SkipSpace();
 
-                if (json_[position_] == Def::RightSquareBracket)
+                if (IsNext(Def::RightSquareBracket))
                 {
                     SetError(JsonError::TrailingComma);
                     SetErrorPosition(position_);
                     return JsonData{};
                 }
             }
-            else if (json_[position_] == Def::RightSquareBracket)
+            else if (IsNext(Def::RightSquareBracket))
             {
                 Next();
                 return result;
@@ -339,7 +339,7 @@ private:
             }
             Next();
         }
-        if (json_[position_] == Def::QuotationMark)
+        if (IsNext(Def::QuotationMark))
         {
             Next();
             return escaped_stream.str();
@@ -424,6 +424,11 @@ private:
         return result;
     }
 
+    bool IsNext(const Char& c) const
+    {
+        return position_ < json_.size() && json_[position_] == c;
+    }
+
     void SkipSpace()
     {
         while (position_ < json_.size() && IsSpace(json_[position_].GetCodePoint()))
-- 
2.43.0


From fa0dde04e76fc45b49013de4a1b0814861a6d519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:14 +0000
Subject: [PATCH 62/75] fix: errors in nested JSON values and missing values
 were ignored

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 022c4b6..796e1d3 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -91,6 +91,8 @@ private:
 
         if (position_ >= json_.size())
         {
+            SetError(JsonError::InvalidValue);
+            SetErrorPosition(position_);
             return JsonData{};
         }
         const auto current_char = json_[position_];
@@ -159,6 +161,10 @@ private:
                 SkipSpace();
                 result[key] = ParseValue();
 
+                if (HasError())
+                {
+                    return JsonData{};
+                }
                 SkipSpace();
                 if (IsNext(Def::Comma))
                 {
@@ -212,6 +218,11 @@ private:
                 return result;
             }
             const JsonData value = ParseValue();
+
+            if (HasError())
+            {
+                return JsonData{};
+            }
             result.Append(value);
 
             SkipSpace();
-- 
2.43.0


From 899ea5772ef3bc28a4ad194f5ab10b30034b1625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:14 +0000
Subject: [PATCH 63/75] fix: JSON numbers with a fraction lost it and malformed
 numbers were accepted

---
 .../__Serializing/Json/Types/JsonParser.h     | 56 ++++++++++++++++++-
 1 file changed, 55 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 796e1d3..980c2ef 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -406,9 +406,16 @@ private:
             ++end_number;
         }
         const String number_str = json_.Substring(position_, end_number - position_);
+
+        if (!IsNumeral(number_str.str()))
+        {
+            SetError(JsonError::InvalidNumber);
+            SetErrorPosition(position_);
+            return JsonData{};
+        }
         try
         {
-            if (number_str.Find(Def::PlusSign) != String::NPosition ||
+            if (number_str.Find(Def::FullStop) != String::NPosition ||
                 number_str.Find(Def::LatinSmallLetterE) != String::NPosition ||
                 number_str.Find(Def::LatinCapitalLetterE) != String::NPosition)
             {
@@ -435,6 +442,53 @@ private:
         return result;
     }
 
+    static SizeType SkipDigits(const std::string& text, SizeType index)
+    {
+        while (index < text.size() && text[index] >= '0' && text[index] <= '9')
+        {
+            ++index;
+        }
+        return index;
+    }
+
+    // [sign] digits [. digits] [e [sign] digits]
+    static bool IsNumeral(const std::string& text)
+    {
+        const SizeType integer = !text.empty() && (text[0] == '-' || text[0] == '+') ? 1 : 0;
+        auto end = SkipDigits(text, integer);
+
+        if (end == integer)
+        {
+            return false;
+        }
+        if (end < text.size() && text[end] == '.')
+        {
+            const auto fraction = end + 1;
+            end = SkipDigits(text, fraction);
+
+            if (end == fraction)
+            {
+                return false;
+            }
+        }
+        if (end < text.size() && (text[end] == 'e' || text[end] == 'E'))
+        {
+            auto exponent = end + 1;
+
+            if (exponent < text.size() && (text[exponent] == '-' || text[exponent] == '+'))
+            {
+                ++exponent;
+            }
+            end = SkipDigits(text, exponent);
+
+            if (end == exponent)
+            {
+                return false;
+            }
+        }
+        return end == text.size();
+    }
+
     bool IsNext(const Char& c) const
     {
         return position_ < json_.size() && json_[position_] == c;
-- 
2.43.0


From 5624e58bdf4e83277da2565dbd4649a12e1f134d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:36 +0000
Subject: [PATCH 64/75] fix: JSON output did not escape strings and keys

---
 .../__Serializing/Json/Types/JsonData.h       | 29 +++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 8bc813d..ed1a3a1 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -392,7 +392,8 @@ private:
                         {
                             oss << indent_str;
                         }
-                        oss << Def::QuotationMark << member.first << Def::QuotationMark << Def::Colon;
+                        WriteString(oss, member.first);
+                        oss << Def::Colon;
                         if (mangling)
                         {
                             oss << Def::Space;
@@ -453,7 +454,7 @@ private:
                 break;
             }
             case JsonClass::String:
-                oss << Def::QuotationMark << data_.string_value << Def::QuotationMark;
+                WriteString(oss, data_.string_value);
                 break;
             case JsonClass::Floating:
                 oss << data_.floating_value;
@@ -472,6 +473,30 @@ private:
         }
     }
 
+    static void WriteString(std::ostringstream& oss, const StringType& text)
+    {
+        oss << Def::QuotationMark;
+
+        for (const auto& current_char : text)
+        {
+            const auto byte = static_cast<unsigned char>(current_char.data()[0]);
+
+            if (byte < 0x20)
+            {
+                oss << (byte < 0x10 ? "\\u000" : "\\u001") << "0123456789abcdef"[byte % 0x10];
+            }
+            else if (current_char == Def::QuotationMark || current_char == Def::ReverseSolidus)
+            {
+                oss << Def::ReverseSolidus << current_char;
+            }
+            else
+            {
+                oss << current_char;
+            }
+        }
+        oss << Def::QuotationMark;
+    }
+
     void CopyUnion(const JsonData& other)
     {
         switch (other.type_)
-- 
2.43.0


From a078aeb360b0f7efb1c1452e76bc1a76d3bdfba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:56 +0000
Subject: [PATCH 65/75] fix: BigFloat lost signs, leading fraction zeros and
 carries

---
 docs/usage/numeric.md                      |   2 +-
 include/Caitlyn/__Numeric/Types/BigFloat.h | 239 +++++----------------
 2 files changed, 58 insertions(+), 183 deletions(-)

diff --git a/docs/usage/numeric.md b/docs/usage/numeric.md
index 8ab7983..ee1c9d5 100644
--- a/docs/usage/numeric.md
+++ b/docs/usage/numeric.md
@@ -55,5 +55,5 @@ int main()
 ```
 
 ```text
-1441.64203387923303265813084431780163079588042340079866748019604087803446244208066
+1441.064203387923303265813084431780163079588042340079866748019604087803446244208066
 ```
diff --git a/include/Caitlyn/__Numeric/Types/BigFloat.h b/include/Caitlyn/__Numeric/Types/BigFloat.h
index 0d9027a..dcaebef 100644
--- a/include/Caitlyn/__Numeric/Types/BigFloat.h
+++ b/include/Caitlyn/__Numeric/Types/BigFloat.h
@@ -47,7 +47,7 @@ public:
         size_t point_pos = number.Find(Def::FullStop);
         if (point_pos == String::NPosition)
         {
-            integerPart_ = BigInteger{number};
+            unscaled_ = BigInteger{number};
         }
         else
         {
@@ -62,19 +62,17 @@ public:
             {
                 fractional_str = Def::DigitZero;
             }
-            integerPart_ = BigInteger{integer_str};
-            fractionalPart_ = BigInteger{fractional_str};
+            unscaled_ = BigInteger{integer_str + fractional_str};
+            scale_ = fractional_str.size();
         }
     }
 
     BigFloat(const BigFloat& other) = default;
 
     BigFloat(BigFloat&& other) noexcept
-        : integerPart_(std::move(other.integerPart_)),
-          fractionalPart_(std::move(other.fractionalPart_)),
-          isNegative_(other.isNegative_)
+        : unscaled_(std::move(other.unscaled_)), scale_(other.scale_)
     {
-        other.isNegative_ = false;
+        other.scale_ = 0;
     }
 
 public:
@@ -82,9 +80,8 @@ public:
     {
         if (this != &other)
         {
-            integerPart_ = other.integerPart_;
-            fractionalPart_ = other.fractionalPart_;
-            isNegative_ = other.isNegative_;
+            unscaled_ = other.unscaled_;
+            scale_ = other.scale_;
         }
         return *this;
     }
@@ -93,10 +90,9 @@ public:
     {
         if (this != &other)
         {
-            integerPart_ = std::move(other.integerPart_);
-            fractionalPart_ = std::move(other.fractionalPart_);
-            isNegative_ = other.isNegative_;
-            other.isNegative_ = false;
+            unscaled_ = std::move(other.unscaled_);
+            scale_ = other.scale_;
+            other.scale_ = 0;
         }
         return *this;
     }
@@ -104,96 +100,19 @@ public:
 public:
     BigFloat Add(const BigFloat& other) const
     {
-        BigInteger this_fractional = fractionalPart_;
-        BigInteger other_fractional = other.fractionalPart_;
-
-        // Normalize fractional part lengths by adding leading zeros
-        while (this_fractional.Size() < other_fractional.Size())
-        {
-            this_fractional = this_fractional.Multiply(BigInteger{"10"});
-        }
-        while (other_fractional.Size() < this_fractional.Size())
-        {
-            other_fractional = other_fractional.Multiply(BigInteger{"10"});
-        }
-        BigInteger fractional_result = this_fractional.Add(other_fractional);
-        bool carry = false;
-
-        // If the result of fractional addition exceeds the fractional limit, carry
-        // over to integer part
-        if (fractional_result.Size() > this_fractional.Size())
-        {
-            carry = true;
-            fractional_result = fractional_result.Subtract(BigInteger{"10"}.Multiply(this_fractional.Size()));
-        }
-        BigInteger integer_result = integerPart_.Add(other.integerPart_);
-        if (carry)
-        {
-            integer_result = integer_result.Add(BigInteger{Def::DigitOne});
-        }
-        return BigFloat{integer_result.ToString() + Def::FullStop + fractional_result.ToString()};
+        const SizeType scale = std::max(scale_, other.scale_);
+        return BigFloat{Scaled(scale).Add(other.Scaled(scale)), scale};
     }
 
     BigFloat Subtract(const BigFloat& other) const
     {
-        BigInteger this_fractional = fractionalPart_;
-        BigInteger other_fractional = other.fractionalPart_;
-
-        // Normalize fractional part lengths by adding leading zeros
-        while (this_fractional.Size() < other_fractional.Size())
-        {
-            this_fractional = this_fractional.Multiply(BigInteger{"10"});
-        }
-        while (other_fractional.Size() < this_fractional.Size())
-        {
-            other_fractional = other_fractional.Multiply(BigInteger{"10"});
-        }
-
-        bool borrow = false;
-        if (this_fractional.LessThan(other_fractional))
-        {
-            borrow = true;
-            this_fractional = this_fractional.Add(BigInteger{"10"}.Multiply(this_fractional.Size()));
-        }
-        const BigInteger fractional_result = this_fractional.Subtract(other_fractional);
-
-        BigInteger integer_result = integerPart_.Subtract(other.integerPart_);
-        if (borrow)
-        {
-            integer_result = integer_result.Subtract(BigInteger{"1"});
-        }
-        return BigFloat{integer_result.ToString() + "." + fractional_result.ToString()};
+        const SizeType scale = std::max(scale_, other.scale_);
+        return BigFloat{Scaled(scale).Subtract(other.Scaled(scale)), scale};
     }
 
     BigFloat Multiply(const BigFloat& other) const
     {
-        // Convert both numbers to their full string representation without the
-        // decimal point
-        const String this_full = integerPart_.ToString() + fractionalPart_.ToString();
-        const String other_full = other.integerPart_.ToString() + other.fractionalPart_.ToString();
-
-        // Count the number of digits after the decimal point in both numbers
-        const size_t this_frac_size = fractionalPart_.Size();
-        const size_t other_frac_size = other.fractionalPart_.Size();
-
-        // Perform the multiplication on the full strings
-        const BigInteger result_full = BigInteger{this_full}.Multiply(BigInteger{other_full});
-
-        // The total number of fractional digits in the result
-        const size_t total_frac_size = this_frac_size + other_frac_size;
-
-        // Convert the result back to a string
-        String result_str = result_full.ToString();
-
-        // Insert the decimal point at the correct position
-        if (total_frac_size >= result_str.size())
-        {
-            result_str.Insert(0, String(total_frac_size - result_str.size() + 1, '0'));
-        }
-        result_str.Insert(result_str.size() - total_frac_size, 1, '.');
-
-        // Construct and return the BigFloat result
-        return BigFloat{result_str};
+        return BigFloat{unscaled_.Multiply(other.unscaled_), scale_ + other.scale_};
     }
 
     BigFloat Divide(const BigFloat& other) const
@@ -202,42 +121,15 @@ public:
         {
             throw std::invalid_argument{"Division by zero"};
         }
-        // Convert both numbers to their full string representation without the
-        // decimal point
-        const String this_full = integerPart_.ToString() + fractionalPart_.ToString();
-
-        const String other_full = other.integerPart_.ToString() + other.fractionalPart_.ToString();
-
-        // Count the number of digits after the decimal point in both numbers
-        const size_t this_frac_size = fractionalPart_.Size();
-        const size_t other_frac_size = other.fractionalPart_.Size();
-
-        // Perform the division on the full strings
-        const BigInteger result_full = BigInteger{this_full}.Divide(BigInteger{other_full});
-
-        // The total number of fractional digits in the result
-        const size_t total_frac_size = this_frac_size - other_frac_size;
-
-        // Convert the result back to a string
-        String result_str = result_full.ToString();
-
-        // Insert the decimal point at the correct position
-        if (total_frac_size >= result_str.size())
-        {
-            result_str.Insert(0, String(total_frac_size - result_str.size() + 1, '0'));
-        }
-        result_str.Insert(result_str.size() - total_frac_size, 1, '.');
-
-        // Construct and return the BigFloat result
-        return BigFloat{result_str};
+        // The quotient keeps as many fractional digits as the more precise operand
+        const SizeType scale = std::max(scale_, other.scale_);
+        return BigFloat{Scaled(scale + other.scale_).Divide(other.unscaled_), scale};
     }
 
 public:
     BigFloat Abs() const
     {
-        BigFloat result = *this;
-        result.isNegative_ = false;
-        return result;
+        return BigFloat{unscaled_.Abs(), scale_};
     }
 
     BigFloat Pow(int exponent) const
@@ -268,65 +160,25 @@ public:
 
     BigFloat Sqrt() const
     {
-        if (isNegative_)
-        {
-            throw std::invalid_argument{"Square root of negative number"};
-        }
-        if (this->Equal(BigFloat{"0"}) || this->Equal(BigFloat{"1"}))
-        {
-            return *this;
-        }
-        BigFloat low{"1"};
-        BigFloat high = *this;
-        BigFloat squared{};
-
-        while (low.LessThan(high) || low.Equal(high))
-        {
-            BigFloat mid = low.Add(high).Divide(BigFloat{"2"});
-            squared = mid.Sqr();
-            if (squared.Equal(*this))
-            {
-                return mid;
-            }
-            if (squared.LessThan(*this))
-            {
-                low = mid.Add(BigFloat{"1"});
-            }
-            else
-            {
-                high = mid.Subtract(BigFloat{"1"});
-            }
-        }
-        return high;
+        return BigFloat{Scaled(scale_ * 2).Sqrt(), scale_};
     }
 
 public:
     SizeType Size() const
     {
-        return integerPart_.Size() + fractionalPart_.Size();
+        return unscaled_.Size();
     }
 
     bool Equal(const BigFloat& other) const
     {
-        return integerPart_.Equal(other.integerPart_) && fractionalPart_.Equal(other.fractionalPart_) &&
-               isNegative_ == other.isNegative_;
+        const SizeType scale = std::max(scale_, other.scale_);
+        return Scaled(scale).Equal(other.Scaled(scale));
     }
 
     bool LessThan(const BigFloat& other) const
     {
-        if (isNegative_ != other.isNegative_)
-        {
-            return isNegative_;
-        }
-        if (integerPart_.LessThan(other.integerPart_))
-        {
-            return true;
-        }
-        if (integerPart_.GreaterThan(other.integerPart_))
-        {
-            return false;
-        }
-        return fractionalPart_.LessThan(other.fractionalPart_);
+        const SizeType scale = std::max(scale_, other.scale_);
+        return Scaled(scale).LessThan(other.Scaled(scale));
     }
 
     bool GreaterThan(const BigFloat& other) const
@@ -336,26 +188,49 @@ public:
 
     String ToString() const
     {
-        String result = integerPart_.ToString();
-        if (!fractionalPart_.ToString().IsEmpty() && fractionalPart_.ToString() != "0")
+        String digits = unscaled_.Abs().ToString();
+
+        if (digits.size() <= scale_)
+        {
+            digits.Insert(0, scale_ - digits.size() + 1, '0');
+        }
+        const SizeType point_pos = digits.size() - scale_;
+        const String fractional_str = digits.Substring(point_pos);
+        String result;
+
+        if (unscaled_.LessThan(BigInteger{"0"}))
+        {
+            result.PushBack('-');
+        }
+        result += digits.Substring(0, point_pos);
+
+        if (fractional_str != String(scale_, '0'))
         {
             result.PushBack('.');
-            result += fractionalPart_.ToString();
+            result += fractional_str;
         }
         return result;
     }
 
 private:
-    void RemoveLeadingZeros()
+    BigFloat(const BigInteger& unscaled, const SizeType scale) : unscaled_(unscaled), scale_(scale)
+    {
+    }
+
+    BigInteger Scaled(const SizeType scale) const
     {
-        integerPart_.RemoveLeadingZeros();
-        fractionalPart_.RemoveLeadingZeros();
+        BigInteger result = unscaled_;
+        for (SizeType i = scale_; i < scale; ++i)
+        {
+            result = result.Multiply(BigInteger{"10"});
+        }
+        return result;
     }
 
 private:
-    BigInteger integerPart_;
-    BigInteger fractionalPart_;
-    SignFlag isNegative_ = false;
+    // The value is unscaled_ / 10^scale_
+    BigInteger unscaled_;
+    SizeType scale_{};
 };
 
 __CAITLYN_GLOBAL_NAMESPACE_END
-- 
2.43.0


From b98fc1786ff319f379c47d270517cf9bb9f68a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:53 +0000
Subject: [PATCH 66/75] fix: SharedPtr::Release did not order accesses before
 the deletion

---
 include/Caitlyn/__Core/Memory/Types/SharedPointer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index edce950..d7c2851 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -161,7 +161,7 @@ public:
 private:
     void Release() const
     {
-        if (ref_count_ && ref_count_->fetch_sub(1, std::memory_order_relaxed) == 1)
+        if (ref_count_ && ref_count_->fetch_sub(1, std::memory_order_acq_rel) == 1)
         {
             delete data_;
             delete ref_count_;
-- 
2.43.0


From 1569156887254cd8d18f82c12eecb2e22d64527d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:57 +0000
Subject: [PATCH 67/75] fix: IsRValueReference asks for an rvalue reference

---
 include/Caitlyn/__Core/Traits/Constraints/Primary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Traits/Constraints/Primary.h b/include/Caitlyn/__Core/Traits/Constraints/Primary.h
index bb3d563..006f3ae 100644
--- a/include/Caitlyn/__Core/Traits/Constraints/Primary.h
+++ b/include/Caitlyn/__Core/Traits/Constraints/Primary.h
@@ -109,7 +109,7 @@ constexpr Bool IsLValueReference()
 template <typename T>
 constexpr Bool IsRValueReference()
 {
-    return __Detail::__IsLValueReference<T>::Value;
+    return __Detail::__IsRValueReference<T>::Value;
 }
 
 template <typename T>
-- 
2.43.0


From c7de129afa1d31f05df6af826e62394921c16df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:57 +0000
Subject: [PATCH 68/75] fix: HasBitwiseOrOperatorType tests the operator |

---
 include/Caitlyn/__Core/Traits/Types/Operators.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Traits/Types/Operators.h b/include/Caitlyn/__Core/Traits/Types/Operators.h
index 6d83593..f58bf9d 100644
--- a/include/Caitlyn/__Core/Traits/Types/Operators.h
+++ b/include/Caitlyn/__Core/Traits/Types/Operators.h
@@ -160,7 +160,7 @@ struct HasBitwiseOrOperatorType : FalseType
 };
 
 template <typename T>
-struct HasBitwiseOrOperatorType<T, Indicator<decltype(std::declval<T>() & std::declval<T>())>> : TrueType
+struct HasBitwiseOrOperatorType<T, Indicator<decltype(std::declval<T>() | std::declval<T>())>> : TrueType
 {
 };
 
-- 
2.43.0


From 2f8ea799928c83a81fa249f0d64898ae4464eaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:57 +0000
Subject: [PATCH 69/75] fix: RemoveConstType and RemoveVolatileType remove one
 qualifier only

---
 .../Caitlyn/__Core/Traits/Types/Specifiers.h  | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Types/Specifiers.h b/include/Caitlyn/__Core/Traits/Types/Specifiers.h
index 0f8d23c..09fce84 100644
--- a/include/Caitlyn/__Core/Traits/Types/Specifiers.h
+++ b/include/Caitlyn/__Core/Traits/Types/Specifiers.h
@@ -41,6 +41,30 @@ struct __AddCV
     using Type = const volatile T;
 };
 
+template <typename T>
+struct __RemoveConst
+{
+    using Type = T;
+};
+
+template <typename T>
+struct __RemoveConst<const T>
+{
+    using Type = T;
+};
+
+template <typename T>
+struct __RemoveVolatile
+{
+    using Type = T;
+};
+
+template <typename T>
+struct __RemoveVolatile<volatile T>
+{
+    using Type = T;
+};
+
 template <typename T>
 struct __RemoveCV
 {
@@ -77,10 +101,10 @@ template <typename T>
 using AddCVType = typename __Detail::__AddCV<T>::Type;
 
 template <typename T>
-using RemoveConstType = typename __Detail::__RemoveCV<const T>::Type;
+using RemoveConstType = typename __Detail::__RemoveConst<T>::Type;
 
 template <typename T>
-using RemoveVolatileType = typename __Detail::__RemoveCV<volatile T>::Type;
+using RemoveVolatileType = typename __Detail::__RemoveVolatile<T>::Type;
 
 template <typename T>
 using RemoveCVType = typename __Detail::__RemoveCV<T>::Type;
-- 
2.43.0


From 35a9996e4a05ece42b3b8334adb985f1aff86b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:57 +0000
Subject: [PATCH 70/75] fix: IsCharacter, IsInteger, IsIntegral and IsFloating
 hold for cv-qualified types

---
 include/Caitlyn/__Core/Traits/Constraints/Primary.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Constraints/Primary.h b/include/Caitlyn/__Core/Traits/Constraints/Primary.h
index 006f3ae..bade596 100644
--- a/include/Caitlyn/__Core/Traits/Constraints/Primary.h
+++ b/include/Caitlyn/__Core/Traits/Constraints/Primary.h
@@ -43,25 +43,25 @@ constexpr Bool IsBoolean()
 template <typename T>
 constexpr Bool IsCharacter()
 {
-    return __Detail::__IsCharacter<T>::Value;
+    return __Detail::__IsCharacter<RemoveCVType<T>>::Value;
 }
 
 template <typename T>
 constexpr Bool IsInteger()
 {
-    return __Detail::__IsInteger<T>::Value;
+    return __Detail::__IsInteger<RemoveCVType<T>>::Value;
 }
 
 template <typename T>
 constexpr Bool IsIntegral()
 {
-    return __Detail::__IsCharacter<T>::Value || __Detail::__IsInteger<T>::Value || IsBooleanType<T>::Value;
+    return __Detail::__IsCharacter<RemoveCVType<T>>::Value || __Detail::__IsInteger<RemoveCVType<T>>::Value || IsBooleanType<T>::Value;
 }
 
 template <typename T>
 constexpr Bool IsFloating()
 {
-    return __Detail::__IsFloating<T>::Value;
+    return __Detail::__IsFloating<RemoveCVType<T>>::Value;
 }
 
 template <typename T>
-- 
2.43.0


From ebcccabed96931520a1eaa55552e9b5e1e6abf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:57 +0000
Subject: [PATCH 71/75] fix: AlignmentOf, Rank and Extent return the number,
 not whether it is zero

---
 include/Caitlyn/__Core/Traits/Constraints/PropertyQueries.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Constraints/PropertyQueries.h b/include/Caitlyn/__Core/Traits/Constraints/PropertyQueries.h
index ecb7625..5c68332 100644
--- a/include/Caitlyn/__Core/Traits/Constraints/PropertyQueries.h
+++ b/include/Caitlyn/__Core/Traits/Constraints/PropertyQueries.h
@@ -25,19 +25,19 @@
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 
 template <typename T>
-constexpr Bool AlignmentOf()
+constexpr SizeType AlignmentOf()
 {
     return std::alignment_of<T>::value;
 }
 
 template <typename T>
-constexpr Bool Rank()
+constexpr SizeType Rank()
 {
     return std::rank<T>::value;
 }
 
 template <typename T>
-constexpr Bool Extent()
+constexpr SizeType Extent()
 {
     return std::extent<T>::value;
 }
-- 
2.43.0


From 8a935987dbaac1b98f28dbc6ea5244a0fe6cc7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:57 +0000
Subject: [PATCH 72/75] fix: IsSigned and IsUnsigned can be asked for every
 type

---
 include/Caitlyn/__Core/Traits/Types/Properties.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Types/Properties.h b/include/Caitlyn/__Core/Traits/Types/Properties.h
index 050dd3d..ce2b2a9 100644
--- a/include/Caitlyn/__Core/Traits/Types/Properties.h
+++ b/include/Caitlyn/__Core/Traits/Types/Properties.h
@@ -24,12 +24,12 @@ __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 __CAITLYN_TRAITS_NAMESPACE_BEGIN
 
 template <typename T>
-struct IsSignedType : BooleanConstant<std::is_arithmetic<T>::value && T(-1) < T(0)>
+struct IsSignedType : BooleanConstant<std::is_signed<T>::value>
 {
 };
 
 template <typename T>
-struct IsUnsignedType : BooleanConstant<std::is_arithmetic<T>::value && T(0) < T(-1)>
+struct IsUnsignedType : BooleanConstant<std::is_unsigned<T>::value>
 {
 };
 
-- 
2.43.0


From 46653134b0c3729325c6655186c9a7309b824484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:57 +0000
Subject: [PATCH 73/75] fix: AddPointerType of a reference points to its target

---
 include/Caitlyn/__Core/Traits/Types/Pointers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Traits/Types/Pointers.h b/include/Caitlyn/__Core/Traits/Types/Pointers.h
index ad20df3..a135860 100644
--- a/include/Caitlyn/__Core/Traits/Types/Pointers.h
+++ b/include/Caitlyn/__Core/Traits/Types/Pointers.h
@@ -24,7 +24,7 @@ __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 __CAITLYN_DETAIL_NAMESPACE_BEGIN
 
 template <typename T>
-auto __TryAddPointer(T*) -> __TypeIdentity<RemoveReferenceType<T>*>;
+auto __TryAddPointer(RemoveReferenceType<T>*) -> __TypeIdentity<RemoveReferenceType<T>*>;
 
 template <typename T>
 auto __TryAddPointer(...) -> __TypeIdentity<T>;
-- 
2.43.0


From 31c54b7274deb06b7bef514340188a53aac6fb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:08 +0000
Subject: [PATCH 74/75] fix: AddLValueReferenceType of an rvalue reference is
 an lvalue reference

---
 include/Caitlyn/__Core/Traits/Types/References.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Traits/Types/References.h b/include/Caitlyn/__Core/Traits/Types/References.h
index effb246..85ddd10 100644
--- a/include/Caitlyn/__Core/Traits/Types/References.h
+++ b/include/Caitlyn/__Core/Traits/Types/References.h
@@ -18,13 +18,15 @@
 #ifndef CAITLUN_CORE_TRAITS_TYPES_REFERENCES_H_
 #define CAITLUN_CORE_TRAITS_TYPES_REFERENCES_H_
 
+#include <type_traits>
+
 #include "Caitlyn/__Core/Traits/Types/Base.h"
 
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 __CAITLYN_DETAIL_NAMESPACE_BEGIN
 
 template <typename T>
-auto __TryAddLValueReference(T*) -> __TypeIdentity<T&>;
+auto __TryAddLValueReference(typename std::remove_reference<T>::type*) -> __TypeIdentity<T&>;
 
 template <typename T>
 auto __TryAddLValueReference(...) -> __TypeIdentity<T>;
-- 
2.43.0


From 30f7b380549b8eb50e385d9a3ab4c5d4c8399516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:14 +0000
Subject: [PATCH 75/75] fix: C++20: u8 literal in the definition of Utf8Char,
 char8_t specialises __IsCharacter

---
 include/Caitlyn/__Caitlyn/Types.h             | 2 +-
 include/Caitlyn/__Core/Traits/Types/Primary.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Caitlyn/Types.h b/include/Caitlyn/__Caitlyn/Types.h
index 5a4ea02..f2cac7e 100644
--- a/include/Caitlyn/__Caitlyn/Types.h
+++ b/include/Caitlyn/__Caitlyn/Types.h
@@ -26,7 +26,7 @@ __CAITLYN_DETAIL_NAMESPACE_BEGIN
 using __char_t = decltype('\0');
 using __wide_char_t = decltype(L'\0');
 #if __CAITLYN_HAS_CXX20
-using __utf8_char_t = decltype(u8 '\0');
+using __utf8_char_t = decltype(u8'\0');
 #else
 using __utf8_char_t = __char_t;
 #endif
diff --git a/include/Caitlyn/__Core/Traits/Types/Primary.h b/include/Caitlyn/__Core/Traits/Types/Primary.h
index 8bfe6b1..b8f47c3 100644
--- a/include/Caitlyn/__Core/Traits/Types/Primary.h
+++ b/include/Caitlyn/__Core/Traits/Types/Primary.h
@@ -68,7 +68,7 @@ struct __IsCharacter<wchar_t> : TrueType
 
 #if __CAITLYN_HAS_CXX20
 template <>
-struct __IsCharacterType<char8_t> : TrueType
+struct __IsCharacter<char8_t> : TrueType
 {
 };
 #endif
-- 
2.43.0

