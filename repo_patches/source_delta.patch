From 0b515942bbdc6da7489f96be219e81bddd5a04cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:44 +0000
Subject: [PATCH 01/90] fix: Date_(y, m, d) is one day early between March 2034
 and February 2100

The century correction of the Fliegel-Van Flandern formula is 3 * (X / 100) / 4; the misplaced
parenthesis computed (3 * X / 100) / 4, which differs once X mod 100 reaches 34.
---
 dal/time/date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/time/date.cpp b/dal/time/date.cpp
index 2e944e0..ce39d71 100644
--- a/dal/time/date.cpp
+++ b/dal/time/date.cpp
@@ -30,7 +30,7 @@ namespace Dal {
             // based on Vogelpoel's port of now-lost pseudocode
             // ignore Excel bug around 29 Feb 1900 -- dates before then will be wrong
             return (1461 * (yy + (mm - 14) / 12)) / 4 + (367 * (mm - 2 - 12 * ((mm - 14) / 12))) / 12 -
-                   (3 * ((yy + 4900 + (mm - 14) / 12)) / 100) / 4 + dd - 693894;
+                   (3 * ((yy + 4900 + (mm - 14) / 12) / 100)) / 4 + dd - 693894;
         }
 
         uint16_t SerialFromYMD(int yy, int mm, int dd) {
-- 
2.43.0


From 541239cbf72d420846ab37c5b1b07012344289c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:32 +0000
Subject: [PATCH 02/90] fix: DateTime_ loses a second or millisecond when read
 back

DateTime_(d, 0, 0, 11) printed 00:00:10 (5376 of the 86400 times of day do so), and MSec(DateTime_(ms)) lost
a millisecond: the day fraction was truncated although it may lie just below the number it stands for.
---
 dal/time/datetime.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dal/time/datetime.cpp b/dal/time/datetime.cpp
index b9b096e..e9f4743 100644
--- a/dal/time/datetime.cpp
+++ b/dal/time/datetime.cpp
@@ -10,9 +10,11 @@ namespace Dal {
 
     namespace {
         void FracToHMS(double frac, int* h, int* m, int* s) {
-            ASSIGN(h, static_cast<int>(24 * frac));
-            ASSIGN(m, static_cast<int>(1440 * frac) % 60);
-            ASSIGN(s, static_cast<int>(86400 * frac) % 60);
+            // frac is the nearest double to a number of seconds, which may lie just below it
+            const int secs = std::min(86399, static_cast<int>(86400 * frac + 1e-6));
+            ASSIGN(h, secs / 3600);
+            ASSIGN(m, secs / 60 % 60);
+            ASSIGN(s, secs % 60);
         }
     } // namespace
 
@@ -83,7 +85,7 @@ namespace Dal {
 
         long long MSec(const DateTime_& dt) {
             long long days = dt.Date() - Date::Minimum();
-            return 86400000 * days + static_cast<long long>(dt.Frac() * 86400000);
+            return 86400000 * days + static_cast<long long>(dt.Frac() * 86400000 + 1e-6);
         }
     } // namespace DateTime
 } // namespace Dal
-- 
2.43.0


From 1fd4878c92d6b537ac61e74e16a470a6d758c0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:57 +0000
Subject: [PATCH 03/90] fix: quarterly IMM and CDS steps stop in a non-quarter
 month

From 2020-01-10, IMM gave 2020-01-15 and CDS 2020-01-20: the month was only moved when the day of the
current month had passed, even if that month is not March, June, September or December.
---
 dal/time/dateincrement.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/time/dateincrement.cpp b/dal/time/dateincrement.cpp
index 3b75d5d..6f585a1 100644
--- a/dal/time/dateincrement.cpp
+++ b/dal/time/dateincrement.cpp
@@ -59,7 +59,7 @@ namespace {
         int mm = Date::Month(from);
         int dd = Date::Day(from);
 
-        if (forward ? dd >= 20 : dd <= 20) {
+        if (mm % 3 || (forward ? dd >= 20 : dd <= 20)) {
             do {
                 mm += forward ? 1 : -1;
             } while (mm % 3);
@@ -75,7 +75,7 @@ namespace {
         int mm = Date::Month(from);
         int dd = Date::Day(from);
 
-        if (forward ? dd >= IMMDay(yy, mm) : dd <= IMMDay(yy, mm)) {
+        if (mm % imm_months || (forward ? dd >= IMMDay(yy, mm) : dd <= IMMDay(yy, mm))) {
             do {
                 mm += forward ? 1 : -1;
             } while (mm % imm_months);
-- 
2.43.0


From cfcf8bd5d37c6c9b2e1b5993741dcec04d2d8d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:57 +0000
Subject: [PATCH 04/90] fix: annual ACT/365L never terminates when a non-leap
 February end falls in the period

The loop over Februaries never advanced the year; a period ending on 29 February itself also missed its leap day.
---
 dal/time/daybasis.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dal/time/daybasis.cpp b/dal/time/daybasis.cpp
index 10b4a27..3dd6f86 100644
--- a/dal/time/daybasis.cpp
+++ b/dal/time/daybasis.cpp
@@ -24,13 +24,13 @@ namespace Dal {
         double AnnualDaysL(const Date_& from, const Date_& to) {
             int mm = Date::Month(from.AddDays(1));
             int yy = Date::Year(from.AddDays(1));
-            for (;;) {
-                if (mm > 2)
-                    ++yy;
-                mm = 2;
-                if (Date_(yy, 3, 1) > to)
+            if (mm > 2)
+                ++yy;
+            for (;; ++yy) {
+                const Date_ endFeb = Date::EndOfMonth(Date_(yy, 2, 1));
+                if (endFeb > to)
                     return 365.0;
-                if (Date::DaysInMonth(yy, 2) == 29)
+                if (Date::Day(endFeb) == 29)
                     return 366.0;
             }
         }
-- 
2.43.0


From b88078abba9e2bb3f5fb6c1aa320fc9b7d473e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:57 +0000
Subject: [PATCH 05/90] fix: BOND (30/360 US) does not cap the start day at 30

31 Jan - 30 Mar counted 59 days and 30 Jan - 31 Mar 61 days, instead of 60.
---
 dal/time/daybasis.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dal/time/daybasis.cpp b/dal/time/daybasis.cpp
index 3dd6f86..55710a8 100644
--- a/dal/time/daybasis.cpp
+++ b/dal/time/daybasis.cpp
@@ -57,8 +57,10 @@ namespace Dal {
                     d2 = 30;
                 d1 = 30;
             }
-            if (d1 > 30)
+            if (d1 >= 30) {
+                d1 = 30;
                 d2 = std::min(d1, d2);
+            }
             return (360 * (y2 - y1) + 30 * (m2 - m1) + (d2 - d1)) / 360.0;
         }
     } // namespace
-- 
2.43.0


From 97f1d6918a625bd257399bebf766774f03565484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:58 +0000
Subject: [PATCH 06/90] fix: DateGenerate loops forever when the tenor does not
 move the date

A zero tenor ("0M"), or EOM from a month end, appended the same date until memory ran out.
---
 dal/time/schedules.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dal/time/schedules.cpp b/dal/time/schedules.cpp
index 1f5040c..b7955fa 100644
--- a/dal/time/schedules.cpp
+++ b/dal/time/schedules.cpp
@@ -24,6 +24,7 @@ namespace Dal {
             ret_val.push_back(start);
             for (int ip = 1;; ++ip) {
                 const Date_ pin_date = tenor->FwdFrom(ret_val[ip - 1]);
+                REQUIRE(pin_date > ret_val[ip - 1], "tenor must move the date forward");
                 if (pin_date > maturity)
                     break;
                 ret_val.push_back(pin_date);
@@ -34,6 +35,7 @@ namespace Dal {
             ret_val.push_back(maturity);
             for (int ip = 1;; ++ip) {
                 const Date_ pin_date = tenor->BackFrom(ret_val[ip - 1]);
+                REQUIRE(pin_date < ret_val[ip - 1], "tenor must move the date backward");
                 if (pin_date < start)
                     break;
                 ret_val.push_back(pin_date);
-- 
2.43.0


From b457380284f96fbef975a9a8c13a789b74f5f32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:51 +0000
Subject: [PATCH 07/90] fix: String::Equivalent reads out of bounds on
 non-ASCII characters

A negative char indexed the 256-entry skip table; every enumeration parsed from text goes through it.
---
 dal/string/strings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/string/strings.cpp b/dal/string/strings.cpp
index ea2fcb8..358b87d 100644
--- a/dal/string/strings.cpp
+++ b/dal/string/strings.cpp
@@ -88,7 +88,7 @@ namespace Dal::String {
         auto p = lhs.begin();
         auto q = rhs;
         while (true) {
-            while (p != lhs.end() && SKIP[*p])
+            while (p != lhs.end() && SKIP[static_cast<unsigned char>(*p)])
                 ++p;
             if (!*q || p == lhs.end())
                 return !*q && p == lhs.end();
-- 
2.43.0


From fa14e5ac708bac5dc4fe89875ccca1f319b7cf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:51 +0000
Subject: [PATCH 08/90] fix: String::Split drops a trailing empty field
 although asked to keep empties

Dictionary::ToString writes a blank value as 'KEY=', which FromString therefore refused to read back.
---
 dal/string/strings.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dal/string/strings.cpp b/dal/string/strings.cpp
index 358b87d..ae7f9af 100644
--- a/dal/string/strings.cpp
+++ b/dal/string/strings.cpp
@@ -25,6 +25,8 @@ namespace Dal::String {
             if (ret_val.back().empty() && !keep_empties)
                 ret_val.pop_back();
         }
+        if (keep_empties && !src.empty() && src.back() == sep)
+            ret_val.emplace_back();
         return ret_val;
     }
 
-- 
2.43.0


From bfbd8f3c91ce39e3a92c27959fbc11b6a021d577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:54 +0000
Subject: [PATCH 09/90] fix: JSON store loses digits of numbers and cannot read
 back its integer arrays

Numbers were written with six decimals (1e-7 became 0), and Vector_<int> elements as
"3.000000", which the reader refuses as a non-integer.
---
 dal/storage/json.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/dal/storage/json.cpp b/dal/storage/json.cpp
index 1d2379f..94fce9f 100644
--- a/dal/storage/json.cpp
+++ b/dal/storage/json.cpp
@@ -2,6 +2,7 @@
 // Created by wegam on 2023/1/21.
 //
 
+#include <cstdio>
 #include <fstream>
 #include <sstream>
 #include <regex>
@@ -39,6 +40,16 @@ namespace Dal {
         // this simple implementation just assumes there are none (fastest)
         // could have one that wraps, one that errors
 
+        // enough digits to read the same number back, and recognizably not an integer
+        std::string NumberText(double val) {
+            char buf[64];
+            snprintf(buf, sizeof(buf), "%.17g", val);
+            std::string ret_val(buf);
+            if (ret_val.find_first_not_of("-0123456789") == std::string::npos)
+                ret_val += ".0";
+            return ret_val;
+        }
+
         struct XDocStore_ : Archive::Store_ {
             std::ostream& dst_;
             std::map<const Storable_*, String_>& sharedTags_;
@@ -89,12 +100,12 @@ namespace Dal {
 
             // store atoms
             XDocStore_& operator=(double val) override {
-                dst_ << String::FromDouble(val);
+                dst_ << NumberText(val);
                 return *this;
             }
 
             XDocStore_& operator=(int val) {
-                dst_ << String::FromDouble(val);
+                dst_ << String::FromInt(val);
                 return *this;
             }
             XDocStore_& operator=(bool val) {
-- 
2.43.0


From 76e150a6fcc31b3a1b2bbb32f67c9dd8309ba547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:23 +0000
Subject: [PATCH 10/90] fix: stored booleans cannot be read back

Store_ had no assignment from bool, so PseudoRSG_::precise was written as a number, which
neither the JSON nor the splat reader accepts as a boolean.
---
 dal/storage/archive.hpp | 1 +
 dal/storage/json.cpp    | 2 +-
 dal/storage/splat.cpp   | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/dal/storage/archive.hpp b/dal/storage/archive.hpp
index 95bfa6f..f0e242e 100644
--- a/dal/storage/archive.hpp
+++ b/dal/storage/archive.hpp
@@ -28,6 +28,7 @@ namespace Dal::Archive {
         Store_& Element(int index); // just converts to String_ name and gets a child
 
         virtual Store_& operator=(double val) = 0;
+        virtual Store_& operator=(bool val) = 0;
         virtual Store_& operator=(const String_& val) = 0;
         virtual Store_& operator=(const Date_& val) = 0;
         virtual Store_& operator=(const DateTime_& val) = 0;
diff --git a/dal/storage/json.cpp b/dal/storage/json.cpp
index 94fce9f..0bee0a0 100644
--- a/dal/storage/json.cpp
+++ b/dal/storage/json.cpp
@@ -108,7 +108,7 @@ namespace Dal {
                 dst_ << String::FromInt(val);
                 return *this;
             }
-            XDocStore_& operator=(bool val) {
+            XDocStore_& operator=(bool val) override {
                 dst_ << String::FromBool(val);
                 return *this;
             }
diff --git a/dal/storage/splat.cpp b/dal/storage/splat.cpp
index e6eedfc..4d71970 100644
--- a/dal/storage/splat.cpp
+++ b/dal/storage/splat.cpp
@@ -112,6 +112,7 @@ namespace Dal {
             }
 
             XSplat_& operator=(double d) override { SetScalar(d); return *this; }
+            XSplat_& operator=(bool b) override { SetScalar(b); return *this; }
             XSplat_& operator=(const Date_& d) override { SetScalar(d); return *this; }
             XSplat_& operator=(const DateTime_& d) override { SetScalar(d); return *this; }
             XSplat_& operator=(const String_& s) override { SetScalar(s); return *this; }
-- 
2.43.0


From f6b83962c5bec2330ecc08dc19a80f5912765538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:23 +0000
Subject: [PATCH 11/90] fix: JSON reader has undefined behaviour on malformed
 or incomplete input

Parse errors were ignored, and members of values that are not objects, or that are missing,
were dereferenced (rapidjson only asserts).
---
 dal/storage/json.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/dal/storage/json.cpp b/dal/storage/json.cpp
index 0bee0a0..3a0945f 100644
--- a/dal/storage/json.cpp
+++ b/dal/storage/json.cpp
@@ -261,8 +261,9 @@ namespace Dal {
                 }
                 return String_();
             }
+            bool HasMember(const char* name) const { return doc_.IsObject() && doc_.HasMember(name); }
             String_ Tag() const {
-                if (doc_.HasMember(TAG_LABEL))
+                if (HasMember(TAG_LABEL))
                     return EString(doc_[TAG_LABEL]);
                 return String_();
             }
@@ -291,23 +292,26 @@ namespace Dal {
             //		the matrix has a child "cols" that gives the number of columns
             //		and a child "vals" that gives all the values, scanning each row in turn
             Matrix_<> AsDoubleMatrix() const override {
-                return AsMatrix(EInt(doc_[COLS_LABEL]), AsVector(doc_[VALS_LABEL], EDouble));
+                return AsMatrix(EInt(XChild(COLS_LABEL)), AsVector(XChild(VALS_LABEL), EDouble));
             }
             Matrix_<String_> AsStringMatrix() const override {
-                return AsMatrix(EInt(doc_[COLS_LABEL]), AsVector(doc_[VALS_LABEL], EString));
+                return AsMatrix(EInt(XChild(COLS_LABEL)), AsVector(XChild(VALS_LABEL), EString));
             }
             Matrix_<Cell_> AsCellMatrix() const override {
-                return AsMatrix(EInt(doc_[COLS_LABEL]), AsVector(doc_[VALS_LABEL], ECell));
+                return AsMatrix(EInt(XChild(COLS_LABEL)), AsVector(XChild(VALS_LABEL), ECell));
             }
 
             // object query interface
             String_ Type() const override {
-                if (doc_.HasMember(TYPE_LABEL))
+                if (HasMember(TYPE_LABEL))
                     return EString(doc_[TYPE_LABEL]);
                 return String_();
             }
-            element_t& XChild(const String_& name) const { return doc_[name.c_str()]; }
-            bool HasChild(const String_& name) const override { return doc_.HasMember(name.c_str()); }
+            element_t& XChild(const String_& name) const {
+                REQUIRE(HasMember(name.c_str()), "Child '" + name + "' not found");
+                return doc_[name.c_str()];
+            }
+            bool HasChild(const String_& name) const override { return HasMember(name.c_str()); }
             const View_& Child(const String_& name) const override {
                 Handle_<XDocView_>& ret_val = children_[name];
                 if (ret_val.IsEmpty())
@@ -323,6 +327,7 @@ namespace Dal {
         NOTE("Extracting object from JSON string");
         rapidjson::Document doc;
         doc.Parse<rapidjson::kParseDefaultFlags>(src.c_str());
+        REQUIRE(!doc.HasParseError(), "Invalid JSON");
         XDocView_ task(doc);
         Archive::Built_ built;
         return Archive::Extract(task, built);
@@ -336,6 +341,7 @@ namespace Dal {
         rapidjson::Document doc;
         doc.ParseStream<rapidjson::kParseDefaultFlags>(is);
         fclose(fp);
+        REQUIRE(!doc.HasParseError(), "Invalid JSON in file:'" + filename + "'");
         XDocView_ task(doc);
         Archive::Built_ built;
         return Archive::Extract(task, built);
-- 
2.43.0


From 90c7a4fdd4f185c72022329a595199bd9e227a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:23 +0000
Subject: [PATCH 12/90] fix: JSON store does not escape quotes, backslashes and
 control characters in strings

---
 dal/storage/json.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dal/storage/json.cpp b/dal/storage/json.cpp
index 3a0945f..334f01b 100644
--- a/dal/storage/json.cpp
+++ b/dal/storage/json.cpp
@@ -7,6 +7,7 @@
 #include <sstream>
 #include <regex>
 #include <rapidjson/document.h>
+#include <rapidjson/stringbuffer.h>
 #include <rapidjson/writer.h>
 #include <rapidjson/prettywriter.h>
 #include <rapidjson/filereadstream.h>
@@ -36,9 +37,12 @@ namespace Dal {
         }
         // WRITE interface
         // given up on rapidjson, think it is simple enough to just stream out
-        // POSTPONED -- add a template parameter determining the checking strategy for funny characters inside strings
-        // this simple implementation just assumes there are none (fastest)
-        // could have one that wraps, one that errors
+        String_ Quoted(const String_& src) {
+            rapidjson::StringBuffer buf;
+            rapidjson::Writer<rapidjson::StringBuffer> writer(buf);
+            writer.String(src.c_str(), static_cast<rapidjson::SizeType>(src.size()));
+            return String_(buf.GetString());
+        }
 
         // enough digits to read the same number back, and recognizably not an integer
         std::string NumberText(double val) {
@@ -92,7 +96,7 @@ namespace Dal {
                 std::shared_ptr<XDocStore_>& retval = children_[name];
                 if (!retval) {
                     // assume we are going to write the child immediately
-                    dst_ << Prep() << "\"" << name << "\": ";
+                    dst_ << Prep() << Quoted(name) << ": ";
                     retval.reset(new XDocStore_(dst_, sharedTags_, this, name));
                 }
                 return *retval;
@@ -112,7 +116,7 @@ namespace Dal {
                 dst_ << String::FromBool(val);
                 return *this;
             }
-            XDocStore_& operator=(const String_& val) override { dst_ << "\"" << val << "\""; return *this; }
+            XDocStore_& operator=(const String_& val) override { dst_ << Quoted(val); return *this; }
             XDocStore_& operator=(const Date_& val) override { return operator=(Date::ToString(val)); }
             XDocStore_& operator=(const DateTime_& val) override { return operator=(DateTime::ToString(val)); }
             XDocStore_& operator=(const Cell_& c) {
-- 
2.43.0


From 3e1507c5abfa2160d81a3675572ffe6ef685a77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:23 +0000
Subject: [PATCH 13/90] fix: JSON store turns empty cells into empty strings
 and cannot read an empty matrix

The reader already accepts null for an empty cell; a Report_ with an unlabelled axis
writes a matrix without columns, which was refused. Integer literals are accepted as cells.
---
 dal/storage/json.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dal/storage/json.cpp b/dal/storage/json.cpp
index 334f01b..58b8641 100644
--- a/dal/storage/json.cpp
+++ b/dal/storage/json.cpp
@@ -132,8 +132,10 @@ namespace Dal {
                     return operator=(Cell::ToDouble(c));
                 else if (Cell::IsInt(c))
                     return operator=(Cell::ToInt(c));
-                else if (Cell::IsEmpty(c))
-                    return operator=(String_());
+                else if (Cell::IsEmpty(c)) {
+                    dst_ << "null";
+                    return *this;
+                }
                 else
                     THROW("Internal error -- unhandled cell type");
             }
@@ -187,6 +189,8 @@ namespace Dal {
         }
         // create matrix from vector of values
         template <class E_> Matrix_<E_> AsMatrix(int cols, const Vector_<E_>& vals) {
+            if (cols == 0 && vals.empty())
+                return Matrix_<E_>();
             REQUIRE(cols > 0 && !(vals.size() % cols), "Invalid number of matrix columns");
             const int rows = vals.size() / cols;
             Matrix_<E_> ret_val(rows, cols);
@@ -233,7 +237,7 @@ namespace Dal {
         Cell_ ECell(const element_t& doc) {
             static const std::regex DATE_PATTERN("\\d{4}-\\d{2}-\\d{2}");
             static const std::regex DATE_TIME_PATTERN("\\d{4}-\\d{2}-\\d{2} \\d{2}:\\d{2}:\\d{2}");
-            if (doc.IsDouble())
+            if (doc.IsDouble() || doc.IsInt())
                 return Cell_(doc.GetDouble());
             if (doc.IsBool())
                 return Cell_(doc.GetBool());
-- 
2.43.0


From aa66478026850ba3a2979b83430cf029e0cd68f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:08 +0000
Subject: [PATCH 14/90] fix: un-splatting a one-column matrix reads past the
 end of the table

---
 dal/storage/splat.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dal/storage/splat.cpp b/dal/storage/splat.cpp
index 4d71970..868d593 100644
--- a/dal/storage/splat.cpp
+++ b/dal/storage/splat.cpp
@@ -311,15 +311,15 @@ namespace Dal {
             Vector_<Cell_> AsCellVector() const override { return TranslateRange(VectorRange(), Identity_<Cell_>()); }
 
             int MatrixStop() const {
-                for (int ret_val = colStart_ + 1;;) {
+                for (int ret_val = colStart_ + 1;; ++ret_val) {
+                    if (ret_val == data_.Cols())
+                        return ret_val;
                     for (int ir = rowStart_;; ++ir) {
                         if (ir == rowStop_)
                             return ret_val; // found an empty column
                         else if (!Cell::IsEmpty(data_(ir, ret_val)))
                             break; // column is not empty
                     }
-                    if (++ret_val == data_.Cols())
-                        return ret_val;
                 }
             }
             template <class F_> auto TranslateMatrix(int col_stop, F_ translate) const {
-- 
2.43.0


From 7b21830587157d0c5b2e3e150d7af712c56c0966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:08 +0000
Subject: [PATCH 15/90] fix: splatted table doubles its width with every member

The width of an object is that of its widest member; a Bag_ with 25 members asked for
hundreds of millions of columns.
---
 dal/storage/splat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/storage/splat.cpp b/dal/storage/splat.cpp
index 868d593..8877208 100644
--- a/dal/storage/splat.cpp
+++ b/dal/storage/splat.cpp
@@ -53,7 +53,7 @@ namespace Dal {
                     return val_.Cols();
                 int ret_val = 0;
                 for (const auto& c : children_)
-                    ret_val += max(ret_val, c.second->Cols());
+                    ret_val = max(ret_val, c.second->Cols());
                 return 2 + ret_val;
             }
 
-- 
2.43.0


From 568cc734f9e6ea860b8302e884ecc37b702c7cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:25 +0000
Subject: [PATCH 16/90] fix: JSON reader rounds numbers differently from how
 they were written

rapidjson's default number parser may be off by a few units in the last place.
---
 dal/storage/json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/storage/json.cpp b/dal/storage/json.cpp
index 58b8641..66baccf 100644
--- a/dal/storage/json.cpp
+++ b/dal/storage/json.cpp
@@ -334,7 +334,7 @@ namespace Dal {
     Handle_<Storable_> JSON::ReadString(const String_& src, bool quiet) {
         NOTE("Extracting object from JSON string");
         rapidjson::Document doc;
-        doc.Parse<rapidjson::kParseDefaultFlags>(src.c_str());
+        doc.Parse<rapidjson::kParseFullPrecisionFlag>(src.c_str());
         REQUIRE(!doc.HasParseError(), "Invalid JSON");
         XDocView_ task(doc);
         Archive::Built_ built;
@@ -347,7 +347,7 @@ namespace Dal {
         char buffer[8192];
         rapidjson::FileReadStream is(fp, buffer, sizeof(buffer));
         rapidjson::Document doc;
-        doc.ParseStream<rapidjson::kParseDefaultFlags>(is);
+        doc.ParseStream<rapidjson::kParseFullPrecisionFlag>(is);
         fclose(fp);
         REQUIRE(!doc.HasParseError(), "Invalid JSON in file:'" + filename + "'");
         XDocView_ task(doc);
-- 
2.43.0


From 12334c186b0d03d140c8c9c7afe8fa8c6ff8e1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:34 +0000
Subject: [PATCH 17/90] fix: curves and reports with mismatched member sizes
 read out of bounds

Building them from a stored object whose arrays differ in length read past the shorter one;
the report's declared conditions were not checked.
---
 dal/curve/piecewiseconstant.hpp | 2 ++
 dal/curve/piecewiselinear.hpp   | 7 ++++++-
 dal/risk/report.cpp             | 3 +++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/dal/curve/piecewiseconstant.hpp b/dal/curve/piecewiseconstant.hpp
index 132121b..74e5626 100644
--- a/dal/curve/piecewiseconstant.hpp
+++ b/dal/curve/piecewiseconstant.hpp
@@ -7,6 +7,7 @@
 #include <dal/math/vectors.hpp>
 #include <dal/time/date.hpp>
 #include <dal/storage/storable.hpp>
+#include <dal/utilities/exceptions.hpp>
 
 namespace Dal {
 
@@ -22,6 +23,7 @@ namespace Dal {
 
         PiecewiseConstant_(const Vector_ <Date_> &knots, const Vector_<> &f_right, const String_ &name = String_())
                 : Storable_("PiecewiseConstant", name), knotDates_(knots), fRight_(f_right) {
+            REQUIRE(fRight_.size() == knotDates_.size(), "Each knot must have a value");
             Update();
         }
 
diff --git a/dal/curve/piecewiselinear.hpp b/dal/curve/piecewiselinear.hpp
index bed591f..e806dfe 100644
--- a/dal/curve/piecewiselinear.hpp
+++ b/dal/curve/piecewiselinear.hpp
@@ -5,6 +5,7 @@
 #pragma once
 
 #include <dal/math/vectors.hpp>
+#include <dal/utilities/exceptions.hpp>
 
 namespace Dal {
     class Date_;
@@ -22,7 +23,11 @@ namespace Dal {
         void Update() { sofar_ = Sofar(); }
 
         PiecewiseLinear_(const Vector_<Date_>& knots, const Vector_<>& f_left, const Vector_<>& f_right) : knotDates_(
-                knots), fLeft_(f_left), fRight_(f_right) { Update(); }
+                knots), fLeft_(f_left), fRight_(f_right) {
+            REQUIRE(fLeft_.size() == knotDates_.size() && fRight_.size() == knotDates_.size(),
+                    "Each knot must have a left and a right value");
+            Update();
+        }
 
         [[nodiscard]] double IntegralTo(const Date_ &date) const;
         [[nodiscard]] double ValueAt(const Date_ &date, bool from_right = true) const;
diff --git a/dal/risk/report.cpp b/dal/risk/report.cpp
index a169500..13c5f5f 100644
--- a/dal/risk/report.cpp
+++ b/dal/risk/report.cpp
@@ -30,6 +30,8 @@ namespace Dal {
 
         Storable_* Report_v1::Reader_::Build() const {
             const auto n = sizes_.size();
+            REQUIRE(axis_names_.size() == n, "Each axis must have a size");
+            REQUIRE(header_labels_.size() == n && header_values_.size() == n, "Each axis must have a header");
             Vector_<Report::Axis_> axes(n);
             for (auto ii = 0; ii < n; ++ii) {
                 axes[ii].size_ = sizes_[ii];
@@ -42,6 +44,7 @@ namespace Dal {
             for (auto jj = 0; jj < n; ++jj) {
                 const auto& vals = header_values_[jj];
                 Vector_<Cell_> temp(header_labels_[jj].size());
+                REQUIRE(vals.Rows() == 0 || vals.Cols() == temp.size(), "Each header label must have a value");
                 for (int kr = 0; kr < vals.Rows(); ++kr) {
                     Copy(vals.Row(kr), &temp);
                     retval->AddHeaderRow(axis_names_[jj], kr, temp);
-- 
2.43.0


From ea469b74790818ab5042144176eaa7d62debc350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:30 +0000
Subject: [PATCH 18/90] fix: global fixings crash because no store is ever
 installed for them

Dates already live in the repository store; fixings now do too. Storing an empty history
(to clear one) made the next query fail with an internal error.
---
 dal/storage/_repository.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dal/storage/_repository.cpp b/dal/storage/_repository.cpp
index 68f7598..5d74e6c 100644
--- a/dal/storage/_repository.cpp
+++ b/dal/storage/_repository.cpp
@@ -129,7 +129,7 @@ namespace Dal {
                 auto po = TheObjects().lower_bound(tagStart);
                 if (po != TheObjects().end() && po->first.substr(0, tagStart.size()) == tagStart) {
                     const Box_* box = dynamic_cast<const Box_*>(po->second.get());
-                    REQUIRE(box && !box->contents_.Empty(), "Internal error, or global tag meddling");
+                    REQUIRE(box, "Internal error, or global tag meddling");
                     return box->contents_;
                 }
                 return EMPTY;
@@ -137,6 +137,7 @@ namespace Dal {
         };
 
         RUN_AT_LOAD(Global::SetTheDateStore(new RepoStore_))
+        RUN_AT_LOAD(Global::SetTheFixingsStore(new RepoStore_))
     } // namespace
 
     Handle_<Storable_> ObjectAccess_::Fetch(const String_& tag, bool quiet) const {
-- 
2.43.0


From e07d2ba8e61518047ae2d3b11b8e1f6fa48ac8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:15 +0000
Subject: [PATCH 19/90] fix: band-matrix Cholesky stores its factor on the
 wrong side and reads out of bounds

---
 dal/math/matrix/banded.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dal/math/matrix/banded.cpp b/dal/math/matrix/banded.cpp
index 61f0307..b4b509d 100644
--- a/dal/math/matrix/banded.cpp
+++ b/dal/math/matrix/banded.cpp
@@ -185,7 +185,7 @@ namespace Dal {
             x->Resize(n);
             for (int ii = n - 1; ii >= 0; --ii) {
                 double residual = b[ii];
-                for (int jj = max(n - 1, ii + val.nBelow_); jj > ii; --jj)
+                for (int jj = min(n - 1, ii + val.nBelow_); jj > ii; --jj)
                     residual -= (*x)[jj] * val(jj, ii);
                 REQUIRE(!IsZero(val(ii, ii)), "Overflow in banded L-solve");
                 (*x)[ii] = residual / val(ii, ii);
@@ -197,7 +197,7 @@ namespace Dal {
             BandElements_ val_;
 
         public:
-            explicit BandedCholesky_(const BandElements_& llt) : val_(llt.view_.Rows(), llt.nBelow_, 0) {
+            explicit BandedCholesky_(const BandElements_& llt) : val_(llt.view_.Rows(), 0, llt.nBelow_) {
                 static const double SMALL = 1.0e-11;
                 REQUIRE(llt.view_.Cols() == 2 * llt.nBelow_ + 1, "Cols should be 2 * n_below + 1");
                 const int n = llt.view_.Rows();
@@ -216,7 +216,7 @@ namespace Dal {
                             }
                         } else {
                             REQUIRE(residual > -SMALL, "Non-positive-definite matrix");
-                            val_.At(ii, ii) = std::sqrt(residual);
+                            val_.At(ii, ii) = std::sqrt(max(0.0, residual));
                         }
                     }
                 }
@@ -283,7 +283,7 @@ namespace Dal {
                 const int n = Size();
                 const int width = max(val_.nBelow_, val_.view_.Cols() - val_.nBelow_ - 1);
                 for (int ii = 0; ii < n; ++ii) {
-                    for (int jj = max(0, ii - width); jj <= max(n - 1, ii + width); ++jj)
+                    for (int jj = max(0, ii - width); jj <= min(n - 1, ii + width); ++jj)
                         if (!IsZero(val_(ii, jj) - val_(jj, ii)))
                             return false;
                 }
-- 
2.43.0


From dbd8d82e15537a2fbf06eafab80375b1018d0453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:15 +0000
Subject: [PATCH 20/90] fix: lower-triangular product omits the diagonal,
 diagonal product and solve do not size their result

---
 dal/math/matrix/decompositionsmisc.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dal/math/matrix/decompositionsmisc.cpp b/dal/math/matrix/decompositionsmisc.cpp
index ff0880e..6906b0c 100644
--- a/dal/math/matrix/decompositionsmisc.cpp
+++ b/dal/math/matrix/decompositionsmisc.cpp
@@ -35,11 +35,13 @@ namespace Dal {
             [[nodiscard]] int Size() const override { return vals_.size(); }
 
             void XMultiply_af(const Vector_<> &x, Vector_<> *b) const override {
+                b->Resize(Size());
                 Transform(x, vals_, std::multiplies<>(), b);
             }
 
             void XSolve_af(const Vector_<> &b, Vector_<> *x) const override {
                 NOTE("Dividing by diagonal matrix");
+                x->Resize(Size());
                 Transform(b, vals_, ProtectedDivide_(), x);
             }
 
@@ -66,7 +68,7 @@ namespace Dal {
                 const int n = Size();
                 b->Resize(n);
                 for (int ii = 0; ii < n; ++ii)
-                    (*b)[ii] = std::inner_product(x.begin(), x.begin() + ii, vals_.Row(ii).begin(), 0.0);
+                    (*b)[ii] = std::inner_product(x.begin(), x.begin() + ii + 1, vals_.Row(ii).begin(), 0.0);
             }
 
             void XMultiplyRight_af(const Vector_<> &x, Vector_<> *b) const override {
-- 
2.43.0


From 12885a1682235ab043c2ed0712444c57c4a21b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:15 +0000
Subject: [PATCH 21/90] fix: Cholesky solve writes past an unsized result and
 MakeCorrelated returns an iterator into its output

---
 dal/math/matrix/cholesky.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dal/math/matrix/cholesky.cpp b/dal/math/matrix/cholesky.cpp
index 75ab505..d78c81c 100644
--- a/dal/math/matrix/cholesky.cpp
+++ b/dal/math/matrix/cholesky.cpp
@@ -83,6 +83,7 @@ namespace Dal {
 
             void XSolve_af(const Vector_<>& b, Vector_<>* x) const override {
                 const int n = Size();
+                x->Resize(n);
                 for (int ii = 0; ii < n; ++ii) {
                     (*x)[ii] = b[ii] - std::inner_product(x->begin(), x->begin() + ii, lower_->Row(ii).begin(), 0.0);
                     (*x)[ii] *= (*lower_)(ii, ii);
@@ -102,7 +103,7 @@ namespace Dal {
                     (*correlated)[ii] = std::inner_product(iid_begin, iid_begin + ii, lower_->Row(ii).begin(), 0.0);
                     (*correlated)[ii] += *(iid_begin + ii) / (*lower_)(ii, ii);
                 }
-                return correlated->begin();
+                return iid_begin + n;
             }
         };
     }
-- 
2.43.0


From b3e18dadc33cce9b25ac40cd9dc37f2e9ddc180a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:15 +0000
Subject: [PATCH 22/90] fix: sparse matrices are deleted through a base class
 without a virtual destructor

---
 dal/math/matrix/sparse.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dal/math/matrix/sparse.hpp b/dal/math/matrix/sparse.hpp
index fb3d90a..d46f18d 100644
--- a/dal/math/matrix/sparse.hpp
+++ b/dal/math/matrix/sparse.hpp
@@ -16,6 +16,7 @@ namespace Dal::Sparse {
 
     class Square_ : noncopyable {
     public:
+        virtual ~Square_() = default;
         [[nodiscard]] virtual int Size() const = 0;
         virtual void MultiplyLeft(const Vector_<>& x, Vector_<>* b) const = 0;
         virtual void MultiplyRight(const Vector_<>& x, Vector_<>* b) const = 0;
-- 
2.43.0


From bd63ba1d270faa59fe1a80bdc206edef9c8e911c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:15 +0000
Subject: [PATCH 23/90] fix: conjugate-gradient solvers divide by zero when
 started at the solution

---
 dal/math/matrix/bcg.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dal/math/matrix/bcg.cpp b/dal/math/matrix/bcg.cpp
index 4fedb85..cd020da 100644
--- a/dal/math/matrix/bcg.cpp
+++ b/dal/math/matrix/bcg.cpp
@@ -60,6 +60,8 @@ namespace Dal {
         Vector_<> p(n);
         A.MultiplyLeft(*x, &r);
         Transform(b, r, std::minus<>(), &r); // r = b - Ax
+        if (sqrt(InnerProduct(r, r)) <= tNorm)
+            return; // already solved; iterating would divide by zero
         double betaPrev;
         for (int ii = 0; ii < max_iterations; ++ii) {
             precondition.Left(r, &z);
@@ -97,6 +99,8 @@ namespace Dal {
 
         A.MultiplyLeft(*x, &r);
         Transform(b, r, std::minus<>(), &r); // r = b - Ax
+        if (sqrt(InnerProduct(r, r)) <= tNorm)
+            return; // already solved; iterating would divide by zero
         rr = r;
 
         double betaPrev;
-- 
2.43.0


From 355261521484bcb7cc8e5cb100e2695c9d17291b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:15 +0000
Subject: [PATCH 24/90] fix: Stack_::TopAndPop returns the element above the
 top, Push writes to a cleared stack's null buffer

---
 dal/math/stacks.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dal/math/stacks.hpp b/dal/math/stacks.hpp
index 1dbc3d6..4669b9b 100644
--- a/dal/math/stacks.hpp
+++ b/dal/math/stacks.hpp
@@ -93,16 +93,17 @@ namespace Dal {
         FORCE_INLINE const_iterator end() const { return std::reverse_iterator<const E_*>(data_); }
 
         template <typename T_> void Push(T_&& value) {
-            data_[sp_] = std::forward<T_>(value);
-            ++sp_;
             if (sp_ >= size_) {
-                E_* newData = new E_[size_ << 1];
+                const int newSize = size_ > 0 ? size_ << 1 : 1;
+                E_* newData = new E_[newSize];
                 std::move(data_, data_ + size_, newData);
 
                 delete[] data_;
                 data_ = newData;
-                size_ <<= 1;
+                size_ = newSize;
             }
+            data_[sp_] = std::forward<T_>(value);
+            ++sp_;
         }
 
         FORCE_INLINE E_& Top() { return data_[sp_ - 1]; }
@@ -110,7 +111,7 @@ namespace Dal {
         FORCE_INLINE E_& operator[](const size_t i) { return data_[sp_ - 1 - i]; }
         FORCE_INLINE const E_& operator[](const size_t i) const { return data_[sp_ - 1 - i]; }
 
-        FORCE_INLINE E_ TopAndPop() { return std::move(data_[sp_--]); }
+        FORCE_INLINE E_ TopAndPop() { return std::move(data_[--sp_]); }
 
         FORCE_INLINE void Pop() { --sp_; }
         FORCE_INLINE void Pop(const size_t n) { sp_ -= n; }
-- 
2.43.0


From 8d57a105fefbded0bd8f3c03ec7243d9712b042b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:15 +0000
Subject: [PATCH 25/90] fix: resizing an n-dimensional array keeps the old
 allocation and loses the first element

---
 dal/math/ndarray.cpp | 4 +++-
 dal/math/ndarray.hpp | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/dal/math/ndarray.cpp b/dal/math/ndarray.cpp
index 3f96a34..4517be9 100644
--- a/dal/math/ndarray.cpp
+++ b/dal/math/ndarray.cpp
@@ -23,7 +23,10 @@ namespace Dal::ArrayN {
         Vector_<int> mins = Apply(func, old_sizes, new_sizes);
         Vector_<int> loc(nd, 0);
         Vector_<pair<int, int>> ret_val;
+        if (*MinElement(mins) <= 0)
+            return ret_val; // no common elements
         for (;;) {
+            ret_val.emplace_back(InnerProduct(loc, oldStrides), InnerProduct(loc, newStrides));
             int depth;
             for (depth = 0; depth < nd; ++depth) {
                 if (++loc[depth] < mins[depth])
@@ -32,7 +35,6 @@ namespace Dal::ArrayN {
             }
             if (depth == nd)
                 return ret_val;
-            ret_val.emplace_back(InnerProduct(loc, oldStrides), InnerProduct(loc, newStrides));
         }
         return ret_val;
     }
diff --git a/dal/math/ndarray.hpp b/dal/math/ndarray.hpp
index a6049c7..e68f3f4 100644
--- a/dal/math/ndarray.hpp
+++ b/dal/math/ndarray.hpp
@@ -52,9 +52,9 @@ namespace Dal {
         // Resize() requires computation of element mapping; take it out-of-line
         void Resize(const Vector_<int>& new_sizes) {
             const Vector_<pair<int, int>>& moves = ArrayN::Moves(sizes_, new_sizes);
-            Vector_<E_> new_values(sizes_[0] * strides_[0], E_());
             sizes_ = new_sizes;
             strides_ = ArrayN::Strides(sizes_);
+            Vector_<E_> new_values(sizes_[0] * strides_[0], E_());
             for (const auto& move : moves)
                 new_values[move.second] = vals_[move.first];
             vals_.Swap(&new_values);
-- 
2.43.0


From d30a084a9a645c2fdecde11af7d3578115296afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:15 +0000
Subject: [PATCH 26/90] fix: empty table-format elements read before the start
 of the string

---
 dal/math/matrix/matrixutils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dal/math/matrix/matrixutils.cpp b/dal/math/matrix/matrixutils.cpp
index c7029c4..f8c5d79 100644
--- a/dal/math/matrix/matrixutils.cpp
+++ b/dal/math/matrix/matrixutils.cpp
@@ -201,6 +201,8 @@ namespace Dal {
 
         String_ Strip(const String_& src) // remove parentheses around the whole thing
         {
+            if (src.empty())
+                return src;
             auto ps = src.begin();
             for (int depth = 0; ps != src.end(); ++ps) {
                 if (*ps == '(')
@@ -228,6 +230,7 @@ namespace Dal {
         }
 
         Writer_* XNewWriter(const String_& format) {
+            REQUIRE(!format.empty(), "Empty format element");
             // POSTPONED -- should ':' and ';' have the same precedence?
             if (auto vr = MultipleWriter(format, ':', []() { return new VerticalWriter_(true); }))
                 return vr;
-- 
2.43.0


From f9ed58e9e4e974dd915fdc5adfe2328364dec540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:23 +0000
Subject: [PATCH 27/90] fix: Bachelier price falls back to intrinsic value when
 forward or strike is not positive

---
 dal/math/distribution/black.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/math/distribution/black.hpp b/dal/math/distribution/black.hpp
index af8dd3c..767641f 100644
--- a/dal/math/distribution/black.hpp
+++ b/dal/math/distribution/black.hpp
@@ -33,7 +33,7 @@ namespace Dal {
 
         template <class T_>
         T_ BachelierOpt(const T_& fwd, const T_& vol, const T_& strike, const OptionType_& type)  {
-            if (IsZero(vol) || !IsPositive(fwd * strike))
+            if (IsZero(vol))
                 return type.Payout(fwd, strike);
             T_ diff = fwd - strike;
             T_ d = diff / vol;
-- 
2.43.0


From f72016ed0ba1627e2be333c9322a9c156bc9f53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:23 +0000
Subject: [PATCH 28/90] fix: BachelierIV starts its log-vol search from a raw
 vol or from a multiple of the forward

---
 dal/math/distribution/black.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dal/math/distribution/black.cpp b/dal/math/distribution/black.cpp
index 1dde9fb..83a3968 100644
--- a/dal/math/distribution/black.cpp
+++ b/dal/math/distribution/black.cpp
@@ -56,7 +56,9 @@ namespace Dal {
             static const int MAX_ITERATIONS = 30;
             static const double TOL = 1.0e-10;
             REQUIRE(price >= type.Payout(fwd, strike), "value below intrinsic value in BlackIV");
-            Brent_ task(guess > 0.0 ? guess : -1.5 * fwd);
+            // the search is in log-vol: start from the guess, or from the scale set by the price and the moneyness
+            const double scale = max(price, fabs(fwd - strike));
+            Brent_ task(log(guess > 0.0 ? guess : (scale > 0.0 ? scale : 1.0)));
             Converged_ done(TOL * max(1.0, fwd), TOL * max(1.0, price));
             for (int i = 0; i < MAX_ITERATIONS; ++i) {
                 const double vol = exp(task.NextX());
-- 
2.43.0


From 86710f2e08ac5660548104b259974c473caefb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:23 +0000
Subject: [PATCH 29/90] fix: BlackIV stalls in the flat region below the vega
 peak for valid in-the-money prices

---
 dal/math/distribution/black.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dal/math/distribution/black.cpp b/dal/math/distribution/black.cpp
index 83a3968..0451805 100644
--- a/dal/math/distribution/black.cpp
+++ b/dal/math/distribution/black.cpp
@@ -15,7 +15,9 @@ namespace Dal {
             static const int MAX_ITERATIONS = 30;
             static const double TOL = 1.0e-10;
             REQUIRE(price >= type.Payout(fwd, strike), "value below intrinsic value in BlackIV");
-            Brent_ task(guess > 0.0 ? log(guess) : -1.5);
+            // without a guess, start where vega is largest, so that the search cannot stall in the flat region below it
+            const double logMoneyness = fwd * strike > 0.0 ? fabs(log(fwd / strike)) : 0.0;
+            Brent_ task(guess > 0.0 ? log(guess) : max(-1.5, 0.5 * log(2.0 * logMoneyness)));
             Converged_ done(TOL * max(1.0, fwd), TOL * max(1.0, price));
             for (int i = 0; i < MAX_ITERATIONS; ++i) {
                 const double vol = exp(task.NextX());
-- 
2.43.0


From ec2e8bc6f24cfafbdac208045997b467ad58a6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:31 +0000
Subject: [PATCH 30/90] fix: SmoothedVals couples each point with the wrong
 neighbour and drops one coupling

---
 dal/math/smooth.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/math/smooth.cpp b/dal/math/smooth.cpp
index e651fe9..2ba5daf 100644
--- a/dal/math/smooth.cpp
+++ b/dal/math/smooth.cpp
@@ -16,7 +16,7 @@ namespace Dal {
         REQUIRE(y.size() == n && n > 1, "y values size should be same with x and size should bigger than 1");
         Vector_<> coupling(n);
         for (int i = 1; i < n; ++i)
-            coupling[i] = lambda / std::max(x[i] - x[i-1], DX_MIN);
+            coupling[i - 1] = lambda / std::max(x[i] - x[i - 1], DX_MIN);
         coupling.back() = 0.0;
 
         Vector_<> beta(n), gamma(n);
-- 
2.43.0


From c069ab5c14439c39774f9b72baef3ede3f55773c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:02 +0000
Subject: [PATCH 31/90] fix: UnderdeterminedControls_ members are never
 defined, so the underdetermined search cannot be called

---
 dal/math/optimization/underdetermined.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/math/optimization/underdetermined.cpp b/dal/math/optimization/underdetermined.cpp
index 9df22aa..0e5c7c9 100644
--- a/dal/math/optimization/underdetermined.cpp
+++ b/dal/math/optimization/underdetermined.cpp
@@ -15,7 +15,7 @@
 #include <dal/utilities/numerics.hpp>
 
 namespace Dal {
-#include <dal/auto/MG_UnderdeterminedControls_object.hpp>
+#include <dal/auto/MG_UnderdeterminedControls_object.inc>
 
     namespace Underdetermined {
         void Function_::Gradient(const Vector_<>& x, const Vector_<>& f, Matrix_<>* j) const {
-- 
2.43.0


From b7103f91746b06243de83ce4be6b38d76a9871ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:31 +0000
Subject: [PATCH 32/90] fix: underdetermined line search minimises the wrong
 quadratic and rejects good steps

---
 dal/math/optimization/underdetermined.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/math/optimization/underdetermined.cpp b/dal/math/optimization/underdetermined.cpp
index 0e5c7c9..449a93a 100644
--- a/dal/math/optimization/underdetermined.cpp
+++ b/dal/math/optimization/underdetermined.cpp
@@ -232,8 +232,8 @@ namespace Dal {
                 const double oldNew = InnerProduct(fOld, fNew);
                 const double newNew = InnerProduct(fNew, fNew);
                 // \tilde f^2 = oldOld * k^2 + 2 * oldNew * k * (1-k) + newNew * (1-k)^2
-                // its k-derivative is oldOld * 2 * k + oldNew * (1 - 2*k) + 2 * newNew * (k-1)
-                double kMin = (newNew - 0.5 * oldNew) / (newNew - oldNew + oldOld);
+                // its k-derivative is 2 * (oldOld * k + oldNew * (1 - 2*k) + newNew * (k-1))
+                double kMin = (newNew - oldNew) / (newNew - 2.0 * oldNew + oldOld);
                 if (kMin < controls.backtrackTolerance_) {
                     if (!restart) {
                         j->SecantUpdate(s, Apply(std::minus<>(), fNew, fOld));
-- 
2.43.0


From b5fc8fb8a8420271c99714936cb16a2c63915aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:43 +0000
Subject: [PATCH 33/90] fix: SkipTo leaves normal draws at half the requested
 path, so parallel batches of paths overlap

---
 dal/math/random/pseudorandom.cpp | 32 +++++++++++++++++++++++---------
 dal/math/random/pseudorandom.hpp |  5 +++++
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/dal/math/random/pseudorandom.cpp b/dal/math/random/pseudorandom.cpp
index ee95b03..e9e71cf 100644
--- a/dal/math/random/pseudorandom.cpp
+++ b/dal/math/random/pseudorandom.cpp
@@ -11,8 +11,20 @@
 #include <dal/utilities/exceptions.hpp>
 
 namespace Dal {
+    void PseudoRandom_::SkipTo(size_t n_paths) {
+        // antithetic: each pair of uniform paths uses one set of draws
+        JumpTo(n_paths / 2 * NDim());
+        anti_ = false;
+        if (n_paths % 2 == 1) {
+            Vector_<> skipped(NDim());
+            FillUniform(&skipped);
+        }
+        pathsSkipped_ = n_paths;
+    }
+
     // derived classes can call this explicitly
     void PseudoRandom_::FillUniform(Vector_<>* devs) {
+        pathsSkipped_ = 0;
         if (anti_) {
             for (size_t i = 0; i < devs->size(); ++i)
                 (*devs)[i] = (1.0 - cache_[i]);
@@ -36,7 +48,15 @@ namespace Dal {
         } // namespace RWT
     }     // namespace
 
-    void PseudoRandom_::FillNormal(Vector_<>* deviates) { RWT::Fill(this, deviates->begin(), deviates->end()); }
+    void PseudoRandom_::FillNormal(Vector_<>* deviates) {
+        if (pathsSkipped_ > 0) {
+            // normal paths are not antithetic: each of those skipped uses its own draws
+            JumpTo(pathsSkipped_ * NDim());
+            anti_ = false;
+            pathsSkipped_ = 0;
+        }
+        RWT::Fill(this, deviates->begin(), deviates->end());
+    }
 
     namespace {
         // Generators similar to Knuth's IRN55, with shuffling
@@ -83,7 +103,7 @@ namespace Dal {
 
             [[nodiscard]] PseudoRandom_* Clone() const override { return new ShuffledIRN_(seed_, cache_.size()); }
 
-            void SkipTo(size_t n_paths) override {}
+            void JumpTo(size_t n_points) override {}
         };
 
         constexpr const double m1_ = 4294967087;
@@ -140,15 +160,9 @@ namespace Dal {
                 return new MRG32k32a_(static_cast<unsigned>(a_), static_cast<unsigned>(b_), cache_.size());
             }
 
-            void SkipTo(size_t n_paths) override {
-                size_t n_points = n_paths * NDim();
+            void JumpTo(size_t n_points) override {
                 Reset();
 
-                if (n_points & 1)
-                    n_points = (n_points - 1) / 2;
-                else
-                    n_points /= 2;
-
                 static constexpr size_t m1l = static_cast<size_t>(m1_);
                 static constexpr size_t m2l = static_cast<size_t>(m2_);
 
diff --git a/dal/math/random/pseudorandom.hpp b/dal/math/random/pseudorandom.hpp
index 7909959..f958bf3 100644
--- a/dal/math/random/pseudorandom.hpp
+++ b/dal/math/random/pseudorandom.hpp
@@ -31,6 +31,10 @@ precise is boolean
 namespace Dal {
     class PseudoRandom_ : public Random_ {
         bool anti_ = false;
+        size_t pathsSkipped_ = 0; // by SkipTo, until the next draw
+
+        // restart, and skip this many calls of NextUniform
+        virtual void JumpTo(size_t n_points) = 0;
 
     protected:
         Vector_<> cache_;
@@ -41,6 +45,7 @@ namespace Dal {
         virtual double NextUniform() = 0;
         void FillUniform(Vector_<>* deviates) override;
         void FillNormal(Vector_<>* deviates) override;
+        void SkipTo(size_t n_paths) override;
         [[nodiscard]] PseudoRandom_* Clone() const override = 0;
         [[nodiscard]] size_t NDim() const override { return cache_.size(); }
         [[nodiscard]] virtual PseudoRandom_* Branch(int i_child) const = 0;
-- 
2.43.0


From 25cd40b4f3f1700abeafa6792fb8b1314b424cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:54 +0000
Subject: [PATCH 34/90] fix: SkipTo does nothing for the IRN generator, so
 every parallel batch repeats the same paths

---
 dal/math/random/pseudorandom.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dal/math/random/pseudorandom.cpp b/dal/math/random/pseudorandom.cpp
index e9e71cf..051ad9f 100644
--- a/dal/math/random/pseudorandom.cpp
+++ b/dal/math/random/pseudorandom.cpp
@@ -86,10 +86,15 @@ namespace Dal {
 
             explicit ShuffledIRN_(int seed, size_t n_dim = 1, bool precise = false)
                 : PseudoRandom_(n_dim, precise), seed_(seed), irn_(M_), shuffle_(S_), irl_(0) {
+                Reset();
+            }
+
+            void Reset() {
+                irl_ = 0;
                 const unsigned MASK = 0x1F2E3D4C;
                 const unsigned MUL = 17;
                 // initialize IRN_
-                irn_[0] = seed;
+                irn_[0] = seed_;
                 for (int ii = 1; ii < M_; ++ii)
                     irn_[ii] = ((MUL * irn_[ii - 1]) % DE_NOM) ^ MASK;
                 // initialize shuffle_
@@ -103,7 +108,11 @@ namespace Dal {
 
             [[nodiscard]] PseudoRandom_* Clone() const override { return new ShuffledIRN_(seed_, cache_.size()); }
 
-            void JumpTo(size_t n_points) override {}
+            void JumpTo(size_t n_points) override {
+                Reset();
+                for (; n_points > 0; --n_points)
+                    NextUniform();
+            }
         };
 
         constexpr const double m1_ = 4294967087;
-- 
2.43.0


From 795223902f5ac260c2e832ff8afd8a3227f04029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:05 +0000
Subject: [PATCH 35/90] fix: cloned random generators forget the precise
 setting

---
 dal/math/random/pseudorandom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/math/random/pseudorandom.cpp b/dal/math/random/pseudorandom.cpp
index 051ad9f..facfeef 100644
--- a/dal/math/random/pseudorandom.cpp
+++ b/dal/math/random/pseudorandom.cpp
@@ -106,7 +106,7 @@ namespace Dal {
                 return new ShuffledIRN_<M_, L_, S_>(irn_[0] ^ irn_[1]);
             }
 
-            [[nodiscard]] PseudoRandom_* Clone() const override { return new ShuffledIRN_(seed_, cache_.size()); }
+            [[nodiscard]] PseudoRandom_* Clone() const override { return new ShuffledIRN_(seed_, cache_.size(), precise_); }
 
             void JumpTo(size_t n_points) override {
                 Reset();
@@ -166,7 +166,7 @@ namespace Dal {
             [[nodiscard]] PseudoRandom_* Branch(int i_child) const override { return new MRG32k32a_(); }
 
             [[nodiscard]] PseudoRandom_* Clone() const override {
-                return new MRG32k32a_(static_cast<unsigned>(a_), static_cast<unsigned>(b_), cache_.size());
+                return new MRG32k32a_(static_cast<unsigned>(a_), static_cast<unsigned>(b_), cache_.size(), precise_);
             }
 
             void JumpTo(size_t n_points) override {
-- 
2.43.0


From e5a20f67fc3cc82beed2910eee8e4234e9532aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:29 +0000
Subject: [PATCH 36/90] fix: derivative of pow is NaN at a zero base, so power
 payoffs have NaN risks when they expire worthless

---
 dal/math/aad/expr.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dal/math/aad/expr.hpp b/dal/math/aad/expr.hpp
index 1e43b56..3ee7c5d 100644
--- a/dal/math/aad/expr.hpp
+++ b/dal/math/aad/expr.hpp
@@ -75,9 +75,9 @@ namespace Dal::AAD {
     struct OPPow_ {
         FORCE_INLINE static double Eval(double l, double r) { return std::pow(l, r); }
 
-        FORCE_INLINE static double LeftDerivative(double l, double r, double v) { return r * v / l; }
+        FORCE_INLINE static double LeftDerivative(double l, double r, double v) { return l != 0.0 ? r * v / l : r * std::pow(l, r - 1.0); }
 
-        FORCE_INLINE static double RightDerivative(double l, double r, double v) { return std::log(l) * v; }
+        FORCE_INLINE static double RightDerivative(double l, double r, double v) { return v != 0.0 ? std::log(l) * v : 0.0; }
     };
 
     struct OPMax_ {
@@ -250,7 +250,7 @@ namespace Dal::AAD {
     struct OPPowDR_ {
         FORCE_INLINE static double Eval(double r, double d) { return std::pow(r, d); }
 
-        FORCE_INLINE static double Derivative(double r, double v, double d) { return d * v / r; }
+        FORCE_INLINE static double Derivative(double r, double v, double d) { return r != 0.0 ? d * v / r : d * std::pow(r, d - 1.0); }
     };
 
     struct OPMaxD_ {
-- 
2.43.0


From 5db2f3fefa4e80eba56e4ff4c5fc3eb81b27be9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:29 +0000
Subject: [PATCH 37/90] fix: adjoints below 2e-14 are dropped in propagation,
 so derivatives through small factors come out as zero

---
 dal/math/aad/node.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/math/aad/node.hpp b/dal/math/aad/node.hpp
index 5abde05..60a5414 100644
--- a/dal/math/aad/node.hpp
+++ b/dal/math/aad/node.hpp
@@ -38,7 +38,7 @@ namespace Dal::AAD {
         double& Adjoint(size_t n) { return pAdjoints_[n]; }
 
         void PropagateOne() {
-            if (!n_ || fabs(adjoint_) <= Dal::EPSILON)
+            if (!n_ || adjoint_ == 0.0)
                 return;
 
             for (size_t i = 0; i < n_; ++i)
@@ -46,7 +46,7 @@ namespace Dal::AAD {
         }
 
         void PropagateAll() {
-            if (!n_ || std::all_of(pAdjoints_, pAdjoints_ + numAdj_, [](double x) { return fabs(x) <= Dal::EPSILON; }))
+            if (!n_ || std::all_of(pAdjoints_, pAdjoints_ + numAdj_, [](double x) { return x == 0.0; }))
                 return;
 
             for (size_t i = 0; i < n_; ++i) {
-- 
2.43.0


From 55bfad90e0dba18ef9ca502a6c9051012b98905d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:43 +0000
Subject: [PATCH 38/90] fix: traversing a tape whose nodes exactly fill its
 blocks runs past the end

---
 dal/math/aad/blocklist.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/dal/math/aad/blocklist.hpp b/dal/math/aad/blocklist.hpp
index 81cfb88..af1cd83 100644
--- a/dal/math/aad/blocklist.hpp
+++ b/dal/math/aad/blocklist.hpp
@@ -53,6 +53,13 @@ namespace Dal::AAD {
             }
         }
 
+        // the next space is always inside a block, where an iterator that walks past a block's last element arrives
+        void Advance(size_t n) {
+            nextSpace_ += n;
+            if (nextSpace_ == lastSpace_)
+                NextBlock();
+        }
+
     public:
         struct BlockPosition_ {
             iterator currBlock_;
@@ -88,18 +95,14 @@ namespace Dal::AAD {
         }
 
         template <typename... Args_> T_* EmplaceBack(Args_&&... args) {
-            if (nextSpace_ == lastSpace_)
-                NextBlock();
             T_* emplaced = new (&*nextSpace_) T_(std::forward<Args_>(args)...);
-            ++nextSpace_;
+            Advance(1);
             return emplaced;
         }
 
         T_* EmplaceBack() {
-            if (nextSpace_ == lastSpace_)
-                NextBlock();
             auto old_next = nextSpace_;
-            ++nextSpace_;
+            Advance(1);
             return &*old_next;
         }
 
@@ -107,7 +110,7 @@ namespace Dal::AAD {
             if (std::distance(nextSpace_, lastSpace_) < static_cast<int>(N_))
                 NextBlock();
             auto old_next = nextSpace_;
-            nextSpace_ += N_;
+            Advance(N_);
             return &*old_next;
         }
 
@@ -115,7 +118,7 @@ namespace Dal::AAD {
             if (std::distance(nextSpace_, lastSpace_) < static_cast<int>(n))
                 NextBlock();
             auto old_next = nextSpace_;
-            nextSpace_ += n;
+            Advance(n);
             return &*old_next;
         }
 
-- 
2.43.0


From 56003878d6c2d956000fe613587b4ad035522ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:46 +0000
Subject: [PATCH 39/90] fix: smoothed evaluation ignored the negation of
 conditions (!=)

---
 dal/script/visitor/fuzzy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/script/visitor/fuzzy.hpp b/dal/script/visitor/fuzzy.hpp
index a5ed36d..eff808c 100644
--- a/dal/script/visitor/fuzzy.hpp
+++ b/dal/script/visitor/fuzzy.hpp
@@ -239,7 +239,7 @@ namespace Dal::Script {
         FORCE_INLINE void Visit(const NodeSupEqual_& node) { VisitComp(node); }
 
         // Negation
-        FORCE_INLINE void visitNot(const NodeNot_& node) {
+        FORCE_INLINE void Visit(const NodeNot_& node) {
             VisitNode(*node.arguments_[0]);
             fuzzyStack_.Top() = 1.0 - fuzzyStack_.Top();
         }
-- 
2.43.0


From 3791fc0ffd26ffc4945dc6c349487e39f0e6b7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:45 +0000
Subject: [PATCH 40/90] fix: MIN and MAX with more than two arguments ignored
 all but the first two

---
 dal/script/parser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dal/script/parser.cpp b/dal/script/parser.cpp
index 4f34e63..55cf443 100644
--- a/dal/script/parser.cpp
+++ b/dal/script/parser.cpp
@@ -112,6 +112,13 @@ namespace Dal::Script {
                 top->arguments_ = ParseFuncArg(cur, end);
                 if (top->arguments_.size() < minArg || top->arguments_.size() > maxArg)
                     THROW2(String_("Function ") + func + String_(": wrong number of arguments_"), ScriptError_);
+                //	`MIN` and `MAX` nodes are binary: nest the ones with more arguments
+                if (top->arguments_.size() > 2) {
+                    auto args = std::move(top->arguments_);
+                    top = std::move(args[0]);
+                    for (size_t i = 1; i < args.size(); ++i)
+                        top = func == "MAX" ? MakeBaseBinary<NodeMax_>(top, args[i]) : MakeBaseBinary<NodeMin_>(top, args[i]);
+                }
             }
             //	Return
             return top;
-- 
2.43.0


From 86c2b9e375067201d4649e39291e498f2978e601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:45 +0000
Subject: [PATCH 41/90] fix: a moved script evaluator lost the initial values
 of its variables

---
 dal/script/visitor/evaluator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/script/visitor/evaluator.hpp b/dal/script/visitor/evaluator.hpp
index 5ba70b1..6f2a95e 100644
--- a/dal/script/visitor/evaluator.hpp
+++ b/dal/script/visitor/evaluator.hpp
@@ -59,7 +59,7 @@ namespace Dal::Script {
         }
 
         EvaluatorBase_(EvaluatorBase_&& rhs) noexcept
-            : variables_(std::move(rhs.variables_)), constVariables_(std::move(rhs.constVariables_)), curEvt_(rhs.curEvt_) {
+            : variables_(std::move(rhs.variables_)), variablesInit_(std::move(rhs.variablesInit_)), constVariables_(std::move(rhs.constVariables_)), curEvt_(rhs.curEvt_) {
             bStack_ = rhs.bStack_;
             scenario_ = rhs.scenario_;
         }
-- 
2.43.0


From 8bda506df3c6a398b942cecc1a494062b1c57887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:45 +0000
Subject: [PATCH 42/90] fix: domain processing took logarithms for non-negative

---
 dal/script/visitor/domainproc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/script/visitor/domainproc.hpp b/dal/script/visitor/domainproc.hpp
index 70e2ceb..7dafa89 100644
--- a/dal/script/visitor/domainproc.hpp
+++ b/dal/script/visitor/domainproc.hpp
@@ -119,7 +119,7 @@ namespace Dal::Script {
         void Visit(NodeLog_& node) {
             VisitArguments(node);
             Domain_ res = domStack_.Top().ApplyFunc<double (*)(double)>(
-                log, Interval_(Bound_(0.0), Bound_(Bound_::plusInfinity_)));
+                log, Interval_(Bound_(Bound_::minusInfinity_), Bound_(Bound_::plusInfinity_)));
             domStack_.Pop();
             domStack_.Push(std::move(res));
         }
-- 
2.43.0


From daa7ad577e7bb929312586b47e1d84fa6eb3aef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:22 +0000
Subject: [PATCH 43/90] fix: compiled IF/ELSE popped its condition after the
 nested evaluation had reset the stack

---
 dal/script/visitor/compiler.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dal/script/visitor/compiler.hpp b/dal/script/visitor/compiler.hpp
index e48d02a..ec512df 100644
--- a/dal/script/visitor/compiler.hpp
+++ b/dal/script/visitor/compiler.hpp
@@ -512,14 +512,13 @@ namespace Dal::Script {
                 bStack.Pop();
                 break;
             case IfElse:
-                if (!bStack.Top()) {
+                if (!bStack.TopAndPop()) {
                     i = nodeStream[++i];
                 } else {
-                    //  Cannot avoid nested call here
+                    //  Cannot avoid nested call here, note it resets the stacks
                     EvalCompiled(nodeStream, constStream, dataStream, scenario, state, i + 3, nodeStream[i + 1]);
                     i = nodeStream[i + 2];
                 }
-                bStack.Pop();
                 break;
             case Equal:
                 bStack.Push(dStack.TopAndPop() == 0);
-- 
2.43.0


From 0d9ae15d6a014ba626a3883de0cca65563b875e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:34 +0000
Subject: [PATCH 44/90] fix: derivative of pow with a zero exponent is NaN at a
 zero base

---
 dal/math/aad/expr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/math/aad/expr.hpp b/dal/math/aad/expr.hpp
index 3ee7c5d..ec2eca1 100644
--- a/dal/math/aad/expr.hpp
+++ b/dal/math/aad/expr.hpp
@@ -75,7 +75,7 @@ namespace Dal::AAD {
     struct OPPow_ {
         FORCE_INLINE static double Eval(double l, double r) { return std::pow(l, r); }
 
-        FORCE_INLINE static double LeftDerivative(double l, double r, double v) { return l != 0.0 ? r * v / l : r * std::pow(l, r - 1.0); }
+        FORCE_INLINE static double LeftDerivative(double l, double r, double v) { return l != 0.0 ? r * v / l : (r != 0.0 ? r * std::pow(l, r - 1.0) : 0.0); }
 
         FORCE_INLINE static double RightDerivative(double l, double r, double v) { return v != 0.0 ? std::log(l) * v : 0.0; }
     };
@@ -250,7 +250,7 @@ namespace Dal::AAD {
     struct OPPowDR_ {
         FORCE_INLINE static double Eval(double r, double d) { return std::pow(r, d); }
 
-        FORCE_INLINE static double Derivative(double r, double v, double d) { return r != 0.0 ? d * v / r : d * std::pow(r, d - 1.0); }
+        FORCE_INLINE static double Derivative(double r, double v, double d) { return r != 0.0 ? d * v / r : (d != 0.0 ? d * std::pow(r, d - 1.0) : 0.0); }
     };
 
     struct OPMaxD_ {
-- 
2.43.0


From f14d95a4be0ed70cb8f1f6efc2a1102ca161e25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:50 +0000
Subject: [PATCH 45/90] fix: compiled scripts reported no sensitivity to named
 constants

---
 dal/script/node.hpp             | 3 ++-
 dal/script/visitor/compiler.hpp | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/dal/script/node.hpp b/dal/script/node.hpp
index 75fd1b2..decb2ec 100644
--- a/dal/script/node.hpp
+++ b/dal/script/node.hpp
@@ -108,7 +108,8 @@ namespace Dal::Script {
 
     struct NodeConstVar_: public Visitable_<ExprNode_, NodeConstVar_, VISITORS> {
         explicit NodeConstVar_(String_ name, double val) : name_(std::move(name)), index_(-1) {
-            ExprNode_::isConst_ = true;
+            // not folded by the compiler, which would lose its sensitivities
+            ExprNode_::isConst_ = false;
             ExprNode_::constVal_ = val;
         }
 
diff --git a/dal/script/visitor/compiler.hpp b/dal/script/visitor/compiler.hpp
index ec512df..7b6d817 100644
--- a/dal/script/visitor/compiler.hpp
+++ b/dal/script/visitor/compiler.hpp
@@ -300,8 +300,7 @@ namespace Dal::Script {
 
         void Visit(const NodeConstVar_& node) {
             nodeStream_.emplace_back(ConstVar);
-            nodeStream_.emplace_back(static_cast<int>(constStream_.size()));
-            constStream_.emplace_back(node.constVal_);
+            nodeStream_.emplace_back(node.index_);
         }
 
         void Visit(const NodeConst_& node) {
@@ -476,6 +475,9 @@ namespace Dal::Script {
                 ++i;
                 break;
             case ConstVar:
+                dStack.Push(state.constVariables_[nodeStream[++i]]);
+                ++i;
+                break;
             case Const:
                 dStack.Push(constStream[nodeStream[++i]]);
                 ++i;
-- 
2.43.0


From f511557d318d6ce225b2c6b0d3f57a06d7795f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:03 +0000
Subject: [PATCH 46/90] fix: the script parser reads past the last token of
 scripts that end too early

---
 dal/script/parser.cpp | 8 +++-----
 dal/script/parser.hpp | 1 +
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/dal/script/parser.cpp b/dal/script/parser.cpp
index 55cf443..c87cd0f 100644
--- a/dal/script/parser.cpp
+++ b/dal/script/parser.cpp
@@ -250,7 +250,7 @@ namespace Dal::Script {
 
     void Parser_::ParseCondOptionals(TokIt_& cur, const TokIt_& end, double& eps) {
         eps = -1.0;
-        while (*cur == ";" || *cur == ":") {
+        while (cur != end && (*cur == ";" || *cur == ":")) {
             const char c = (*cur)[0];
             ++cur;
             REQUIRE2(cur != end, "unexpected end of statement", ScriptError_);
@@ -261,7 +261,7 @@ namespace Dal::Script {
 
     double Parser_::ParseDCF(TokIt_& cur, const TokIt_& end) {
         // TODO: we assume `DCF` function won't contain another nested function
-        REQUIRE2((*cur)[0] == '(', "No opening ( following `DCF`", ScriptError_);
+        REQUIRE2(cur != end && (*cur)[0] == '(', "No opening ( following `DCF`", ScriptError_);
         auto closeIt = FindMatch<'(', ')'>(cur, end);
         ++cur;
 
@@ -272,7 +272,6 @@ namespace Dal::Script {
             day_basis += *cur;
             ++cur;
         }
-        ++cur;
         while (cur != closeIt && (*cur)[0] == ',')
             ++cur;
         REQUIRE2(cur != closeIt, "doesn't find `start` for `DCF", ScriptError_);
@@ -282,7 +281,6 @@ namespace Dal::Script {
             start_date += *cur;
             ++cur;
         }
-        ++cur;
         while (cur != closeIt && (*cur)[0] == ',')
             ++cur;
         REQUIRE2(cur != closeIt, "doesn't find `end` for `DCF", ScriptError_);
@@ -299,7 +297,7 @@ namespace Dal::Script {
     }
 
     Vector_<Expression_> Parser_::ParseFuncArg(TokIt_& cur, const TokIt_& end) {
-        REQUIRE2((*cur)[0] == '(', "No opening ( following function name", ScriptError_);
+        REQUIRE2(cur != end && (*cur)[0] == '(', "No opening ( following function name", ScriptError_);
         auto closeIt = FindMatch<'(', ')'>(cur, end);
 
         //	Parse expressions between parentheses
diff --git a/dal/script/parser.hpp b/dal/script/parser.hpp
index 18b1a7f..3cc2ac8 100644
--- a/dal/script/parser.hpp
+++ b/dal/script/parser.hpp
@@ -40,6 +40,7 @@ namespace Dal::Script {
         template <ParseFunc FuncOnMatch_, ParseFunc FuncOnNoMatch_>
         Expression_ ParseParentheses(TokIt_& cur, const TokIt_& end) {
             Expression_ tree;
+            REQUIRE2(cur != end, "unexpected end of statement", ScriptError_);
 
             // Do we have an opening "("?
             if( *cur == "(") {
-- 
2.43.0


From 3ecd98cc1416d5d50d071eefce0afedf33d8eca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:03 +0000
Subject: [PATCH 47/90] fix: the script parser silently drops what follows a
 complete expression inside parentheses

---
 dal/script/parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dal/script/parser.hpp b/dal/script/parser.hpp
index 3cc2ac8..67aa4b1 100644
--- a/dal/script/parser.hpp
+++ b/dal/script/parser.hpp
@@ -50,6 +50,7 @@ namespace Dal::Script {
                 // Parse the parentheses condition/expression, including nested parentheses,
                 // by recursively calling the parent parseCond/parseExpr
                 tree = (this->*FuncOnMatch_)(++cur, closeIt);
+                REQUIRE2(cur == closeIt, "unexpected token before closing )", ScriptError_);
 
                 // Advance cur after matching ")"
                 cur = ++closeIt;
-- 
2.43.0


From 1af0833e185af687e1711369267f803f9580427b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:03 +0000
Subject: [PATCH 48/90] fix: assigning to a named constant was accepted, and
 wrote to an unrelated variable

---
 dal/script/parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dal/script/parser.cpp b/dal/script/parser.cpp
index c87cd0f..bf0b3fc 100644
--- a/dal/script/parser.cpp
+++ b/dal/script/parser.cpp
@@ -353,6 +353,7 @@ namespace Dal::Script {
         if (*cur == "IF")
             return ParseIf(cur, end);
         auto lhs = ParseVar(cur);
+        REQUIRE2(dynamic_cast<NodeVar_*>(lhs.get()), "a named constant cannot be assigned or paid into", ScriptError_);
         REQUIRE2(cur != end, "unexpected end of statement", ScriptError_);
         if (*cur == "=")
             return ParseAssign(cur, end, lhs);
-- 
2.43.0


From 3c6b1e66d9d87d37bfc4986a31beeff95d9414e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:03 +0000
Subject: [PATCH 49/90] fix: the operator ^ was accepted as the name of a
 variable

---
 dal/script/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/script/parser.cpp b/dal/script/parser.cpp
index bf0b3fc..54f97cd 100644
--- a/dal/script/parser.cpp
+++ b/dal/script/parser.cpp
@@ -136,7 +136,7 @@ namespace Dal::Script {
     }
 
     Expression_ Parser_::ParseVar(TokIt_& cur) {
-        REQUIRE2((*cur)[0] >= 'A' && (*cur)[0] <= 'z', String_("Variable name ") + *cur + " is invalid", ScriptError_);
+        REQUIRE2((*cur)[0] >= 'A' && (*cur)[0] <= 'z' && (*cur)[0] != '^', String_("Variable name ") + *cur + " is invalid", ScriptError_);
         REQUIRE2(RESERVED_KEY_WORDS.find(*cur) == RESERVED_KEY_WORDS.end(),
                  String_("Variable name ") + *cur + " is conflicted with an existing key word", ScriptError_);
         String_ name(*cur);
-- 
2.43.0


From 62e0e91860995236dafa6c0f169b10a2798db298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:40 +0000
Subject: [PATCH 50/90] fix: schedule headers: reads past the last token,
 FIXING not followed by more, missing START, END or FREQ

---
 dal/script/event/schedule.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dal/script/event/schedule.cpp b/dal/script/event/schedule.cpp
index 1317f63..92861d5 100644
--- a/dal/script/event/schedule.cpp
+++ b/dal/script/event/schedule.cpp
@@ -24,8 +24,9 @@ namespace Dal {
             BizDayConvention_ bizRule("Unadjusted");
             bool fixAtEnd = true;
 
-            for (; i < tokens.size() - 2; ++i) {
-                REQUIRE2(tokens[i + 1] == ":", "schedule parameter name not followed by `:`", ScriptError_);
+            for (; i < tokens.size(); ++i) {
+                REQUIRE2(i + 2 < tokens.size() && tokens[i + 1] == ":", "schedule parameter name not followed by `:` and a value", ScriptError_);
+                REQUIRE2((tokens[i] != "START" && tokens[i] != "END") || i + 7 <= tokens.size(), "incomplete date in schedule", ScriptError_);
 
                 if (tokens[i] == "START") {
                     String_ dt_str = std::accumulate(tokens.begin() + i + 2, tokens.begin() + i + 7,
@@ -55,10 +56,12 @@ namespace Dal {
                         fixAtEnd = true;
                     else
                         THROW("unknown token for fixing");
+                    i += 2;
                 } else
                     THROW2("unknown token", ScriptError_);
             }
 
+            REQUIRE2(startDate.IsValid() && endDate.IsValid() && tenor, "schedule needs START, END and FREQ", ScriptError_);
             Vector_<Date_> schedule = MakeSchedule(startDate,
                                                    Cell_(endDate),
                                                    holidays,
-- 
2.43.0


From aaeee96707a203af5e93c3a99f497fb582973070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:32 +0000
Subject: [PATCH 51/90] fix: every past payment left a value on the evaluation
 stack, which overflowed after 128 of them

---
 dal/script/visitor/pastevaluator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dal/script/visitor/pastevaluator.hpp b/dal/script/visitor/pastevaluator.hpp
index 52664cf..a398363 100644
--- a/dal/script/visitor/pastevaluator.hpp
+++ b/dal/script/visitor/pastevaluator.hpp
@@ -22,8 +22,9 @@ namespace Dal::Script {
         using Base::dStack_;
 
         FORCE_INLINE void Visit(const NodePays_& node) {
-            //	Visit the RHS expression
+            //	Visit the RHS expression, past payments do not count
             VisitNode(*node.arguments_[1]);
+            dStack_.Pop();
         }
 
         FORCE_INLINE void Visit(const NodeSpot_&) {
-- 
2.43.0


From 0cef9ef3038212611c3c784443018facfbc2b8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:26 +0000
Subject: [PATCH 52/90] fix: a Brownian bridge with no steps (a product
 observed today only) wrote out of bounds

---
 dal/math/random/brownianbridge.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dal/math/random/brownianbridge.cpp b/dal/math/random/brownianbridge.cpp
index 71e0c6a..7e002db 100644
--- a/dal/math/random/brownianbridge.cpp
+++ b/dal/math/random/brownianbridge.cpp
@@ -21,6 +21,8 @@ namespace Dal {
     }
 
     void BrownianBridge_::Initialize() {
+        if (ndim_ == 0)
+            return;
         sqrtdt_[0] = std::sqrt(t_[0]);
         for (int i = 1; i < ndim_; ++i)
             sqrtdt_[i] = std::sqrt(t_[i] - t_[i-1]);
@@ -64,6 +66,8 @@ namespace Dal {
 
     void BrownianBridge_::FillNormal(Vector_<> *deviates) {
         deviates->Resize(NDim());
+        if (ndim_ == 0)
+            return;
         rsg_->FillNormal(&innerDeviates_);
         (*deviates)[ndim_ - 1] = stdDev_[0] * innerDeviates_[0];
         for (int i = 1; i< ndim_; ++i) {
-- 
2.43.0


From d050921f999383cff37f4c87da0048212a8d85a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:26 +0000
Subject: [PATCH 53/90] fix: linear interpolation dropped the sensitivity to
 the interpolated point, so that local volatility deltas ignored the skew

---
 dal/math/interp/interp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/math/interp/interp.hpp b/dal/math/interp/interp.hpp
index f6f084f..817f9cf 100644
--- a/dal/math/interp/interp.hpp
+++ b/dal/math/interp/interp.hpp
@@ -39,7 +39,7 @@ namespace Dal {
         if (pge == x.begin() || IsZero(x0 - *pge))
             return y[pge - x.begin()];
         auto plt = Previous(pge);
-        const auto gFrac = static_cast<double>((x0 - *plt) / (*pge - *plt));
+        const T_ gFrac = (x0 - *plt) / (*pge - *plt);
         auto flt = y.begin() + (plt - x.begin());
         return *flt + gFrac * (*Next(flt) - *flt);
     }
-- 
2.43.0


From aa87136affdbec2c481f33c3e033ef0031c8bc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:26 +0000
Subject: [PATCH 54/90] fix: a local volatility surface whose shape differs
 from its spots and times was read out of bounds

---
 dal/model/dupire.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dal/model/dupire.hpp b/dal/model/dupire.hpp
index df31e24..17a1f4a 100644
--- a/dal/model/dupire.hpp
+++ b/dal/model/dupire.hpp
@@ -64,6 +64,7 @@ namespace Dal {
                     double maxDt = 1.0)
                 : spot_(spot), r_(r), q_(q), spots_(spots), logSpots_(spots.size()), times_(times), vols_(vols), maxDt_(maxDt),
                   parameters_(vols.Rows() * vols.Cols() + 3), parameterLabels_(vols.Rows() * vols.Cols() + 3), defLine_(nullptr) {
+                REQUIRE(vols_.Rows() == spots_.size() && vols_.Cols() == times_.size(), "local volatilities must have a row for each spot and a column for each time");
                 Transform(spots_, [](double x) { return Dal::log(x); }, &logSpots_);
                 parameterLabels_[0] = "spot";
                 parameterLabels_[1] = "rate";
-- 
2.43.0


From 2f2976f72ce9e1f1829ab37c2a4b54643261b6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:26 +0000
Subject: [PATCH 55/90] fix: applying a slide to model data dereferenced a null
 name

---
 dal/model/blackscholes.cpp | 2 +-
 dal/model/dupire.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/model/blackscholes.cpp b/dal/model/blackscholes.cpp
index 81ef3cc..d914741 100644
--- a/dal/model/blackscholes.cpp
+++ b/dal/model/blackscholes.cpp
@@ -15,7 +15,7 @@ namespace Dal {
     }
 
     BSModelData_* BSModelData_::MutantModel(const String_* new_name, const Slide_* slide) const {
-        std::unique_ptr<BSModelData_> temp(new BSModelData_(*new_name, spot_, vol_, rate_, div_));
+        std::unique_ptr<BSModelData_> temp(new BSModelData_(new_name ? *new_name : name_, spot_, vol_, rate_, div_));
         if (slide) {
             // TODO: finish the implementation
         }
diff --git a/dal/model/dupire.cpp b/dal/model/dupire.cpp
index cfdc6e1..b871cb2 100644
--- a/dal/model/dupire.cpp
+++ b/dal/model/dupire.cpp
@@ -15,7 +15,7 @@ namespace Dal {
     }
 
     DupireModelData_* DupireModelData_::MutantModel(const String_* new_name, const Slide_* slide) const {
-        std::unique_ptr<DupireModelData_> temp(new DupireModelData_(*new_name, spot_, rate_, repo_, spots_, times_, vols_));
+        std::unique_ptr<DupireModelData_> temp(new DupireModelData_(new_name ? *new_name : name_, spot_, rate_, repo_, spots_, times_, vols_));
         if (slide) {
             // TODO: finish the implementation
         }
-- 
2.43.0


From 42b6712aab067bbac6b62fdcdfbca2ff2817e7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:40 +0000
Subject: [PATCH 56/90] fix: a copy of simulation results looked sensitivities
 up in the original; an unknown name dereferenced null

---
 dal/script/simulation.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dal/script/simulation.hpp b/dal/script/simulation.hpp
index ac4e5dd..ba6ff8a 100644
--- a/dal/script/simulation.hpp
+++ b/dal/script/simulation.hpp
@@ -21,15 +21,17 @@ namespace Dal::Script {
     struct SimResults_ {
         explicit SimResults_(const Vector_<String_>& names) : aggregated_(0.0), risks_(names.size(), 0.0), names_(names) {
             for(auto i = 0; i < names.size(); ++i)
-                results_[names[i]] = &risks_[i];
+                results_[names[i]] = i;
         }
         double aggregated_;
         Vector_<> risks_;
         Vector_<String_> names_;
-        std::map<String_, const double*> results_;
+        std::map<String_, size_t> results_;
 
-        FORCE_INLINE double operator[](const String_& name) {
-            return *results_[name];
+        FORCE_INLINE double operator[](const String_& name) const {
+            auto found = results_.find(name);
+            REQUIRE(found != results_.end(), "no sensitivity with this name");
+            return risks_[found->second];
         }
     };
 
-- 
2.43.0


From e8ffdb8950f493b0814e6b479aa03f4564653524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:40 +0000
Subject: [PATCH 57/90] fix: errors in simulation tasks were dropped, and the
 value reported was what the other tasks added up to

---
 dal/script/simulation.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dal/script/simulation.hpp b/dal/script/simulation.hpp
index ba6ff8a..e6bba9b 100644
--- a/dal/script/simulation.hpp
+++ b/dal/script/simulation.hpp
@@ -152,6 +152,9 @@ namespace Dal::Script {
 
         for (auto& future : futures)
             pool->ActiveWait(future);
+        // errors in a task are errors of the simulation
+        for (auto& future : futures)
+            future.get();
 
         // aggregate all the results
         results.aggregated_ = Accumulate(simResults);
@@ -259,6 +262,9 @@ namespace Dal::Script {
             pool->ActiveWait(future);
 
         Number_::SetTape(*mainThreadPtr);
+        // errors in a task are errors of the simulation
+        for (auto& future : futures)
+            future.get();
         SimResults_ rtn(Dal::Vector::Join(mdl->ParameterLabels(), product.ConstVarNames()));
         for (auto& res: simResults) {
             rtn.aggregated_ += res.aggregated_;
-- 
2.43.0


From 3f3923cea74e29a74c82b552676d5d66ba8abd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:40 +0000
Subject: [PATCH 58/90] fix: sensitivities of a payoff that is itself a model
 parameter or a named constant walked back past the start of the tape

---
 dal/script/simulation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/script/simulation.hpp b/dal/script/simulation.hpp
index e6bba9b..ea994df 100644
--- a/dal/script/simulation.hpp
+++ b/dal/script/simulation.hpp
@@ -217,7 +217,7 @@ namespace Dal::Script {
                         random->FillNormal(&gVec);
                         model->GeneratePath(gVec, &path);
                         product.EvaluateCompiled(path, evalState);
-                        Number_ res = evalState.VarVals()[payoffIndex];
+                        Number_ res = evalState.VarVals()[payoffIndex] * 1.0; // a node after the mark, whatever the payoff is
                         res.PropagateToMark();
                         sumValue += res.value();
                     }
@@ -238,7 +238,7 @@ namespace Dal::Script {
                         random->FillNormal(&gVec);
                         model->GeneratePath(gVec, &path);
                         product.Evaluate(path, eval);
-                        Number_ res = eval.VarVals()[payoffIndex];
+                        Number_ res = eval.VarVals()[payoffIndex] * 1.0; // a node after the mark, whatever the payoff is
                         res.PropagateToMark();
                         sumValue += res.value();
                     }
-- 
2.43.0


From ece8603f1087524f1f81d24af3c76c8899c8435c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:40 +0000
Subject: [PATCH 59/90] fix: a valuation with no paths returned NaN

---
 public/src/value.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/public/src/value.cpp b/public/src/value.cpp
index 34cbd92..20a16d0 100644
--- a/public/src/value.cpp
+++ b/public/src/value.cpp
@@ -28,6 +28,7 @@ namespace Dal {
                                                 double smooth) {
         const auto modelType = model_data->Type();
         REQUIRE(MODEL_STORE.find(modelType) != MODEL_STORE.end(), "only support black scholes and Dupire model now");
+        REQUIRE(n_paths > 0, "number of paths must be positive");
         auto prd = product->Product();
         std::map<String_, double> res;
         if (enable_aad) {
-- 
2.43.0


From b12415fb9b8e27a5a3f1377e77ed47134afbb16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:08 +0000
Subject: [PATCH 60/90] fix: valuing a product with no events left read the
 front of an empty timeline

---
 dal/model/blackscholes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/model/blackscholes.hpp b/dal/model/blackscholes.hpp
index 88db6e2..cfecffc 100644
--- a/dal/model/blackscholes.hpp
+++ b/dal/model/blackscholes.hpp
@@ -95,7 +95,7 @@ namespace Dal {
                         timeLine_.push_back(time);
                 }
 
-                todayOnTimeLine_ = productTimeLine[0] == 0;
+                todayOnTimeLine_ = !productTimeLine.empty() && productTimeLine[0] == 0;
                 defLine_ = &defLine;
 
                 stds_.Resize(timeLine_.size() - 1);
-- 
2.43.0


From 5854e9a1bb49646712762ca26b521020a17d403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:46 +0000
Subject: [PATCH 61/90] fix: a risk view with strikes and maturities could not
 be instantiated

---
 dal/model/ivs.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dal/model/ivs.hpp b/dal/model/ivs.hpp
index cde2cee..e1e215e 100644
--- a/dal/model/ivs.hpp
+++ b/dal/model/ivs.hpp
@@ -21,8 +21,9 @@ namespace Dal::AAD {
         RiskView_() : isEmpty_(true){};
         RiskView_(const Vector_<>& strikes, const Vector_<>& mats)
             : isEmpty_(false), strikes_(strikes), mats_(mats), spreads_(strikes.size(), mats.size()) {
-            for (auto& spr : spreads_)
-                spr = T_(0.0);
+            for (int i = 0; i < spreads_.Rows(); ++i)
+                for (int j = 0; j < spreads_.Cols(); ++j)
+                    spreads_(i, j) = T_(0.0);
         }
 
         T_ Spread(double strike, double mat) const {
-- 
2.43.0


From ddd55ed2bc80d221619c1fe77e6a8708b9db06e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:46 +0000
Subject: [PATCH 62/90] fix: local volatilities with non-zero rates: calls
 ignored the rates and Dupire's formula lacked the strike

---
 dal/model/ivs.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/model/ivs.hpp b/dal/model/ivs.hpp
index e1e215e..d2c4527 100644
--- a/dal/model/ivs.hpp
+++ b/dal/model/ivs.hpp
@@ -61,7 +61,7 @@ namespace Dal::AAD {
 
         template <class T_ = double>
         T_ Call(double strike, double mat, const RiskView_<T_>* risk = nullptr) const {
-            return BlackScholes<T_>(spot_, strike, ImpliedVol(strike, mat) + (risk ? risk->Spread(strike, mat) : T_(0.0)), mat);
+            return std::exp(-r_ * mat) * BlackScholes<T_>(spot_ * std::exp((r_ - q_) * mat), strike, ImpliedVol(strike, mat) + (risk ? risk->Spread(strike, mat) : T_(0.0)), mat);
         }
 
         template <class T_ = double>
@@ -77,7 +77,7 @@ namespace Dal::AAD {
             const T_ c20 = Call(strike + ds, mat, risk);
             const T_ ckk = (c10 + c20 - 2.0 * c00) / ds / ds;
             const T_ ck = (c20 - c10) * 0.5 / ds;
-            return Dal::sqrt(2.0 * (ct + q_ * c00 + (r_ - q_) * ck) / ckk) / strike;
+            return Dal::sqrt(2.0 * (ct + q_ * c00 + (r_ - q_) * strike * ck) / ckk) / strike;
         }
 
         virtual ~IVS_() = default;
-- 
2.43.0


From 97ec48d9dca005ca1ddd3e70a25118d04daca93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:46 +0000
Subject: [PATCH 63/90] fix: calibrating local volatilities on a grid with no
 spot near the money read out of bounds or returned zeros

---
 dal/model/dupire.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dal/model/dupire.hpp b/dal/model/dupire.hpp
index 17a1f4a..9f7f5d4 100644
--- a/dal/model/dupire.hpp
+++ b/dal/model/dupire.hpp
@@ -209,6 +209,8 @@ namespace Dal {
             while (ih >= 0 && spots[ih] > ivs.Spot() + 2.5 * std)
                 --ih;
 
+            REQUIRE(il <= ih, "no spot within 2.5 standard deviations: local volatilities cannot be calibrated on this grid");
+
             // Loop on spots
             for (int i = il; i <= ih; ++i) {
                 //  Dupire's formula
-- 
2.43.0


From 2fc597edd2ce2a7b2592ada8ebd4396cdd192232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:13 +0000
Subject: [PATCH 64/90] fix: stopping the thread pool wrote its interrupt flag
 while the threads read it

---
 dal/concurrency/threadpool.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dal/concurrency/threadpool.hpp b/dal/concurrency/threadpool.hpp
index d783682..ffaa7a4 100644
--- a/dal/concurrency/threadpool.hpp
+++ b/dal/concurrency/threadpool.hpp
@@ -13,6 +13,7 @@
 #pragma once
 
 #include <dal/concurrency/concurrentqueue.hpp>
+#include <atomic>
 #include <future>
 #include <thread>
 
@@ -25,7 +26,7 @@ namespace Dal {
         ConcurrentQueue_<Task_> queue_;
         std::vector<std::thread> threads_;
         bool active_;
-        bool interrupt_;
+        std::atomic<bool> interrupt_;
         static thread_local size_t tlsNum_;
 
         void ThreadFunc(const size_t& num);
-- 
2.43.0


From f3b296f256f85990542a7f5e1fc937b3e6d34280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:13 +0000
Subject: [PATCH 65/90] fix: clearing a queue and resetting its interrupt did
 not lock it

---
 dal/concurrency/concurrentqueue.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dal/concurrency/concurrentqueue.hpp b/dal/concurrency/concurrentqueue.hpp
index 6d4351e..1813b59 100644
--- a/dal/concurrency/concurrentqueue.hpp
+++ b/dal/concurrency/concurrentqueue.hpp
@@ -69,10 +69,14 @@ namespace Dal {
             cv_.notify_all();
         }
 
-        void ResetInterrupt() { interrupt_ = false; }
+        void ResetInterrupt() {
+            std::lock_guard<std::mutex> lk(mutex_);
+            interrupt_ = false;
+        }
 
         void Clear() {
             std::queue<T_> empty;
+            std::lock_guard<std::mutex> lk(mutex_);
             std::swap(queue_, empty);
         }
     };
-- 
2.43.0


From 93d0162145b6ee06b4652c331460d6d7007b189f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:47 +0000
Subject: [PATCH 66/90] fix: a quiet fixing lookup without fixing access
 dereferenced null

---
 dal/indice/index.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/indice/index.cpp b/dal/indice/index.cpp
index 196eb40..6fca1d0 100644
--- a/dal/indice/index.cpp
+++ b/dal/indice/index.cpp
@@ -12,7 +12,7 @@ namespace Dal {
         static const std::map<DateTime_, double> EMPTY;
         auto hist = Environment::Find<FixingsAccess_>(_env);
         REQUIRE(hist || quiet, "no fixing access");
-        auto fixings = hist->Fetch(index_name);
+        auto fixings = hist ? hist->Fetch(index_name) : Handle_<Fixings_>();
         REQUIRE(fixings || quiet, "no fixings exist");
 
         auto vals = fixings ? fixings->vals_ : EMPTY;
-- 
2.43.0


From 3e45816e56bde34877bc6c9d1623c75359e737ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:47 +0000
Subject: [PATCH 67/90] fix: the parser for FX indices was never registered, so
 that FX indices could not be parsed or cloned

---
 dal/indice/parser/init.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dal/indice/parser/init.cpp b/dal/indice/parser/init.cpp
index 14647fb..977b31a 100644
--- a/dal/indice/parser/init.cpp
+++ b/dal/indice/parser/init.cpp
@@ -8,6 +8,7 @@
 #include <dal/string/strings.hpp>
 #include <dal/indice/indexparse.hpp>
 #include <dal/indice/parser/equity.hpp>
+#include <dal/indice/parser/fx.hpp>
 
 namespace Dal {
 
@@ -16,6 +17,7 @@ namespace Dal {
     void IndexParsers_::Init() {
         if (!init_) {
             Index::RegisterParser("EQ", Index::EquityParser);
+            Index::RegisterParser("FX", Index::FxParser);
             init_ = true;
         }
     }
-- 
2.43.0


From 5c6212bc3e917883dff672bd13f2cb75b6c2b533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:47 +0000
Subject: [PATCH 68/90] fix: malformed equity and FX index names were accepted,
 and the text outside the brackets ignored

---
 dal/indice/parser/equity.cpp | 2 ++
 dal/indice/parser/fx.cpp     | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/dal/indice/parser/equity.cpp b/dal/indice/parser/equity.cpp
index a085673..6d76790 100644
--- a/dal/indice/parser/equity.cpp
+++ b/dal/indice/parser/equity.cpp
@@ -13,8 +13,10 @@ namespace Dal::Index {
         auto eq_start = name.find_first_of("[");
         auto eq_stop = name.find_first_of("]");
 
+        REQUIRE(eq_start != String_::npos && eq_stop != String_::npos && eq_start < eq_stop && name.find_first_of(":") > eq_start, "equity index pattern is not good");
         String_ eq_name = name.substr(eq_start + 1, eq_stop - eq_start - 1);
         auto tenor_start = name.find_first_of("@>", eq_stop + 1);
+        REQUIRE((tenor_start == String_::npos ? name.length() : tenor_start) == eq_stop + 1, "equity index pattern is not good");
         if (tenor_start == String_::npos)
             return new Equity_(eq_name, nullptr, nullptr);
         else if (name[tenor_start] == '@') {
diff --git a/dal/indice/parser/fx.cpp b/dal/indice/parser/fx.cpp
index 3dbd85a..9a611cc 100644
--- a/dal/indice/parser/fx.cpp
+++ b/dal/indice/parser/fx.cpp
@@ -12,7 +12,8 @@ namespace Dal::Index {
         auto fx_start = name.find_first_of("[");
         auto fx_stop = name.find_first_of("]");
         auto fx_sep = name.find_first_of("/");
-        REQUIRE(fx_start != String_::npos && fx_stop != String_::npos && fx_sep != String_::npos, "fx index pattern is not good");
+        REQUIRE(fx_start != String_::npos && fx_stop != String_::npos && fx_sep != String_::npos
+                && fx_start < fx_sep && fx_sep < fx_stop && fx_stop + 1 == name.length() && name.find_first_of(":") > fx_stop, "fx index pattern is not good");
 
         String_ fgn = name.substr(fx_start + 1, fx_sep - fx_start - 1);
         String_ dom = name.substr(fx_sep + 1, fx_stop - fx_sep - 1);
-- 
2.43.0


From f3e975ec71855d3ccce77994693c4facd2e47915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:47 +0000
Subject: [PATCH 69/90] fix: a discount-factor index ignored the collateral it
 was given

---
 dal/indice/index/ir.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/indice/index/ir.hpp b/dal/indice/index/ir.hpp
index a2c02b5..630a1d0 100644
--- a/dal/indice/index/ir.hpp
+++ b/dal/indice/index/ir.hpp
@@ -53,7 +53,7 @@ namespace Dal::Index {
             const Cell_& maturity,
             const Cell_* start = nullptr,
             const CollateralType_& coll = CollateralType_())
-            : ccy_(ccy), maturity_(maturity), start_(Dereference(start, Cell_())) {}
+            : ccy_(ccy), maturity_(maturity), collateral_(coll), start_(Dereference(start, Cell_())) {}
 
         [[nodiscard]] String_ Name() const override;
         [[nodiscard]] Date_ Maturity(const DateTime_& event_time) const;
-- 
2.43.0


From 01f8c8c00546d151091260470f78df87340d9f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:47 +0000
Subject: [PATCH 70/90] fix: monitoring a historical path with a non-positive
 interval never returned

---
 dal/indice/indexpath.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dal/indice/indexpath.cpp b/dal/indice/indexpath.cpp
index b510da8..decbdae 100644
--- a/dal/indice/indexpath.cpp
+++ b/dal/indice/indexpath.cpp
@@ -52,6 +52,7 @@ namespace Dal {
                                                 const std::pair<double, double>& range,
                                                 double monitoring_interval,
                                                 double ramp_sigma) const {
+        REQUIRE(monitoring_interval > 0.0, "Monitoring interval must be positive");
         DateTime_ current = from;
         double prob = 1.0;
 
-- 
2.43.0


From 54c736ee5a70453e6379ae073ba7edb78b633369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:47 +0000
Subject: [PATCH 71/90] fix: reading a text file stopped silently at the first
 line of 2048 or more characters

---
 dal/utilities/file.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dal/utilities/file.cpp b/dal/utilities/file.cpp
index 30b48ba..1c8b8d8 100644
--- a/dal/utilities/file.cpp
+++ b/dal/utilities/file.cpp
@@ -4,6 +4,7 @@
 
 #include <cstdio>
 #include <fstream>
+#include <string>
 #include <dal/platform/platform.hpp>
 #include <dal/platform/strict.hpp>
 #include <dal/utilities/file.hpp>
@@ -13,9 +14,9 @@
 namespace Dal::File {
     void Read(const String_& file_name, Vector_<String_>* dst) {
         std::ifstream src(file_name.c_str());
-        char buf[2048];
-        while (src.getline(buf, 2048))
-            dst->emplace_back(buf);
+        std::string buf;
+        while (std::getline(src, buf))
+            dst->emplace_back(buf.c_str());
         src.close();
     }
 
-- 
2.43.0


From ad75f13ca54997ba4c774e865afafa938b904cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:03 +0000
Subject: [PATCH 72/90] fix: text naming a day that does not exist was read as
 some other day

---
 dal/time/dateutils.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dal/time/dateutils.cpp b/dal/time/dateutils.cpp
index 3fc408f..4bba57f 100644
--- a/dal/time/dateutils.cpp
+++ b/dal/time/dateutils.cpp
@@ -19,6 +19,15 @@ namespace Dal {
         return std::regex_match(src, US_FORMAT) || std::regex_match(src, YMD_FORMAT);
     }
 
+    namespace {
+        Date_ ExistingDate(int yyyy, int mm, int dd) {
+            REQUIRE(mm >= 1 && mm <= 12 && dd >= 1 && dd <= 31, "No such date");
+            const Date_ ret_val(yyyy, mm, dd);
+            REQUIRE(Date::Month(ret_val) == mm && Date::Day(ret_val) == dd, "No such date");
+            return ret_val;
+        }
+    } // namespace
+
     Date_ Date::FromString(const String_& src) {
         NOTE("Reading date from string");
         NOTICE(src);
@@ -27,13 +36,13 @@ namespace Dal {
             const int mm = String::ToInt(String_(match.str(1)));
             const int dd = String::ToInt(String_(match.str(2)));
             const int yy = String::ToInt(String_(match.str(3))) + (match.str(3).size() == 2 ? 2000 : 0);
-            return Date_(yy, mm, dd);
+            return ExistingDate(yy, mm, dd);
         }
         if (std::regex_match(src, match, YMD_FORMAT)) {
             const int yyyy = String::ToInt(String_(match.str(1)));
             const int mm = String::ToInt(String_(match.str(2)));
             const int dd = String::ToInt(String_(match.str(3)));
-            return Date_(yyyy, mm, dd);
+            return ExistingDate(yyyy, mm, dd);
         }
         THROW("Unrecognizable date source");
     }
-- 
2.43.0


From 3637150b36bd88acc6a9bfd292beea88f6440d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:06 +0000
Subject: [PATCH 73/90] fix: a report index beyond an axis addressed another
 entry, a negative one memory outside the report

---
 dal/risk/report.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dal/risk/report.cpp b/dal/risk/report.cpp
index 13c5f5f..f2a0811 100644
--- a/dal/risk/report.cpp
+++ b/dal/risk/report.cpp
@@ -94,8 +94,17 @@ namespace Dal {
         return static_cast<int>(which > 0 ? strides_[which - 1] : vals_.size()) / strides_[which];
     }
 
+    namespace {
+        // only the first axis may be extended; an index beyond another axis would address some other entry
+        void CheckAddress(const Vector_<int>& locs, const Vector_<int>& strides) {
+            REQUIRE(locs.size() == strides.size(), "Address does not belong to this report");
+            for (auto ii = 0; ii < locs.size(); ++ii)
+                REQUIRE(locs[ii] >= 0 && (ii == 0 || locs[ii] < strides[ii - 1] / strides[ii]), "Invalid index into report");
+        }
+    } // namespace
+
     double& Report_::operator[](const Report::Address_& loc) {
-        assert(*MinElement(loc.locs_) >= 0);
+        CheckAddress(loc.locs_, strides_);
         const int which = InnerProduct(loc.locs_, strides_);
         if (which >= vals_.size()) {
             vals_.resize((loc.locs_[0] + 1) * strides_[0]); // make it big enough by extending the first axis only
@@ -105,7 +114,7 @@ namespace Dal {
     }
 
     const double& Report_::operator[](const Report::Address_& loc) const {
-        assert(*MinElement(loc.locs_) >= 0);
+        CheckAddress(loc.locs_, strides_);
         const int which = InnerProduct(loc.locs_, strides_);
         REQUIRE(which < vals_.size(), "Invalid index into const report");
         return vals_[which];
-- 
2.43.0


From b6ef893f4c410f777200b4fc4b1d81c296e90171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:06 +0000
Subject: [PATCH 74/90] fix: reports accepted two axes of one name, or a
 negative size, and wrote out of bounds

---
 dal/risk/report.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dal/risk/report.cpp b/dal/risk/report.cpp
index f2a0811..76c29df 100644
--- a/dal/risk/report.cpp
+++ b/dal/risk/report.cpp
@@ -62,7 +62,8 @@ namespace Dal {
         for (const auto& a : axes) {
             NOTICE(a.name_);
             const int which = static_cast<int>(axes_.size()); // number which preceded it
-            REQUIRE(a.size_ > 0 || which == 0, "Zero size is not allowed");
+            REQUIRE(a.size_ > 0 || (which == 0 && a.size_ == 0), "Zero size is not allowed");
+            REQUIRE(!axes_.count(a.name_), "Duplicate axis");
             axes_[a.name_] = which;
             strides_ *= a.size_;
             strides_.push_back(1);
-- 
2.43.0


From cab500d438113279735d3a1f8e7a435ad807291f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:06 +0000
Subject: [PATCH 75/90] fix: a negative header row was written outside the
 report

---
 dal/risk/report.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dal/risk/report.cpp b/dal/risk/report.cpp
index 76c29df..d5cda58 100644
--- a/dal/risk/report.cpp
+++ b/dal/risk/report.cpp
@@ -143,6 +143,7 @@ namespace Dal {
 
     void Report_::AddHeaderRow(const String_& axes, int offset, const Vector_<Cell_>& values) {
         auto& [labels_, values_] = headers_[FindAxis(axes_, axes)];
+        REQUIRE(offset >= 0, "Invalid header row");
         const auto n_labels = labels_.size();
         NOTICE(static_cast<int>(n_labels));
         REQUIRE(values.size() == n_labels, "Wrong number (= " + ToString(static_cast<int>(values.size())) + " of labels");
-- 
2.43.0


From ef849562e0aedaa5a158512ef58a23b78030b1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:07 +0000
Subject: [PATCH 76/90] fix: the error for a header row of the wrong size read
 a temporary that was gone

---
 dal/risk/report.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/risk/report.cpp b/dal/risk/report.cpp
index d5cda58..98fbe2e 100644
--- a/dal/risk/report.cpp
+++ b/dal/risk/report.cpp
@@ -144,8 +144,8 @@ namespace Dal {
     void Report_::AddHeaderRow(const String_& axes, int offset, const Vector_<Cell_>& values) {
         auto& [labels_, values_] = headers_[FindAxis(axes_, axes)];
         REQUIRE(offset >= 0, "Invalid header row");
-        const auto n_labels = labels_.size();
-        NOTICE(static_cast<int>(n_labels));
+        const int n_labels = static_cast<int>(labels_.size());
+        NOTICE(n_labels);
         REQUIRE(values.size() == n_labels, "Wrong number (= " + ToString(static_cast<int>(values.size())) + " of labels");
         if (offset >= values_.Rows())
             values_.Resize(offset + 1, static_cast<int>(labels_.size()));
-- 
2.43.0


From f8ec26fda41ccac9b08b2f5901dbe81f6c915d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:28 +0000
Subject: [PATCH 77/90] fix: ACT/ACT and ACT/365L of dates in 2149, the last
 year of the calendar, never returned

---
 dal/time/daybasis.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/dal/time/daybasis.cpp b/dal/time/daybasis.cpp
index 55710a8..a26b7c0 100644
--- a/dal/time/daybasis.cpp
+++ b/dal/time/daybasis.cpp
@@ -12,12 +12,15 @@ namespace Dal {
 #include <dal/auto/MG_DayBasis_enum.inc>
 
     namespace {
+        // does not need the next year to be representable
+        double DaysInYear(int yy) { return Date::DaysInMonth(yy, 2) == 29 ? 366.0 : 365.0; }
+
         double ActActISDA(const Date_& from, const Date_& to) {
             const short yStart = Date::Year(from);
-            const Date_ nextYear(yStart + 1, 1, 1);
-            const double denom = nextYear - Date_(yStart, 1, 1);
-            if (to <= nextYear)
+            const double denom = DaysInYear(yStart);
+            if (Date::Year(to) <= yStart)
                 return (to - from) / denom;
+            const Date_ nextYear(yStart + 1, 1, 1);
             return (nextYear - from) / denom + ActActISDA(nextYear, to);
         }
 
@@ -26,18 +29,18 @@ namespace Dal {
             int yy = Date::Year(from.AddDays(1));
             if (mm > 2)
                 ++yy;
-            for (;; ++yy) {
+            for (; yy <= Date::Year(to); ++yy) {
                 const Date_ endFeb = Date::EndOfMonth(Date_(yy, 2, 1));
                 if (endFeb > to)
                     return 365.0;
                 if (Date::Day(endFeb) == 29)
                     return 366.0;
             }
+            return 365.0;
         }
 
         double DaysL(const Date_& end) {
-            const short yy = Date::Year(end);
-            return Date_(yy + 1, 1, 1) - Date_(yy, 1, 1);
+            return DaysInYear(Date::Year(end));
         }
 
         double Act365L(const Date_& from, const Date_& to, bool is_annual, const Date_& end) {
-- 
2.43.0


From 283e01bace6e60b5b53974c6b14a2d2169679a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:25 +0000
Subject: [PATCH 78/90] fix: numbers in cells were turned into text with six
 decimals, so that splat files and dictionaries lost digits

---
 dal/math/cellutils.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dal/math/cellutils.cpp b/dal/math/cellutils.cpp
index e912a76..623de92 100644
--- a/dal/math/cellutils.cpp
+++ b/dal/math/cellutils.cpp
@@ -2,6 +2,8 @@
 // Created by wegam on 2020/10/25.
 //
 
+#include <cstdio>
+#include <cstdlib>
 #include <dal/platform/strict.hpp>
 #include <dal/math/cellutils.hpp>
 #include <dal/string/strings.hpp>
@@ -17,8 +19,15 @@ namespace Dal {
             return Cell::ToBool(src) ? String_("true") : String_("false");
         if (Cell::IsInt(src))
             return String::FromInt(Cell::ToInt(src));
-        if (Cell::IsDouble(src))
-            return String::FromDouble(Cell::ToDouble(src));
+        if (Cell::IsDouble(src)) {
+            const double val = Cell::ToDouble(src);
+            const String_ fixed = String::FromDouble(val);
+            if (std::strtod(fixed.c_str(), nullptr) == val)
+                return fixed;
+            char exact[32]; // six decimals do not identify this number
+            snprintf(exact, sizeof(exact), "%.17g", val);
+            return String_(exact);
+        }
         if (Cell::IsDate(src))
             return Date::ToString(Cell::ToDate(src));
         if (Cell::IsDateTime(src))
-- 
2.43.0


From 36f3be9bbbc946df365864ab986e064b52dd1d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:02 +0000
Subject: [PATCH 79/90] fix: 31 December of a year beyond the calendar was read
 as an invalid date

---
 dal/time/dateutils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/time/dateutils.cpp b/dal/time/dateutils.cpp
index 4bba57f..37ac376 100644
--- a/dal/time/dateutils.cpp
+++ b/dal/time/dateutils.cpp
@@ -23,7 +23,7 @@ namespace Dal {
         Date_ ExistingDate(int yyyy, int mm, int dd) {
             REQUIRE(mm >= 1 && mm <= 12 && dd >= 1 && dd <= 31, "No such date");
             const Date_ ret_val(yyyy, mm, dd);
-            REQUIRE(Date::Month(ret_val) == mm && Date::Day(ret_val) == dd, "No such date");
+            REQUIRE(Date::Year(ret_val) == yyyy && Date::Month(ret_val) == mm && Date::Day(ret_val) == dd, "No such date");
             return ret_val;
         }
     } // namespace
-- 
2.43.0


From 8c555b101e37f864b5f0ba6c4b39549e76b7fe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:41 +0000
Subject: [PATCH 80/90] fix: a zero step turned the approximate Jacobian into
 NaN

---
 dal/math/optimization/underdetermined.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dal/math/optimization/underdetermined.cpp b/dal/math/optimization/underdetermined.cpp
index 449a93a..abeb6b6 100644
--- a/dal/math/optimization/underdetermined.cpp
+++ b/dal/math/optimization/underdetermined.cpp
@@ -71,6 +71,8 @@ namespace Dal {
             void SecantUpdate(const Vector_<>& dx, const Vector_<>& df) override {
                 const auto nf = df.size();
                 const double x2 = InnerProduct(dx, dx);
+                if (!(x2 > 0.0))
+                    return; // no step was taken, thus nothing to learn
                 for (int ii = 0; ii < nf; ++ii) {
                     auto row = j_.Row(ii);
                     const double excess = df[ii] - InnerProduct(dx, row);
-- 
2.43.0


From 50558323e2321e59bb12f1130def68c8b1fec11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:26 +0000
Subject: [PATCH 81/90] fix: Cholesky products and correlated draws are
 infinite or NaN when the matrix is singular

---
 dal/math/matrix/cholesky.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dal/math/matrix/cholesky.cpp b/dal/math/matrix/cholesky.cpp
index d78c81c..28d815e 100644
--- a/dal/math/matrix/cholesky.cpp
+++ b/dal/math/matrix/cholesky.cpp
@@ -40,6 +40,9 @@ namespace Dal {
             SquareMatrix_<>* lower_;
             bool needKeep_;
 
+            // diagonal elements are stored inverted; zero stands for a zero pivot of a singular matrix
+            [[nodiscard]] double Pivot(int ii) const { return (*lower_)(ii, ii) == 0.0 ? 0.0 : 1.0 / (*lower_)(ii, ii); }
+
         public:
             explicit Cholesky_(const SquareMatrix_<>& src, SquareMatrix_<>* lower = nullptr, double regularization = Dal::EPSILON) {
                 if (lower) {
@@ -70,14 +73,14 @@ namespace Dal {
                 // multiply by L^T
                 for (int ii = 0; ii < n; ++ii) {
                     temp[ii] = std::inner_product(x.begin() + ii + 1, x.end(), lower_->Col(ii).begin() + ii + 1, 0.0);
-                    temp[ii] += x[ii] / (*lower_)(ii, ii);
+                    temp[ii] += x[ii] * Pivot(ii);
                 }
 
                 // multiply by L
                 b->Resize(n);
                 for (int ii = 0; ii < n; ++ii) {
                     (*b)[ii] = std::inner_product(temp.begin(), temp.begin() + ii, lower_->Row(ii).begin(), 0.0);
-                    (*b)[ii] += temp[ii] / (*lower_)(ii, ii);
+                    (*b)[ii] += temp[ii] * Pivot(ii);
                 }
             }
 
@@ -101,7 +104,7 @@ namespace Dal {
                 correlated->Resize(n);
                 for (int ii = 0; ii < n; ++ii) {
                     (*correlated)[ii] = std::inner_product(iid_begin, iid_begin + ii, lower_->Row(ii).begin(), 0.0);
-                    (*correlated)[ii] += *(iid_begin + ii) / (*lower_)(ii, ii);
+                    (*correlated)[ii] += *(iid_begin + ii) * Pivot(ii);
                 }
                 return iid_begin + n;
             }
-- 
2.43.0


From abfb541b9a867fd86ba2e5b34e18e9b4eb41e058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:10 +0000
Subject: [PATCH 82/90] fix: propagating from the mark to the start walks off a
 tape that has nothing before the mark

---
 dal/math/aad/expr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dal/math/aad/expr.hpp b/dal/math/aad/expr.hpp
index ec2eca1..c02484e 100644
--- a/dal/math/aad/expr.hpp
+++ b/dal/math/aad/expr.hpp
@@ -553,7 +553,8 @@ namespace Dal::AAD {
         }
 
         static void PropagateMarkToStart() {
-            PropagateAdjoints(std::prev(tape_->MarkIt()), tape_->Begin());
+            if (tape_->MarkIt() != tape_->Begin()) // otherwise nothing was recorded before the mark
+                PropagateAdjoints(std::prev(tape_->MarkIt()), tape_->Begin());
         }
 
         static void PropagateAdjointsMulti(Tape_::Iterator_ propagate_from, Tape_::Iterator_ propagate_to) {
-- 
2.43.0


From e95f10938171659cff0d05888efb22b708f5d7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:31 +0000
Subject: [PATCH 83/90] fix: derivative of a power with a zero base given as a
 double is NaN

---
 dal/math/aad/expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/math/aad/expr.hpp b/dal/math/aad/expr.hpp
index c02484e..f525e9a 100644
--- a/dal/math/aad/expr.hpp
+++ b/dal/math/aad/expr.hpp
@@ -244,7 +244,7 @@ namespace Dal::AAD {
     struct OPPowDL_ {
         FORCE_INLINE static double Eval(double r, double d) { return std::pow(d, r); }
 
-        FORCE_INLINE static double Derivative(double r, double v, double d) { return std::log(d) * v; }
+        FORCE_INLINE static double Derivative(double r, double v, double d) { return v != 0.0 ? std::log(d) * v : 0.0; }
     };
 
     struct OPPowDR_ {
-- 
2.43.0


From 8c6e019326ef069345d9285e54e0e7be7bc43567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:30 +0000
Subject: [PATCH 84/90] fix: the slope of max and min of equal arguments
 vanishes

---
 dal/math/aad/expr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/math/aad/expr.hpp b/dal/math/aad/expr.hpp
index f525e9a..c2bee4d 100644
--- a/dal/math/aad/expr.hpp
+++ b/dal/math/aad/expr.hpp
@@ -83,7 +83,7 @@ namespace Dal::AAD {
     struct OPMax_ {
         FORCE_INLINE static double Eval(double l, double r) { return std::max(l, r); }
 
-        FORCE_INLINE static double LeftDerivative(double l, double r, double v) { return l > r ? 1.0 : 0.0; }
+        FORCE_INLINE static double LeftDerivative(double l, double r, double v) { return l >= r ? 1.0 : 0.0; }
 
         FORCE_INLINE static double RightDerivative(double l, double r, double v) { return r > l ? 1.0 : 0.0; }
     };
@@ -91,7 +91,7 @@ namespace Dal::AAD {
     struct OPMin_ {
         FORCE_INLINE static double Eval(double l, double r) { return std::min(l, r); }
 
-        FORCE_INLINE static double LeftDerivative(double l, double r, double v) { return l < r ? 1.0 : 0.0; }
+        FORCE_INLINE static double LeftDerivative(double l, double r, double v) { return l <= r ? 1.0 : 0.0; }
 
         FORCE_INLINE static double RightDerivative(double l, double r, double v) { return r < l ? 1.0 : 0.0; }
     };
-- 
2.43.0


From 2fb2e278f4fb25e932799bfa9f5e6a16899eadeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:48 +0000
Subject: [PATCH 85/90] fix: a set of values is lost or refused when a function
 of one of its members is not finite

---
 dal/script/visitor/domain.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dal/script/visitor/domain.hpp b/dal/script/visitor/domain.hpp
index 932ed47..39b53a9 100644
--- a/dal/script/visitor/domain.hpp
+++ b/dal/script/visitor/domain.hpp
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include <cmath>
 #include <exception>
 #include <stdexcept>
 #include <iostream>
@@ -801,7 +802,10 @@ namespace Dal::Script {
             // Singletons, apply func
             for (auto v : vec) {
                 try {
-                    res.AddSingleton(func(v));
+                    const double val = func(v);
+                    if (!std::isfinite(val)) // no bound to work with: we only know the function domain
+                        return Domain_(func_domain);
+                    res.AddSingleton(val);
                 } catch (const std::domain_error&) {
                     THROW("Domain_ error on function applied to IsSingleton");
                 }
@@ -822,7 +826,10 @@ namespace Dal::Script {
             for (auto v1 : vec1) {
                 for (auto v2 : vec2) {
                     try {
-                        res.AddSingleton(func(v1, v2));
+                        const double val = func(v1, v2);
+                        if (!std::isfinite(val)) // no bound to work with: we only know the function domain
+                            return Domain_(func_domain);
+                        res.AddSingleton(val);
                     } catch (const std::domain_error&) {
                         THROW("Domain_ error on function applied to IsSingleton");
                     }
-- 
2.43.0


From 88304f977873cdeb31d6a18615a621f74b62c2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:55 +0000
Subject: [PATCH 86/90] fix: smoothing with a width of zero is NaN exactly on a
 threshold

---
 dal/script/visitor/fuzzy.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/dal/script/visitor/fuzzy.hpp b/dal/script/visitor/fuzzy.hpp
index eff808c..6baa361 100644
--- a/dal/script/visitor/fuzzy.hpp
+++ b/dal/script/visitor/fuzzy.hpp
@@ -205,14 +205,14 @@ namespace Dal::Script {
                 //	Effective epsilon: take default unless overwritten on the node
                 double eps = node.eps_ < 0 ? defEps_ : node.eps_;
 
-                //	Butterfly
-                fuzzyStack_.Push(BFly(expr, eps));
+                //	Butterfly, or the plain condition when there is no smoothing
+                fuzzyStack_.Push(eps > 0.0 ? BFly(expr, eps) : T(expr == 0.0 ? 1.0 : 0.0));
             }
         }
 
         // Inequality
-        // For visiting superior and supEqual
-        void VisitComp(const CompNode_& node) {
+        // For visiting superior and supEqual; plain is the condition that holds when there is no smoothing
+        template <class P_> void VisitComp(const CompNode_& node, const P_& plain) {
             //	Evaluate expression to be compared to 0
             VisitNode(*node.arguments_[0]);
             const T expr = dStack_.TopAndPop();
@@ -230,13 +230,17 @@ namespace Dal::Script {
                 //	Effective epsilon: take default unless overwritten on the node
                 const double eps = node.eps_ < 0 ? defEps_ : node.eps_;
 
-                //	Call Spread
-                fuzzyStack_.Push(CSpr(expr, eps));
+                //	Call Spread, or the plain condition when there is no smoothing
+                fuzzyStack_.Push(eps > 0.0 ? CSpr(expr, eps) : T(plain(expr) ? 1.0 : 0.0));
             }
         }
 
-        FORCE_INLINE void Visit(const NodeSup_& node) { VisitComp(node); }
-        FORCE_INLINE void Visit(const NodeSupEqual_& node) { VisitComp(node); }
+        FORCE_INLINE void Visit(const NodeSup_& node) {
+            VisitComp(node, [](const T& x) { return x > 0.0; });
+        }
+        FORCE_INLINE void Visit(const NodeSupEqual_& node) {
+            VisitComp(node, [](const T& x) { return x >= 0.0; });
+        }
 
         // Negation
         FORCE_INLINE void Visit(const NodeNot_& node) {
-- 
2.43.0


From b1ead077c5ebe2f65371b25e7c30e153e72d6a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:30 +0000
Subject: [PATCH 87/90] fix: adding to the repository erases and inserts under
 one lock

---
 dal/storage/_repository.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dal/storage/_repository.cpp b/dal/storage/_repository.cpp
index 5d74e6c..8b7d3fe 100644
--- a/dal/storage/_repository.cpp
+++ b/dal/storage/_repository.cpp
@@ -28,8 +28,8 @@ namespace Dal {
         String_ BaseTag(const Storable_& s) { return TypeTag(s) + s.name_ + "~"; }
         String_ Uniquifier(const Storable_& s) { return String::Uniquifier(&s); }
 
+        // caller must hold the lock
         void EraseByStart(const String_& start) {
-            LOCK_OBJECTS;
             auto pLow = TheObjects().lower_bound(start);
             auto pHigh = pLow;
             while (pHigh != TheObjects().end() && pHigh->first.substr(0, start.size()) == start)
@@ -40,6 +40,8 @@ namespace Dal {
 
     String_ ObjectAccess_::AddBase(const Handle_<Storable_>& s, const RepositoryErase_& erase) const {
         const String_ untickered = BaseTag(*s);
+        // erase and insert under one lock, so that concurrent additions really do replace each other
+        LOCK_OBJECTS;
         switch (erase.Switch()) {
         case RepositoryErase_::Value_::NAME_NONEMPTY:
             if (s->name_.empty())
@@ -56,8 +58,6 @@ namespace Dal {
         case RepositoryErase_::Value_::_N_VALUES:
             break;
         }
-        // call to LOCK_OBJECTS must be after EraseByStart, because that will also acquire the lock
-        LOCK_OBJECTS;
         const String_ retval = untickered + Uniquifier(*s);
         TheObjects().insert(make_pair(retval, s));
         return retval;
-- 
2.43.0


From 50b697523bd0b262b093f419fbb1fb0df5cc9745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:30 +0000
Subject: [PATCH 88/90] fix: setting global dates and storing fixings take the
 store lock

---
 dal/storage/globals.cpp | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/dal/storage/globals.cpp b/dal/storage/globals.cpp
index 2d7401a..c97d33a 100644
--- a/dal/storage/globals.cpp
+++ b/dal/storage/globals.cpp
@@ -58,10 +58,12 @@ namespace Dal {
     void Global::Dates_::SetEvaluationDate(const Date_& date) { XGLOBAL::SetEvaluationDate(date); }
 
     void XGLOBAL::SetAccountingDate(const Date_& when) {
+        LOCK_STORES;
         Global::TheDateStore().Set(ACCOUNTING(), Matrix::M1x1(Cell_(when)));
     }
 
     void XGLOBAL::SetEvaluationDate(const Date_& when) {
+        LOCK_STORES;
         Global::TheDateStore().Set(EVALUATION(), Matrix::M1x1(Cell_(when)));
     }
 
@@ -86,28 +88,34 @@ namespace Dal {
         // static
         std::unique_ptr<Global::Store_>& XTheFixingsStore() { RETURN_STATIC(std::unique_ptr<Global::Store_>); }
         const String_ FIX_PREFIX("FixingsFor:");
+
+        // caller must hold the lock
+        FixHistory_ GetHistory(const String_& index) {
+            const Matrix_<Cell_>& stored = Global::TheFixingsStore().Get(FIX_PREFIX + index);
+            FixHistory_ retval;
+            if (stored.Empty())
+                return retval;
+            assert(stored.Cols() == 2);
+            assert(AllOf(stored.Col(0), Cell::TypeCheck_<DateTime_>()));
+            assert(AllOf(stored.Col(0), Cell::TypeCheck_<double>()));
+            const int n = stored.Rows();
+            retval.vals_.Resize(n);
+            for (int ii = 0; ii < n; ++ii)
+                retval.vals_[ii] = make_pair(Cell::ToDateTime(stored(ii, 0)), Cell::ToDouble(stored(ii, 1)));
+            return retval;
+        }
     } // namespace
 
     FixHistory_ Global::Fixings_::History(const String_& index) {
         LOCK_STORES;
-        const Matrix_<Cell_>& stored = Global::TheFixingsStore().Get(FIX_PREFIX + index);
-        FixHistory_ retval;
-        if (stored.Empty())
-            return retval;
-        assert(stored.Cols() == 2);
-        assert(AllOf(stored.Col(0), Cell::TypeCheck_<DateTime_>()));
-        assert(AllOf(stored.Col(0), Cell::TypeCheck_<double>()));
-        const int n = stored.Rows();
-        retval.vals_.Resize(n);
-        for (int ii = 0; ii < n; ++ii)
-            retval.vals_[ii] = make_pair(Cell::ToDateTime(stored(ii, 0)), Cell::ToDouble(stored(ii, 1)));
-        return retval;
+        return GetHistory(index);
     }
 
     int XGLOBAL::StoreFixings(const String_& index, const FixHistory_& fixings, bool append) {
+        LOCK_STORES;
         std::map<DateTime_, double> all;
         if (append) {
-            const FixHistory_& old = Global::Fixings_().History(index);
+            const FixHistory_& old = GetHistory(index);
             for (const auto& d_f : old.vals_)
                 all[d_f.first] = d_f.second;
         }
-- 
2.43.0


From 1657cf849fa26d7c3a289da9ce7230c988e090c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:31 +0000
Subject: [PATCH 89/90] fix: holiday centres are added and read under one lock

---
 dal/time/holidaydata.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dal/time/holidaydata.cpp b/dal/time/holidaydata.cpp
index 61e697d..3fc0ca2 100644
--- a/dal/time/holidaydata.cpp
+++ b/dal/time/holidaydata.cpp
@@ -32,6 +32,9 @@ namespace Dal {
     namespace {
         HolidayData_& TheHolidayData() { RETURN_STATIC(HolidayData_); }
 
+        std::mutex TheHolidayDataMutex;
+#define LOCK_HOLIDAY_DATA std::lock_guard<std::mutex> l(TheHolidayDataMutex)
+
         HolidayData_ CopyHolidayData() { return TheHolidayData(); }
 
         bool ContainsNoWeekends(const Vector_<Date_>& dates) {
@@ -50,6 +53,7 @@ namespace Dal {
     } // namespace
 
     void Holidays::AddCenter(const String_& city, const Vector_<Date_>& holidays, const Vector_<Date_>& workWeekends) {
+        LOCK_HOLIDAY_DATA;
         REQUIRE(TheHolidayData().IsValid(), "Holiday data is not valid");
         REQUIRE(ContainsNoWeekends(holidays), "Holidays should not contain weekends");
         REQUIRE(ContainsOnlyWeekends(workWeekends), "Can only weekends in special working days");
@@ -62,20 +66,20 @@ namespace Dal {
         temp.centerIndex_[city] = static_cast<int>(temp.holidays_.size());
         temp.holidays_.push_back(Handle_(std::make_shared<const HolidayCenterData_>(city, holidays, workWeekends)));
 
-        static std::mutex mutex;
-        std::lock_guard<std::mutex> l(mutex);
         TheHolidayData().Swap(&temp);
         REQUIRE(TheHolidayData().IsValid(), "Holiday data is not valid");
     }
 
     int Holidays::CenterIndex(const String_& center) {
         NOTICE(center);
+        LOCK_HOLIDAY_DATA;
         auto p = TheHolidayData().centerIndex_.find(center);
         REQUIRE(p != TheHolidayData().centerIndex_.end(), "Invalid holiday center");
         return p->second;
     }
 
     Handle_<HolidayCenterData_> Holidays::OfCenter(int center_index) {
+        LOCK_HOLIDAY_DATA;
         REQUIRE(center_index >= 0 && center_index < TheHolidayData().holidays_.size(), "Invalid holiday center index");
         return TheHolidayData().holidays_[center_index];
     }
-- 
2.43.0


From 49a8c8ca027306904e0219ed9c8e150b83796277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:31 +0000
Subject: [PATCH 90/90] fix: index parsers are looked up and initialised under
 a lock

---
 dal/indice/indexparse.cpp  | 18 ++++++++++++------
 dal/indice/parser/init.cpp |  3 +++
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/dal/indice/indexparse.cpp b/dal/indice/indexparse.cpp
index 2b35294..feb341c 100644
--- a/dal/indice/indexparse.cpp
+++ b/dal/indice/indexparse.cpp
@@ -18,14 +18,23 @@ namespace Dal {
 
         std::map<String_, Index::parser_t>& TheIndexParsers() { RETURN_STATIC(std::map<String_, Index::parser_t>); }
 
+        std::mutex TheParserMutex;
+#define LOCK_PARSERS std::lock_guard<std::mutex> l(TheParserMutex)
+
+        Index::parser_t FindParser(const String_& ac) {
+            LOCK_PARSERS;
+            auto pp = TheIndexParsers().find(ac);
+            return pp == TheIndexParsers().end() ? nullptr : pp->second;
+        }
+
         Index_* ParseSingle(const String_& name) {
             auto stop = name.find_first_of(":[");
             if (stop == String_::npos)
                 return ParseSuperShot(name);
             const String_ ac = name.substr(0, stop);
-            auto pp = TheIndexParsers().find(ac);
-            REQUIRE(pp != TheIndexParsers().end(), "no parser for '" + name + "'");
-            return (*pp->second)(name);
+            auto parser = FindParser(ac); // the lock is not held while parsing
+            REQUIRE(parser, "no parser for '" + name + "'");
+            return (*parser)(name);
         }
 
         // stubbed out, sorry
@@ -38,9 +47,6 @@ namespace Dal {
         return ParseSingle(name);
     }
 
-    std::mutex TheParserMutex;
-#define LOCK_PARSERS std::lock_guard<std::mutex> l(TheParserMutex);
-
     void Index::RegisterParser(const String_& name, Index::parser_t func) {
         LOCK_PARSERS;
         TheIndexParsers().insert(std::make_pair(name, func));
diff --git a/dal/indice/parser/init.cpp b/dal/indice/parser/init.cpp
index 977b31a..3786d58 100644
--- a/dal/indice/parser/init.cpp
+++ b/dal/indice/parser/init.cpp
@@ -2,6 +2,7 @@
 // Created by wegam on 2023/1/24.
 //
 
+#include <mutex>
 #include <dal/platform/platform.hpp>
 #include <dal/platform/strict.hpp>
 #include <dal/indice/parser/init.hpp>
@@ -15,6 +16,8 @@ namespace Dal {
     bool IndexParsers_::init_ = false;
 
     void IndexParsers_::Init() {
+        static std::mutex mutex;
+        std::lock_guard<std::mutex> l(mutex);
         if (!init_) {
             Index::RegisterParser("EQ", Index::EquityParser);
             Index::RegisterParser("FX", Index::FxParser);
-- 
2.43.0

