From 90b3d5a716e22f5dfa7c219eb8a924ae52337e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:12 +0000
Subject: [PATCH 01/45] fix: do not throw when an empty array is validated as
 an object with weak types

---
 include/valijson/validation_visitor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 7b8e7b3..8517140 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1159,7 +1159,7 @@ public:
         const Subschema *additionalPropertiesSubschema =
                 constraint.getAdditionalPropertiesSubschema();
         if (!additionalPropertiesSubschema) {
-            if (propertiesMatched.size() != m_target.getObjectSize()) {
+            if (propertiesMatched.size() != object.size()) {
                 if (m_results) {
                     std::string unwanted;
                     for (const typename AdapterType::ObjectMember m : object) {
-- 
2.43.0


From 912da704b261b3dc08be8028c606870bd863d014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:12 +0000
Subject: [PATCH 02/45] fix: do not throw when an empty object is checked for
 uniqueItems with weak types

---
 include/valijson/validation_visitor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 8517140..8d4f86a 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1365,7 +1365,8 @@ public:
             return true;
         }
 
-        size_t array_size = m_target.getArraySize();
+        const typename AdapterType::Array targetArray = m_target.asArray();
+        const size_t array_size = targetArray.size();
 
         // Empty arrays are always valid
         if (array_size == 0) {
@@ -1374,7 +1375,6 @@ public:
 
         bool validated = true;
 
-        const typename AdapterType::Array targetArray = m_target.asArray();
         const typename AdapterType::Array::const_iterator end = targetArray.end();
 
         typename AdapterType::Array::const_iterator outerItr = targetArray.begin();
-- 
2.43.0


From 4fcbd33f636c5a860c514572430c85b3e6b26da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:12 +0000
Subject: [PATCH 03/45] fix: record an error for every failure when collecting
 results

---
 include/valijson/validation_visitor.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 8d4f86a..561b7a5 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -105,6 +105,9 @@ public:
     bool validateSchema(const Subschema &subschema)
     {
         if (subschema.getAlwaysInvalid()) {
+            if (m_results) {
+                m_results->pushError(m_path, "No value is permitted by schema 'false'.");
+            }
             return false;
         }
 
@@ -892,6 +895,9 @@ public:
         }
 
         if (divisor == 0) {
+            if (m_results) {
+                m_results->pushError(m_path, "Value should be a multiple of " + std::to_string(divisor));
+            }
             return false;
         }
 
@@ -999,6 +1005,10 @@ public:
         const Subschema *subschema = constraint.getSubschema();
         if (!subschema) {
             // Treat nullptr like empty schema
+            if (m_results) {
+                m_results->pushError(m_path,
+                        "Target should not validate against schema specified in 'not' constraint.");
+            }
             return false;
         }
 
@@ -1222,6 +1232,10 @@ public:
                 stringAdapter, m_path, m_strictTypes, m_strictDateTime, nullptr, m_regexesCache);
 
             if (!validator.validateSchema(*constraint.getSubschema())) {
+                if (m_results) {
+                    m_results->pushError(m_path, "Object contains a property name that does not match "
+                            "the schema specified in 'propertyNames' constraint: '" + m.first + "'.");
+                }
                 return false;
             }
         }
-- 
2.43.0


From 89650ee582cf7fc6ab159f499ebff8e221595fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:12 +0000
Subject: [PATCH 04/45] fix: do not report errors for schemas tried by a
 satisfied 'type' constraint

---
 include/valijson/validation_visitor.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 561b7a5..7511439 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1349,9 +1349,14 @@ public:
 
         // Check schema-based types
         {
+            // Errors for individual schemas are not reported, because the
+            // target only needs to match one of them
+            ValidationVisitor<AdapterType, RegexEngine> v(
+                m_target, m_path, m_strictTypes, m_strictDateTime, nullptr, m_regexesCache);
+
             unsigned int numValidated = 0;
             constraint.applyToSchemaTypes(
-                    ValidateSubschemas(m_target, m_path, false, true, *this, nullptr, &numValidated, nullptr));
+                    ValidateSubschemas(m_target, m_path, false, true, v, nullptr, &numValidated, nullptr));
             if (numValidated > 0) {
                 return true;
             } else if (m_results) {
-- 
2.43.0


From 15027a0c4a1adba8a4e2468c23526e38cc63903d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:12 +0000
Subject: [PATCH 05/45] fix: do not throw for dates with an oversized year (RFC
 3339 years have four digits)

---
 include/valijson/validation_visitor.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 7511439..faa0bce 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -415,7 +415,7 @@ public:
         const std::string format = constraint.getFormat();
         if (format == "date") {
             // Matches dates like: 2022-07-18
-            static const internal::regex date_regex("^([0-9]+)-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])$");
+            static const internal::regex date_regex("^([0-9]{4})-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])$");
             internal::smatch matches;
             if (internal::regex_match(s, matches, date_regex)) {
                 const auto year = std::stoi(matches[1].str());
@@ -462,8 +462,8 @@ public:
         } else if (format == "date-time") {
             // Strict mode matches date/times like: 2022-07-18T16:52:45Z, 2022-07-18T16:52:45+02:00
             // Permissive mode also matches date/times like: 2022-07-18T16:52:45
-            static const internal::regex strictRegex("^([0-9]+)-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])[Tt]([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
-            static const internal::regex permissiveRegex("^([0-9]+)-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])[Tt]([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])?|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
+            static const internal::regex strictRegex("^([0-9]{4})-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])[Tt]([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
+            static const internal::regex permissiveRegex("^([0-9]{4})-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])[Tt]([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])?|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
             internal::smatch matches;
             if (internal::regex_match(s, matches, m_strictDateTime ? strictRegex : permissiveRegex)) {
                 const auto year = std::stoi(matches[1].str());
-- 
2.43.0


From 5f1cea03c1842b3867c70d644f4d7a8aaece35d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:12 +0000
Subject: [PATCH 06/45] fix: apply 'additionalItems' only to items beyond those
 covered by 'items'

---
 include/valijson/validation_visitor.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index faa0bce..a5026ec 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -575,6 +575,10 @@ public:
             }
         }
 
+        // Items that failed validation have still been considered, and must not
+        // be validated again using the 'additionalItems' sub-schema
+        numValidated = static_cast<unsigned int>(std::min(arrSize, itemSubschemaCount));
+
         // Validate remaining items using 'additionalItems' sub-schema
         if (numValidated < arrSize) {
             if (additionalItemsSubschema) {
-- 
2.43.0


From a9fd81b6ec463251d1ca5b6647387c3e26003dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:12 +0000
Subject: [PATCH 07/45] fix: do not apply 'multipleOf' to numeric strings when
 using strict types

---
 include/valijson/validation_visitor.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index a5026ec..1a54b45 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -869,6 +869,11 @@ public:
      */
     bool visit(const MultipleOfDoubleConstraint &constraint) override
     {
+        if (m_strictTypes && !m_target.isNumber()) {
+            // Ignore values that are not numbers
+            return true;
+        }
+
         const double divisor = constraint.getDivisor();
 
         double d = 0.;
@@ -943,6 +948,11 @@ public:
      */
     bool visit(const MultipleOfIntConstraint &constraint) override
     {
+        if (m_strictTypes && !m_target.isNumber()) {
+            // Ignore values that are not numbers
+            return true;
+        }
+
         const int64_t divisor = constraint.getDivisor();
 
         int64_t i = 0;
-- 
2.43.0


From df6a3552f3d02328cf6ff20d813987e2566b83f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:12 +0000
Subject: [PATCH 08/45] fix: reject fractional values for integer 'multipleOf',
 and avoid out-of-range casts

---
 include/valijson/validation_visitor.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 1a54b45..3cb8188 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -974,7 +974,7 @@ public:
             // Casting a double outside the range of int64_t is undefined
             // behaviour, so check those values in floating point instead.
             if (d < static_cast<double>(std::numeric_limits<int64_t>::min()) ||
-                    d > static_cast<double>(std::numeric_limits<int64_t>::max())) {
+                    d >= static_cast<double>(std::numeric_limits<int64_t>::max()) || std::isnan(d)) {
                 if (fabs(remainder(d, static_cast<double>(divisor))) >
                         std::numeric_limits<double>::epsilon()) {
                     if (m_results) {
@@ -985,6 +985,12 @@ public:
                 return true;
             }
             i = static_cast<int64_t>(d);
+            if (static_cast<double>(i) != d) {
+                if (m_results) {
+                    m_results->pushError(m_path, "Value should be a multiple of " + std::to_string(divisor));
+                }
+                return false;
+            }
         } else {
             return true;
         }
-- 
2.43.0


From 26f0e026951d141ccd778289c990236b7b618a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:54 +0000
Subject: [PATCH 09/45] fix: compare integers exactly in deep equality, not as
 doubles

---
 include/valijson/internal/basic_adapter.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/valijson/internal/basic_adapter.hpp b/include/valijson/internal/basic_adapter.hpp
index d5368af..22bf877 100644
--- a/include/valijson/internal/basic_adapter.hpp
+++ b/include/valijson/internal/basic_adapter.hpp
@@ -512,6 +512,9 @@ public:
             return other.isNull() || (!strict && other.maybeNull());
         } else if (isBool() || (!strict && maybeBool())) {
             return (other.isBool() || (!strict && other.maybeBool())) && other.asBool() == asBool();
+        } else if (isInteger() && other.isInteger()) {
+            // Converting to double would make distinct large integers equal
+            return other.getInteger() == getInteger();
         } else if (isNumber() && strict) {
             return other.isNumber() && other.getNumber() == getNumber();
         } else if (!strict && maybeDouble()) {
-- 
2.43.0


From fa00d0257b176e0a114943b826dc376b824a1700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:26 +0000
Subject: [PATCH 10/45] fix: treat 2^63 as out of range when casting a double
 to an integer

---
 include/valijson/internal/basic_adapter.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/valijson/internal/basic_adapter.hpp b/include/valijson/internal/basic_adapter.hpp
index 22bf877..7154949 100644
--- a/include/valijson/internal/basic_adapter.hpp
+++ b/include/valijson/internal/basic_adapter.hpp
@@ -98,7 +98,8 @@ protected:
         if (d < static_cast<double>(std::numeric_limits<int64_t>::min())) {
             return false;
         }
-        if (d > static_cast<double>(std::numeric_limits<int64_t>::max())) {
+        // The conversion rounds up to 2^63, which is itself out of range
+        if (d >= static_cast<double>(std::numeric_limits<int64_t>::max())) {
             return false;
         }
         double intPart = 0.0;
-- 
2.43.0


From 4443aded99779716c12536b97f509ee957d33880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:58 +0000
Subject: [PATCH 11/45] fix: convert property names to booleans and numbers by
 their contents

---
 .../valijson/adapters/std_string_adapter.hpp  | 39 +++++++++++++++----
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/include/valijson/adapters/std_string_adapter.hpp b/include/valijson/adapters/std_string_adapter.hpp
index 94dc8aa..bb455a8 100644
--- a/include/valijson/adapters/std_string_adapter.hpp
+++ b/include/valijson/adapters/std_string_adapter.hpp
@@ -117,34 +117,59 @@ public:
 
     bool asBool() const override
     {
-        return true;
+        bool result;
+        if (asBool(result)) {
+            return result;
+        }
+
+        throwRuntimeError("String value cannot be cast to a boolean.");
     }
 
     bool asBool(bool &result) const override
     {
-        result = true;
+        if (!maybeBool()) {
+            return false;
+        }
+
+        result = m_value == "true";
         return true;
     }
 
     double asDouble() const override
     {
-        return 0;
+        double result;
+        if (asDouble(result)) {
+            return result;
+        }
+
+        throwRuntimeError("String value cannot be cast to a double.");
     }
 
     bool asDouble(double &result) const override
     {
-        result = 0;
-        return true;
+        return internal::parseDouble(m_value, result);
     }
 
     int64_t asInteger() const override
     {
-        return 0;
+        int64_t result;
+        if (asInteger(result)) {
+            return result;
+        }
+
+        throwRuntimeError("String value cannot be cast as an integer.");
     }
 
     bool asInteger(int64_t &result) const override
     {
-        result = 0;
+        std::istringstream i(m_value);
+        int64_t x;
+        char c;
+        if (!(i >> x) || i.get(c)) {
+            return false;
+        }
+
+        result = x;
         return true;
     }
 
-- 
2.43.0


From 1e313f263503bb773ea72e072ce78181b9cbf73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:35 +0000
Subject: [PATCH 12/45] fix: report, not throw, that a property name is not of
 another type

---
 .../valijson/adapters/std_string_adapter.hpp  | 32 +++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/valijson/adapters/std_string_adapter.hpp b/include/valijson/adapters/std_string_adapter.hpp
index bb455a8..2a2fa32 100644
--- a/include/valijson/adapters/std_string_adapter.hpp
+++ b/include/valijson/adapters/std_string_adapter.hpp
@@ -195,11 +195,11 @@ public:
 
     bool equalTo(const Adapter &other, bool strict) const override
     {
-        if (strict && !other.isString()) {
-            return false;
+        std::string otherString;
+        if (strict) {
+            return other.getString(otherString) && m_value == otherString;
         }
-
-        return m_value == other.asString();
+        return other.asString(otherString) && m_value == otherString;
     }
 
     FrozenValue* freeze() const override
@@ -217,9 +217,9 @@ public:
         throwNotSupported();
     }
 
-    VALIJSON_NORETURN bool getArraySize(size_t &) const override
+    bool getArraySize(size_t &) const override
     {
-        throwNotSupported();
+        return false;
     }
 
     VALIJSON_NORETURN bool getBool() const override
@@ -227,9 +227,9 @@ public:
         throwNotSupported();
     }
 
-    VALIJSON_NORETURN bool getBool(bool &) const override
+    bool getBool(bool &) const override
     {
-        throwNotSupported();
+        return false;
     }
 
     VALIJSON_NORETURN double getDouble() const override
@@ -237,9 +237,9 @@ public:
         throwNotSupported();
     }
 
-    VALIJSON_NORETURN bool getDouble(double &) const override
+    bool getDouble(double &) const override
     {
-        throwNotSupported();
+        return false;
     }
 
     VALIJSON_NORETURN int64_t getInteger() const override
@@ -247,9 +247,9 @@ public:
         throwNotSupported();
     }
 
-    VALIJSON_NORETURN bool getInteger(int64_t &) const override
+    bool getInteger(int64_t &) const override
     {
-        throwNotSupported();
+        return false;
     }
 
     VALIJSON_NORETURN double getNumber() const override
@@ -257,9 +257,9 @@ public:
         throwNotSupported();
     }
 
-    VALIJSON_NORETURN bool getNumber(double &) const override
+    bool getNumber(double &) const override
     {
-        throwNotSupported();
+        return false;
     }
 
     VALIJSON_NORETURN size_t getObjectSize() const override
@@ -267,9 +267,9 @@ public:
         throwNotSupported();
     }
 
-    VALIJSON_NORETURN bool getObjectSize(size_t &) const override
+    bool getObjectSize(size_t &) const override
     {
-        throwNotSupported();
+        return false;
     }
 
     std::string getString() const override
-- 
2.43.0


From b252fd9a3b800b2f30e1ed6fb23afcc3724b7aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:56 +0000
Subject: [PATCH 13/45] fix: keep embedded null characters in Boost.JSON
 strings

---
 include/valijson/adapters/boost_json_adapter.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/valijson/adapters/boost_json_adapter.hpp b/include/valijson/adapters/boost_json_adapter.hpp
index 2fa5d25..8a80cc8 100644
--- a/include/valijson/adapters/boost_json_adapter.hpp
+++ b/include/valijson/adapters/boost_json_adapter.hpp
@@ -389,7 +389,8 @@ public:
     bool getString(std::string &result) const
     {
         if (m_value.is_string()) {
-            result = m_value.get_string().c_str();
+            const boost::json::string &value = m_value.get_string();
+            result.assign(value.data(), value.size());
             return true;
         }
 
-- 
2.43.0


From 79763610ac94129893b06fc3c54d6c4a5f269d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:56 +0000
Subject: [PATCH 14/45] fix: read 64-bit integers from JsonCpp values without
 throwing

---
 include/valijson/adapters/jsoncpp_adapter.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/valijson/adapters/jsoncpp_adapter.hpp b/include/valijson/adapters/jsoncpp_adapter.hpp
index 4a692a6..6b5ff66 100644
--- a/include/valijson/adapters/jsoncpp_adapter.hpp
+++ b/include/valijson/adapters/jsoncpp_adapter.hpp
@@ -328,7 +328,12 @@ public:
     bool getInteger(int64_t &result) const
     {
         if (m_value.isIntegral()) {
-            result = static_cast<int64_t>(m_value.asInt());
+            // Not asInt(), which throws if the value does not fit in 32 bits
+            if (m_value.isInt64()) {
+                result = static_cast<int64_t>(m_value.asInt64());
+            } else {
+                result = static_cast<int64_t>(m_value.asUInt64());
+            }
             return true;
         }
 
-- 
2.43.0


From b64c24eca1b37cb66e4391c170e80b8ee1fdd6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:56 +0000
Subject: [PATCH 15/45] fix: do not report Poco booleans as numbers, nor throw
 for large integers

---
 include/valijson/adapters/poco_json_adapter.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/valijson/adapters/poco_json_adapter.hpp b/include/valijson/adapters/poco_json_adapter.hpp
index d50017c..c26eee2 100644
--- a/include/valijson/adapters/poco_json_adapter.hpp
+++ b/include/valijson/adapters/poco_json_adapter.hpp
@@ -338,8 +338,13 @@ public:
 
     bool getInteger(int64_t &result) const
     {
-        if (m_value.isInteger()) {
-            result = m_value.convert<int64_t>();
+        if (isInteger()) {
+            // Unsigned values may not fit, in which case convert<int64_t> would throw
+            if (m_value.isSigned()) {
+                result = m_value.convert<int64_t>();
+            } else {
+                result = static_cast<int64_t>(m_value.convert<uint64_t>());
+            }
             return true;
         }
         return false;
@@ -426,7 +431,7 @@ public:
 
     bool isNumber() const
     {
-        return m_value.isNumeric();
+        return !isBool() && m_value.isNumeric();
     }
 
     bool isObject() const
-- 
2.43.0


From 6c3f31e32fed66c50c952751842879ccb32130cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:56 +0000
Subject: [PATCH 16/45] fix: do not dereference a null pointer for empty Poco
 arrays and objects

---
 include/valijson/adapters/poco_json_adapter.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/valijson/adapters/poco_json_adapter.hpp b/include/valijson/adapters/poco_json_adapter.hpp
index c26eee2..4e06d5b 100644
--- a/include/valijson/adapters/poco_json_adapter.hpp
+++ b/include/valijson/adapters/poco_json_adapter.hpp
@@ -110,7 +110,8 @@ private:
     /**
     * @brief   Shared PocoJson value used to represent an empty array.
     */
-    static inline const Poco::Dynamic::Var emptyArray = Poco::JSON::Array::Ptr();
+    static inline const Poco::Dynamic::Var emptyArray =
+        Poco::JSON::Array::Ptr(new Poco::JSON::Array());
 
     /// Contained value
     Poco::Dynamic::Var m_value;
@@ -195,7 +196,8 @@ private:
     /**
     * @brief   Shared PocoJson value used to represent an empty object.
     */
-    static inline const Poco::Dynamic::Var emptyObject = Poco::JSON::Object::Ptr();
+    static inline const Poco::Dynamic::Var emptyObject =
+        Poco::JSON::Object::Ptr(new Poco::JSON::Object());
 
     /// Contained value
     Poco::Dynamic::Var m_value;
@@ -447,7 +449,8 @@ public:
 private:
 
     /// Shared PocoJson value used to represent an empty object
-    static inline const Poco::Dynamic::Var emptyObject = Poco::JSON::Object::Ptr();
+    static inline const Poco::Dynamic::Var emptyObject =
+        Poco::JSON::Object::Ptr(new Poco::JSON::Object());
 
     /// Contained value
     Poco::Dynamic::Var m_value;
-- 
2.43.0


From 5f43d9892fd0ede1d919bb413b91fb65f99a5800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:56 +0000
Subject: [PATCH 17/45] fix: report that fractional Qt numbers are not integers

---
 include/valijson/adapters/qtjson_adapter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/adapters/qtjson_adapter.hpp b/include/valijson/adapters/qtjson_adapter.hpp
index 86d6c1b..a5edc62 100644
--- a/include/valijson/adapters/qtjson_adapter.hpp
+++ b/include/valijson/adapters/qtjson_adapter.hpp
@@ -337,7 +337,7 @@ public:
 
     bool getInteger(int64_t &result) const
     {
-        if (m_value.isDouble()) {
+        if (isInteger()) {
             result = m_value.toInt();
             return true;
         }
-- 
2.43.0


From a0ed638dfa6879d899c77159077bc4eac83a07ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:09 +0000
Subject: [PATCH 18/45] fix: report, not throw, that a YAML scalar is not a
 boolean or number

---
 include/valijson/adapters/yaml_cpp_adapter.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/valijson/adapters/yaml_cpp_adapter.hpp b/include/valijson/adapters/yaml_cpp_adapter.hpp
index ab87272..cc9dac2 100644
--- a/include/valijson/adapters/yaml_cpp_adapter.hpp
+++ b/include/valijson/adapters/yaml_cpp_adapter.hpp
@@ -311,8 +311,7 @@ class YamlCppValue
     bool getBool(bool &result) const
     {
         if (m_value.IsScalar()) {
-            result = m_value.as<bool>();
-            return true;
+            return YAML::convert<bool>::decode(m_value, result);
         }
 
         return false;
@@ -321,8 +320,7 @@ class YamlCppValue
     bool getDouble(double &result) const
     {
         if (m_value.IsScalar()) {
-            result = m_value.as<double>();
-            return true;
+            return YAML::convert<double>::decode(m_value, result);
         }
 
         return false;
@@ -331,8 +329,7 @@ class YamlCppValue
     bool getInteger(int64_t &result) const
     {
         if (m_value.IsScalar()) {
-            result = m_value.as<int64_t>();
-            return true;
+            return YAML::convert<int64_t>::decode(m_value, result);
         }
         return false;
     }
-- 
2.43.0


From cf68c0d0bf94c881a0d64a7595849e870c0e31d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:00 +0000
Subject: [PATCH 19/45] fix: make default-constructed Boost.JSON and Qt
 adapters empty objects, not null

---
 include/valijson/adapters/boost_json_adapter.hpp | 2 +-
 include/valijson/adapters/qtjson_adapter.hpp     | 2 +-
 include/valijson/adapters/qvariant_adapter.hpp   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/valijson/adapters/boost_json_adapter.hpp b/include/valijson/adapters/boost_json_adapter.hpp
index 8a80cc8..1b54811 100644
--- a/include/valijson/adapters/boost_json_adapter.hpp
+++ b/include/valijson/adapters/boost_json_adapter.hpp
@@ -445,7 +445,7 @@ public:
 private:
 
     /// Shared Boost.JSON instance used to represent empty object.
-    static inline const boost::json::value emptyObject;
+    static inline const boost::json::value emptyObject = boost::json::object();
 
     /// Reference to the contained Boost.JSON value.
     const boost::json::value &m_value;
diff --git a/include/valijson/adapters/qtjson_adapter.hpp b/include/valijson/adapters/qtjson_adapter.hpp
index a5edc62..2a5a15c 100644
--- a/include/valijson/adapters/qtjson_adapter.hpp
+++ b/include/valijson/adapters/qtjson_adapter.hpp
@@ -444,7 +444,7 @@ public:
 private:
 
     /// Shared QtJson value instance used to represent an empty object
-    static inline const QJsonValue emptyObject;
+    static inline const QJsonValue emptyObject = QJsonObject();
 
     /// Reference to the contained QtJson value.
     const QJsonValue m_value;
diff --git a/include/valijson/adapters/qvariant_adapter.hpp b/include/valijson/adapters/qvariant_adapter.hpp
index a055555..b4b3d8b 100644
--- a/include/valijson/adapters/qvariant_adapter.hpp
+++ b/include/valijson/adapters/qvariant_adapter.hpp
@@ -463,7 +463,7 @@ public:
 private:
 
     /// Shared QtVariant value instance used to represent an empty object
-    static inline const QVariant emptyObject;
+    static inline const QVariant emptyObject = QVariantMap();
 
     /// Reference to the contained QtVariant value.
     const QVariant m_value;
-- 
2.43.0


From 9a1e25dfb7359a6fa04ec226330e42dfef79e42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:06 +0000
Subject: [PATCH 20/45] fix: compare RapidJSON member names in full, beyond
 embedded null characters

---
 include/valijson/adapters/rapidjson_adapter.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/valijson/adapters/rapidjson_adapter.hpp b/include/valijson/adapters/rapidjson_adapter.hpp
index 5623dab..3b8c4a5 100644
--- a/include/valijson/adapters/rapidjson_adapter.hpp
+++ b/include/valijson/adapters/rapidjson_adapter.hpp
@@ -863,7 +863,7 @@ inline typename GenericRapidJsonObject<ValueType>::iterator
         for (typename ValueType::ConstMemberIterator itr = m_value.MemberBegin(); itr != m_value.MemberEnd(); ++itr) {
             const size_t memberNameLength = itr->name.GetStringLength();
             if (memberNameLength == propertyNameLength &&
-                    strncmp(itr->name.GetString(), propertyName.c_str(), itr->name.GetStringLength()) == 0) {
+                    memcmp(itr->name.GetString(), propertyName.data(), memberNameLength) == 0) {
                 return itr;
             }
         }
@@ -871,7 +871,9 @@ inline typename GenericRapidJsonObject<ValueType>::iterator
         return m_value.MemberEnd();
     }
 
-    return m_value.FindMember(propertyName.c_str());      // Times are good.
+    // Times are good.
+    return m_value.FindMember(ValueType(rapidjson::StringRef(
+            propertyName.data(), static_cast<rapidjson::SizeType>(propertyName.length()))));
 }
 
 typedef GenericRapidJsonAdapter<> RapidJsonAdapter;
-- 
2.43.0


From 3b154feb6a76d3a564431efe2b85adbb27698088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:57 +0000
Subject: [PATCH 21/45] fix: give propertyNames subschemas a path of their own

The path of the enclosing schema was used, so that the registry returned the
enclosing (nested) schema instead of the propertyNames subschema.
---
 include/valijson/schema_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 065730e..f4ff506 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -1110,7 +1110,7 @@ private:
             if (m_version == kDraft7) {
                 rootSchema.addConstraintToSubschema(
                       makePropertyNamesConstraint(rootSchema, rootNode, itr->second, updatedScope,
-                              nodePath, fetchDoc, docCache, schemaRegistry),
+                              nodePath + "/propertyNames", fetchDoc, docCache, schemaRegistry),
                       &subschema);
             } else {
                 throwRuntimeError("Not supported");
-- 
2.43.0


From 057bf8573f54845cd9a20038cd54a37c9cd135e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:30 +0000
Subject: [PATCH 22/45] fix: escape property names and patterns in the paths of
 their subschemas

A name containing '/' could produce the path, and so the registry key, of a
different subschema, which was then used in its place.
---
 include/valijson/schema_parser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index f4ff506..ad268e4 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -2371,7 +2371,7 @@ private:
         if (properties) {
             for (const Member m : properties->getObject()) {
                 const std::string &property = m.first;
-                const std::string childPath = propertiesPath + "/" + property;
+                const std::string childPath = propertiesPath + "/" + escapeJsonPointerToken(property);
                 const Subschema *subschema = makeOrReuseSchema<AdapterType>(
                         rootSchema, rootNode, m.second, currentScope, childPath,
                         fetchDoc, parentSubschema, &property, docCache,
@@ -2384,7 +2384,7 @@ private:
         if (patternProperties) {
             for (const Member m : patternProperties->getObject()) {
                 const std::string &pattern = m.first;
-                const std::string childPath = patternPropertiesPath + "/" + pattern;
+                const std::string childPath = patternPropertiesPath + "/" + escapeJsonPointerToken(pattern);
                 const Subschema *subschema = makeOrReuseSchema<AdapterType>(
                         rootSchema, rootNode, m.second, currentScope, childPath,
                         fetchDoc, parentSubschema, &pattern, docCache,
-- 
2.43.0


From 6913fafe737deee14f25c864790a2a7d41bdc7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:30 +0000
Subject: [PATCH 23/45] fix: detect reference cycles that pass through other
 documents

References into other documents were followed before the check for a cycle,
so a cycle of such references recursed until the stack overflowed.
---
 include/valijson/schema_parser.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index ad268e4..270250b 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -587,6 +587,10 @@ private:
             return registeredPtr;
         }
 
+        if (std::find(newRegistryKeys.begin(), newRegistryKeys.end(), queryKey) != newRegistryKeys.end()) {
+            throwRuntimeError("found cycle while resolving JSON reference");
+        }
+
         if (actualDocumentUri && (!currentScope || *actualDocumentUri != *currentScope)) {
             std::string registeredPath;
             std::optional<std::string> registeredScope;
@@ -666,10 +670,6 @@ private:
 
         }
 
-        if (std::find(newRegistryKeys.begin(), newRegistryKeys.end(), queryKey) != newRegistryKeys.end()) {
-            throwRuntimeError("found cycle while resolving JSON reference");
-        }
-
         // JSON References in nested schema will be resolved relative to the
         // current document
         const AdapterType &referencedAdapter =
-- 
2.43.0


From 642320224c7cf3c32d70e08dd412f1e535cb8c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:55 +0000
Subject: [PATCH 24/45] fix: fetch each remote document once when the root
 schema is a reference

A document referenced by the root schema was fetched without looking in the
document cache; the second copy was not added to the cache, and never freed.
---
 include/valijson/schema_parser.hpp | 93 +++++++++++++++---------------
 1 file changed, 48 insertions(+), 45 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 270250b..88ef888 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -622,36 +622,9 @@ private:
                 return subschema;
             }
 
-            const typename FunctionPtrs<AdapterType>::DocumentType *newDoc = nullptr;
-
-            // Have we seen this document before?
-            typename DocumentCache<AdapterType>::Type::iterator docCacheItr =
-                    docCache.find(*actualDocumentUri);
-            if (docCacheItr == docCache.end()) {
-                // Resolve reference against remote document
-                if (!fetchDoc) {
-                    throwRuntimeError("Fetching of remote JSON References not enabled.");
-                }
-
-                // Returns a pointer to the remote document that was
-                // retrieved, or null if retrieval failed. This class
-                // will take ownership of the pointer, and call freeDoc
-                // when it is no longer needed.
-                newDoc = fetchDoc(*actualDocumentUri);
-
-                // Can't proceed without the remote document
-                if (!newDoc) {
-                    throwRuntimeError("Failed to fetch referenced schema document: " + *actualDocumentUri);
-                }
-
-                typedef typename DocumentCache<AdapterType>::Type::value_type
-                        DocCacheValueType;
-
-                docCache.insert(DocCacheValueType(*actualDocumentUri, newDoc));
-
-            } else {
-                newDoc = docCacheItr->second;
-            }
+            // Resolve reference against remote document
+            const typename FunctionPtrs<AdapterType>::DocumentType *newDoc =
+                    findOrFetchDocument<AdapterType>(*actualDocumentUri, fetchDoc, docCache);
 
             const AdapterType newRootNode(*newDoc);
 
@@ -689,6 +662,49 @@ private:
                 ownName, docCache, schemaRegistry, newRegistryKeys);
     }
 
+    /**
+     * @brief  Find a document in the document cache, or fetch it
+     *
+     * Each document is fetched at most once. The document cache takes ownership
+     * of a document when it is fetched, and the document is freed when the
+     * cache is freed.
+     *
+     * @param  uri       Absolute URI of the document
+     * @param  fetchDoc  Function to fetch remote JSON documents (optional)
+     * @param  docCache  Cache of resolved and fetched remote documents
+     *
+     * @return  pointer to a document, which will not be null
+     */
+    template<typename AdapterType>
+    const typename FunctionPtrs<AdapterType>::DocumentType * findOrFetchDocument(
+        const std::string &uri,
+        const typename FunctionPtrs<AdapterType>::FetchDoc &fetchDoc,
+        typename DocumentCache<AdapterType>::Type &docCache)
+    {
+        // Have we seen this document before?
+        const typename DocumentCache<AdapterType>::Type::const_iterator itr = docCache.find(uri);
+        if (itr != docCache.end()) {
+            return itr->second;
+        }
+
+        if (!fetchDoc) {
+            throwRuntimeError("Fetching of remote JSON References not enabled.");
+        }
+
+        const typename FunctionPtrs<AdapterType>::DocumentType *newDoc = fetchDoc(uri);
+
+        // Can't proceed without the remote document
+        if (!newDoc) {
+            throwRuntimeError("Failed to fetch referenced schema document: " + uri);
+        }
+
+        typedef typename DocumentCache<AdapterType>::Type::value_type DocCacheValueType;
+
+        docCache.insert(DocCacheValueType(uri, newDoc));
+
+        return newDoc;
+    }
+
     /**
      * @brief  Return pointer for the schema corresponding to a given node
      *
@@ -1265,21 +1281,8 @@ private:
             }
 
             // Resolve reference against remote document
-            if (!fetchDoc) {
-                throwRuntimeError("Fetching of remote JSON References not enabled.");
-            }
-
-            const typename DocumentCache<AdapterType>::DocumentType *newDoc = fetchDoc(*actualDocumentUri);
-
-            // Can't proceed without the remote document
-            if (!newDoc) {
-                throwRuntimeError("Failed to fetch referenced schema document: " + *actualDocumentUri);
-            }
-
-            // Add to document cache
-            typedef typename DocumentCache<AdapterType>::Type::value_type DocCacheValueType;
-
-            docCache.insert(DocCacheValueType(*actualDocumentUri, newDoc));
+            const typename FunctionPtrs<AdapterType>::DocumentType *newDoc =
+                    findOrFetchDocument<AdapterType>(*actualDocumentUri, fetchDoc, docCache);
 
             const AdapterType newRootNode(*newDoc);
 
-- 
2.43.0


From 9515f0ef826b7516823e567c644e5514ae96daa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:47 +0000
Subject: [PATCH 25/45] fix: follow references to references within embedded
 schemas

When a reference leads into a schema found by its identifier, and the node it
refers to is itself a reference, that reference was ignored and any value was
accepted.
---
 include/valijson/schema_parser.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 88ef888..ac3d0a0 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -608,6 +608,16 @@ private:
                 if (!actualJsonPointer.empty()) {
                     findScopeForPath(registeredRoot, registeredScope,
                             actualJsonPointer, "", referencedScope);
+
+                    // The referenced node may be another JSON Reference
+                    std::string nestedRef;
+                    if (extractJsonReference(referencedAdapter, nestedRef)) {
+                        newRegistryKeys.push_back(queryKey);
+
+                        return makeOrReuseSchema(rootSchema, registeredRoot, referencedAdapter,
+                                referencedScope, actualJsonPointer, fetchDoc, parentSubschema,
+                                ownName, docCache, schemaRegistry, newRegistryKeys);
+                    }
                 }
 
                 const Subschema *subschema = rootSchema.createSubschema();
-- 
2.43.0


From cf739fb9f1f14a21e514a1f62bbd1247cf74bdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:47 +0000
Subject: [PATCH 26/45] fix: resolve references relative to the embedded schema
 that the root refers to

When the root schema refers to a node within an embedded schema, the identifier
of the embedded schema was not taken into account.
---
 include/valijson/schema_parser.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index ac3d0a0..6e11290 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -1283,8 +1283,14 @@ private:
                         : internal::json_pointer::resolveJsonPointerStrict(
                                 registeredRoot, actualJsonPointer);
 
+                std::optional<std::string> referencedScope = registeredScope;
+                if (!actualJsonPointer.empty()) {
+                    findScopeForPath(registeredRoot, registeredScope,
+                            actualJsonPointer, "", referencedScope);
+                }
+
                 resolveThenPopulateSchema(rootSchema, registeredRoot,
-                        referencedAdapter, subschema, registeredScope,
+                        referencedAdapter, subschema, referencedScope,
                         actualJsonPointer, fetchDoc,
                         parentSchema, ownName, docCache, schemaRegistry);
                 return;
-- 
2.43.0


From 8e2bb1f858af4b194ace90bb7ea354cc5af1a6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 27/45] fix: respect identifiers above a node referenced in a
 fetched document

---
 include/valijson/schema_parser.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 6e11290..9c66fda 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -645,10 +645,18 @@ private:
 
             newRegistryKeys.push_back(queryKey);
 
+            // Identifiers between the new root node and the referenced node
+            // determine the scope of the referenced node
+            std::optional<std::string> referencedScope = actualDocumentUri;
+            if (!actualJsonPointer.empty()) {
+                findScopeForPath(newRootNode, actualDocumentUri,
+                        actualJsonPointer, "", referencedScope);
+            }
+
             // Populate the schema, starting from the referenced node, with
             // nested JSON References resolved relative to the new root node
             return makeOrReuseSchema(rootSchema, newRootNode, referencedAdapter,
-                    actualDocumentUri, actualJsonPointer, fetchDoc, parentSubschema,
+                    referencedScope, actualJsonPointer, fetchDoc, parentSubschema,
                     ownName, docCache, schemaRegistry, newRegistryKeys);
 
         }
@@ -1305,9 +1313,17 @@ private:
             const AdapterType &referencedAdapter =
                 internal::json_pointer::resolveJsonPointerStrict(newRootNode, actualJsonPointer);
 
+            // Identifiers between the new root node and the referenced node
+            // determine the scope of the referenced node
+            std::optional<std::string> referencedScope = actualDocumentUri;
+            if (!actualJsonPointer.empty()) {
+                findScopeForPath(newRootNode, actualDocumentUri,
+                        actualJsonPointer, "", referencedScope);
+            }
+
             // TODO: Need to detect degenerate circular references
             resolveThenPopulateSchema(rootSchema, newRootNode, referencedAdapter,
-                    subschema, actualDocumentUri, actualJsonPointer, fetchDoc,
+                    subschema, referencedScope, actualJsonPointer, fetchDoc,
                     parentSchema, ownName, docCache, schemaRegistry);
 
         } else if (!actualJsonPointer.empty()) {
-- 
2.43.0


From 7788362f4c059758e1411bf6a55c62a0a25dca21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 28/45] fix: reject percent-encoded characters with
 non-hexadecimal digits

---
 include/valijson/internal/json_pointer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/internal/json_pointer.hpp b/include/valijson/internal/json_pointer.hpp
index 98e2576..190d80f 100644
--- a/include/valijson/internal/json_pointer.hpp
+++ b/include/valijson/internal/json_pointer.hpp
@@ -57,7 +57,7 @@ inline char decodePercentEncodedChar(const std::string &digits)
     const char *begin = digits.c_str();
     char *end = nullptr;
     const unsigned long value = strtoul(begin, &end, 16);
-    if (end != begin && *end != '\0') {
+    if (digits.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) {
         throwRuntimeError("Failed to decode %-encoded character '" +
                 digits + "'");
     }
-- 
2.43.0


From 14254bf28aec778c78fa89e1f4d3c6cbb32f3658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 29/45] fix: decode percent-encoded characters before JSON
 Pointer escape sequences

---
 include/valijson/internal/json_pointer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/valijson/internal/json_pointer.hpp b/include/valijson/internal/json_pointer.hpp
index 190d80f..800d06b 100644
--- a/include/valijson/internal/json_pointer.hpp
+++ b/include/valijson/internal/json_pointer.hpp
@@ -98,10 +98,6 @@ inline std::string extractReferenceToken(std::string::const_iterator begin,
 {
     std::string token(begin, end);
 
-    // Replace JSON Pointer-specific escaped character sequences
-    replaceAllInPlace(token, "~1", "/");
-    replaceAllInPlace(token, "~0", "~");
-
     // Replace %-encoded character sequences with their actual characters
     for (size_t n = token.find('%'); n != std::string::npos;
             n = token.find('%', n + 1)) {
@@ -119,6 +115,10 @@ inline std::string extractReferenceToken(std::string::const_iterator begin,
 #endif
     }
 
+    // Replace JSON Pointer-specific escaped character sequences
+    replaceAllInPlace(token, "~1", "/");
+    replaceAllInPlace(token, "~0", "~");
+
     return token;
 }
 
-- 
2.43.0


From 259fefd52cbd670536bd3f00508632da37a9ca63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 30/45] fix: require array indices in JSON Pointers to consist
 of digits

---
 include/valijson/internal/json_pointer.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/valijson/internal/json_pointer.hpp b/include/valijson/internal/json_pointer.hpp
index 800d06b..fd9a171 100644
--- a/include/valijson/internal/json_pointer.hpp
+++ b/include/valijson/internal/json_pointer.hpp
@@ -192,6 +192,13 @@ inline AdapterType resolveJsonPointer(
                     "since the requested array element does not yet exist");
         }
 
+        // Signs, whitespace and trailing characters are not part of an index
+        if (referenceToken.find_first_not_of("0123456789") != std::string::npos) {
+            throwRuntimeError("Expected reference token to contain a "
+                    "non-negative integer to identify an element in the "
+                    "current array; actual token: " + referenceToken);
+        }
+
 #if VALIJSON_USE_EXCEPTIONS
         try {
 #endif
-- 
2.43.0


From 5bdf36863ff307ef19229030130f17e6c4817ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 31/45] fix: encode percent signs in the paths of schema nodes

---
 include/valijson/schema_parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 9c66fda..1cd114d 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -283,6 +283,8 @@ private:
                 result += "~0";
             } else if (c == '/') {
                 result += "~1";
+            } else if (c == '%') {
+                result += "%25";
             } else {
                 result += c;
             }
-- 
2.43.0


From 0275583ce14fac00ef5419f8b2addf00d426816a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:47 +0000
Subject: [PATCH 32/45] fix: separate URI and path in the keys of the schema
 registry

---
 include/valijson/schema_parser.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 1cd114d..9805091 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -405,6 +405,20 @@ private:
         return false;
     }
 
+    /**
+     * @brief  Construct the schema registry key for a path within a document
+     *
+     * @param  scope     URI of the document or resolution scope (optional)
+     * @param  nodePath  JSON Pointer representing path to a node
+     *
+     * @return registry key, in which the URI and path can be told apart
+     */
+    static std::string makeRegistryKey(const std::optional<std::string> &scope,
+            const std::string &nodePath)
+    {
+        return (scope ? *scope : std::string()) + "#" + nodePath;
+    }
+
     /**
      * @brief  Search the schema registry for a schema matching a given key
      *
@@ -505,7 +519,7 @@ private:
 
             // Construct a key that we can use to search the schema registry for
             // a schema corresponding to the current node
-            const std::string schemaRegistryKey = currentScope ? (*currentScope + nodePath) : nodePath;
+            const std::string schemaRegistryKey = makeRegistryKey(currentScope, nodePath);
 
             // Retrieve an existing schema from the registry if possible
             const Subschema *registeredPtr = querySchemaRegistry(schemaRegistry, schemaRegistryKey);
@@ -549,7 +563,7 @@ private:
         const std::optional<std::string> actualDocumentUri = resolveDocumentUri(currentScope, documentUri);
 
         // Construct a key to search the schema registry for an existing schema
-        const std::string queryKey = actualDocumentUri ? (*actualDocumentUri + actualJsonPointer) : actualJsonPointer;
+        const std::string queryKey = makeRegistryKey(actualDocumentUri, actualJsonPointer);
 
         if (!actualJsonPointer.empty() && actualJsonPointer[0] != '/') {
             const std::string idRef = actualDocumentUri ?
-- 
2.43.0


From 9595f5c646c4284b66f649f67801da7b71ad368c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:37 +0000
Subject: [PATCH 33/45] fix: reject infinity and not-a-number as multiples of
 an integer

---
 include/valijson/validation_visitor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 3cb8188..414b7b2 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -975,8 +975,8 @@ public:
             // behaviour, so check those values in floating point instead.
             if (d < static_cast<double>(std::numeric_limits<int64_t>::min()) ||
                     d >= static_cast<double>(std::numeric_limits<int64_t>::max()) || std::isnan(d)) {
-                if (fabs(remainder(d, static_cast<double>(divisor))) >
-                        std::numeric_limits<double>::epsilon()) {
+                if (!(fabs(remainder(d, static_cast<double>(divisor))) <=
+                        std::numeric_limits<double>::epsilon())) {
                     if (m_results) {
                         m_results->pushError(m_path, "Value should be a multiple of " + std::to_string(divisor));
                     }
-- 
2.43.0


From fa0e33c828163e55c9a7187f1119007e65685d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 34/45] fix: keep null characters in property names,
 dependencies and patterns

---
 .../constraints/concrete_constraints.hpp      | 28 +++++++++++--------
 include/valijson/validation_visitor.hpp       | 14 +++++-----
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/include/valijson/constraints/concrete_constraints.hpp b/include/valijson/constraints/concrete_constraints.hpp
index ba13343..dbb0d23 100644
--- a/include/valijson/constraints/concrete_constraints.hpp
+++ b/include/valijson/constraints/concrete_constraints.hpp
@@ -263,14 +263,14 @@ public:
             const StringType &propertyName,
             const StringType &dependencyName)
     {
-        const String key(propertyName.c_str(), m_allocator);
+        const String key(propertyName.c_str(), propertyName.size(), m_allocator);
         auto itr = m_propertyDependencies.find(key);
         if (itr == m_propertyDependencies.end()) {
             itr = m_propertyDependencies.insert(PropertyDependencies::value_type(
                     key, PropertySet(std::less<String>(), m_allocator))).first;
         }
 
-        itr->second.insert(String(dependencyName.c_str(), m_allocator));
+        itr->second.insert(String(dependencyName.c_str(), dependencyName.size(), m_allocator));
 
         return *this;
     }
@@ -280,7 +280,7 @@ public:
             const StringType &propertyName,
             const ContainerType &dependencyNames)
     {
-        const String key(propertyName.c_str(), m_allocator);
+        const String key(propertyName.c_str(), propertyName.size(), m_allocator);
         auto itr = m_propertyDependencies.find(key);
         if (itr == m_propertyDependencies.end()) {
             itr = m_propertyDependencies.insert(PropertyDependencies::value_type(
@@ -289,7 +289,7 @@ public:
 
         typedef typename ContainerType::value_type ValueType;
         for (const ValueType &dependencyName : dependencyNames) {
-            itr->second.insert(String(dependencyName.c_str(), m_allocator));
+            itr->second.insert(String(dependencyName.c_str(), dependencyName.size(), m_allocator));
         }
 
         return *this;
@@ -299,7 +299,7 @@ public:
     DependenciesConstraint & addSchemaDependency(const StringType &propertyName, const Subschema *schemaDependency)
     {
         if (m_schemaDependencies.insert(SchemaDependencies::value_type(
-                String(propertyName.c_str(), m_allocator),
+                String(propertyName.c_str(), propertyName.size(), m_allocator),
                 schemaDependency)).second) {
             return *this;
         }
@@ -913,7 +913,7 @@ public:
     template<typename AllocatorType>
     bool getPattern(std::basic_string<char, std::char_traits<char>, AllocatorType> &result) const
     {
-        result.assign(m_pattern.c_str());
+        result.assign(m_pattern.c_str(), m_pattern.size());
         return true;
     }
 
@@ -921,13 +921,14 @@ public:
     std::basic_string<char, std::char_traits<char>, AllocatorType> getPattern(
             const AllocatorType &alloc = AllocatorType()) const
     {
-        return std::basic_string<char, std::char_traits<char>, AllocatorType>(m_pattern.c_str(), alloc);
+        return std::basic_string<char, std::char_traits<char>, AllocatorType>(m_pattern.c_str(),
+                m_pattern.size(), alloc);
     }
 
     template<typename AllocatorType>
     void setPattern(const std::basic_string<char, std::char_traits<char>, AllocatorType> &pattern)
     {
-        m_pattern.assign(pattern.c_str());
+        m_pattern.assign(pattern.c_str(), pattern.size());
     }
 
 private:
@@ -997,7 +998,9 @@ public:
             std::char_traits<char>, AllocatorType> &patternProperty,
             const Subschema *subschema)
     {
-        return addPatternPropertySubschema(patternProperty.c_str(), subschema);
+        return m_patternProperties.insert(PropertySchemaMap::value_type(
+                String(patternProperty.c_str(), patternProperty.size(), m_allocator),
+                subschema)).second;
     }
 
     bool addPropertySubschema(const char *propertyName,
@@ -1012,7 +1015,9 @@ public:
             std::char_traits<char>, AllocatorType> &propertyName,
             const Subschema *subschema)
     {
-        return addPropertySubschema(propertyName.c_str(), subschema);
+        return m_properties.insert(PropertySchemaMap::value_type(
+                String(propertyName.c_str(), propertyName.size(), m_allocator),
+                subschema)).second;
     }
 
     template<typename FunctorType>
@@ -1107,7 +1112,8 @@ public:
     template<typename AllocatorType>
     bool addRequiredProperty(const std::basic_string<char, std::char_traits<char>, AllocatorType> &propertyName)
     {
-        return addRequiredProperty(propertyName.c_str());
+        return m_requiredProperties.insert(String(propertyName.c_str(),
+                propertyName.size(), Allocator::rebind<char>::other(m_allocator))).second;
     }
 
     template<typename FunctorType>
diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 414b7b2..9d2e68b 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1510,14 +1510,14 @@ private:
         template<typename StringType>
         bool operator()(const StringType &property) const
         {
-            if (m_object.find(property.c_str()) == m_object.end()) {
+            if (m_object.find(std::string(property.c_str(), property.size())) == m_object.end()) {
                 if (m_validated) {
                     *m_validated = false;
                 }
 
                 if (m_results) {
                     m_results->pushError(m_path, "Missing required property '" +
-                            std::string(property.c_str()) + "'.");
+                            std::string(property.c_str(), property.size()) + "'.");
                 }
 
                 return m_continueOnFailure;
@@ -1553,14 +1553,14 @@ private:
         template<typename StringType, typename ContainerType>
         bool operator()(const StringType &propertyName, const ContainerType &dependencyNames) const
         {
-            const std::string propertyNameKey(propertyName.c_str());
+            const std::string propertyNameKey(propertyName.c_str(), propertyName.size());
             if (m_object.find(propertyNameKey) == m_object.end()) {
                 return true;
             }
 
             typedef typename ContainerType::value_type ValueType;
             for (const ValueType &dependencyName : dependencyNames) {
-                const std::string dependencyNameKey(dependencyName.c_str());
+                const std::string dependencyNameKey(dependencyName.c_str(), dependencyName.size());
                 if (m_object.find(dependencyNameKey) == m_object.end()) {
                     if (m_validated) {
                         *m_validated = false;
@@ -1768,7 +1768,7 @@ private:
         template<typename StringType>
         bool operator()(const StringType &patternProperty, const Subschema *subschema) const
         {
-            const std::string patternPropertyStr(patternProperty.c_str());
+            const std::string patternPropertyStr(patternProperty.c_str(), patternProperty.size());
 
             // It would be nice to store pre-allocated regex objects in the
             // PropertiesConstraint. does internal::regex currently support
@@ -1873,7 +1873,7 @@ private:
         template<typename StringType>
         bool operator()(const StringType &propertyName, const Subschema *subschema) const
         {
-            const std::string propertyNameKey(propertyName.c_str());
+            const std::string propertyNameKey(propertyName.c_str(), propertyName.size());
             const typename AdapterType::Object::const_iterator itr = m_object.find(propertyNameKey);
             if (itr == m_object.end()) {
                 return m_continueIfUnmatched;
@@ -1942,7 +1942,7 @@ private:
         template<typename StringType>
         bool operator()(const StringType &propertyName, const Subschema *schemaDependency) const
         {
-            const std::string propertyNameKey(propertyName.c_str());
+            const std::string propertyNameKey(propertyName.c_str(), propertyName.size());
             if (m_object.find(propertyNameKey) == m_object.end()) {
                 return true;
             }
-- 
2.43.0


From bc186ba3974ab07b0b4a2c976726a75f1216dc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 35/45] fix: report nlohmann::json parse errors instead of
 throwing them

---
 include/valijson/utils/nlohmann_json_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/utils/nlohmann_json_utils.hpp b/include/valijson/utils/nlohmann_json_utils.hpp
index 77e5771..793827a 100644
--- a/include/valijson/utils/nlohmann_json_utils.hpp
+++ b/include/valijson/utils/nlohmann_json_utils.hpp
@@ -23,7 +23,7 @@ inline bool loadDocument(const std::string &path, nlohmann::json &document)
 #if VALIJSON_USE_EXCEPTIONS
     try {
         document = nlohmann::json::parse(file);
-    } catch (std::invalid_argument const& exception) {
+    } catch (std::exception const& exception) {
         std::cerr << "nlohmann::json failed to parse the document\n"
             << "Parse error:" << exception.what() << "\n";
         return false;
-- 
2.43.0


From bfcce5e95f17acb510fdcccd3b9416da1b452d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 36/45] fix: do not throw when RapidJSON finds an error near
 the start of a document

---
 include/valijson/utils/rapidjson_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/utils/rapidjson_utils.hpp b/include/valijson/utils/rapidjson_utils.hpp
index 2f90ba9..2a15130 100644
--- a/include/valijson/utils/rapidjson_utils.hpp
+++ b/include/valijson/utils/rapidjson_utils.hpp
@@ -28,7 +28,7 @@ inline bool loadDocument(const std::string &path, rapidjson::GenericDocument<Enc
         if (document.HasParseError()) {
             std::cerr << "RapidJson failed to parse the document:" << std::endl;
             std::cerr << "Parse error: " << document.GetParseError() << std::endl;
-            std::cerr << "Near: " << file.substr((std::max)(size_t(0), document.GetErrorOffset() - 20), 40) << std::endl;
+            std::cerr << "Near: " << file.substr((std::max)(size_t(20), document.GetErrorOffset()) - 20, 40) << std::endl;
             return false;
         }
 #if VALIJSON_USE_EXCEPTIONS
-- 
2.43.0


From f73d6bae68a12fd146d28302e1ef5ec1c94d3406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 37/45] fix: collect the parse error reported for Qt JSON
 documents

---
 include/valijson/utils/qtjson_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/utils/qtjson_utils.hpp b/include/valijson/utils/qtjson_utils.hpp
index c05b0f0..bd0f19a 100644
--- a/include/valijson/utils/qtjson_utils.hpp
+++ b/include/valijson/utils/qtjson_utils.hpp
@@ -24,7 +24,7 @@ inline bool loadDocument(const std::string &path, QJsonValue &root)
 
     // Parse schema
     QJsonParseError parseError;
-    QJsonDocument doc = QJsonDocument::fromJson(data);
+    QJsonDocument doc = QJsonDocument::fromJson(data, &parseError);
     if (doc.isNull()) {
         std::cerr << "qt failed to parse the document:" << std::endl
                   << parseError.errorString().toStdString() << std::endl;
-- 
2.43.0


From f549b29734e9be49e24c59e810e0f3c1213b56b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 38/45] fix: report documents that JsonCpp rejects with an
 exception

---
 include/valijson/utils/jsoncpp_utils.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/valijson/utils/jsoncpp_utils.hpp b/include/valijson/utils/jsoncpp_utils.hpp
index 49a43b6..87dadc5 100644
--- a/include/valijson/utils/jsoncpp_utils.hpp
+++ b/include/valijson/utils/jsoncpp_utils.hpp
@@ -6,6 +6,7 @@
 
 #include <json/json.h>
 
+#include <valijson/exceptions.hpp>
 #include <valijson/utils/file_utils.hpp>
 
 namespace valijson {
@@ -20,14 +21,23 @@ inline bool loadDocument(const std::string &path, Json::Value &document)
         return false;
     }
 
-    const auto fileLength = static_cast<int>(file.length());
     Json::CharReaderBuilder builder;
     const std::unique_ptr<Json::CharReader> reader(builder.newCharReader());
     std::string err;
-    if (!reader->parse(file.c_str(), file.c_str() + fileLength, &document, &err)) {
-        std::cerr << "Jsoncpp parser failed to parse the document:" << std::endl << err;
+#if VALIJSON_USE_EXCEPTIONS
+    try {
+#endif
+        if (!reader->parse(file.c_str(), file.c_str() + file.length(), &document, &err)) {
+            std::cerr << "Jsoncpp parser failed to parse the document:" << std::endl << err;
+            return false;
+        }
+#if VALIJSON_USE_EXCEPTIONS
+    } catch (const std::exception &e) {
+        // e.g. when the document is nested too deeply
+        std::cerr << "Jsoncpp parser failed to parse the document:" << std::endl << e.what();
         return false;
     }
+#endif
     return true;
 }
 
-- 
2.43.0


From 190599232b346f2159f6d8a71c7b21eb5cc47094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:55 +0000
Subject: [PATCH 39/45] fix: report a failed allocation to containers that use
 a custom allocator

---
 include/valijson/internal/custom_allocator.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/valijson/internal/custom_allocator.hpp b/include/valijson/internal/custom_allocator.hpp
index fb34b9f..139ed47 100644
--- a/include/valijson/internal/custom_allocator.hpp
+++ b/include/valijson/internal/custom_allocator.hpp
@@ -2,6 +2,8 @@
 
 #include <limits>
 
+#include <valijson/exceptions.hpp>
+
 namespace valijson {
 namespace internal {
 
@@ -67,7 +69,12 @@ public:
 
     pointer allocate(size_type cnt, const void * = nullptr)
     {
-        return reinterpret_cast<pointer>(m_allocFn(cnt * sizeof(T)));
+        void *ptr = m_allocFn(cnt * sizeof(T));
+        if (!ptr) {
+            throwRuntimeError("Failed to allocate memory for container");
+        }
+
+        return reinterpret_cast<pointer>(ptr);
     }
 
     void deallocate(pointer p, size_type)
-- 
2.43.0


From 4d6ba4bc2d093ee5a08723bf2b2b6db1d4f9739f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:55 +0000
Subject: [PATCH 40/45] fix: do not leak an enum value when adding it to an
 EnumConstraint fails

---
 include/valijson/constraints/concrete_constraints.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/valijson/constraints/concrete_constraints.hpp b/include/valijson/constraints/concrete_constraints.hpp
index dbb0d23..d693b6a 100644
--- a/include/valijson/constraints/concrete_constraints.hpp
+++ b/include/valijson/constraints/concrete_constraints.hpp
@@ -402,13 +402,17 @@ public:
     void addValue(const adapters::Adapter &value)
     {
         // TODO: Freeze value using custom alloc/free functions
-        m_enumValues.push_back(value.freeze());
+        std::unique_ptr<const EnumValue> enumValue(value.freeze());
+        m_enumValues.push_back(enumValue.get());
+        enumValue.release();
     }
 
     void addValue(const adapters::FrozenValue &value)
     {
         // TODO: Clone using custom alloc/free functions
-        m_enumValues.push_back(value.clone());
+        std::unique_ptr<const EnumValue> enumValue(value.clone());
+        m_enumValues.push_back(enumValue.get());
+        enumValue.release();
     }
 
     template<typename FunctorType>
-- 
2.43.0


From 4e1d8cf667bd119713527670a659a6f748de03f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:55 +0000
Subject: [PATCH 41/45] fix: disable copy assignment of EnumConstraint, which
 made two objects delete the same values

---
 include/valijson/constraints/concrete_constraints.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/valijson/constraints/concrete_constraints.hpp b/include/valijson/constraints/concrete_constraints.hpp
index d693b6a..dc2c48b 100644
--- a/include/valijson/constraints/concrete_constraints.hpp
+++ b/include/valijson/constraints/concrete_constraints.hpp
@@ -392,6 +392,9 @@ public:
         }
     }
 
+    // Disable copy assignment
+    EnumConstraint & operator=(const EnumConstraint &) = delete;
+
     ~EnumConstraint() override
     {
         for (const EnumValue *value : m_enumValues) {
-- 
2.43.0


From 0d02a3558263dfac4fa251cfbf3e6f4f92c6996a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:30 +0000
Subject: [PATCH 42/45] fix: keep the trailing slash when a resolved path ends
 in a dot segment

---
 include/valijson/internal/uri.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/valijson/internal/uri.hpp b/include/valijson/internal/uri.hpp
index b030743..d5c16ec 100644
--- a/include/valijson/internal/uri.hpp
+++ b/include/valijson/internal/uri.hpp
@@ -178,6 +178,12 @@ inline std::string resolveRelativeUri(
         normalisedPath += "/";
     }
 
+    // A path that ends in a dot segment refers to a directory
+    if ((segment == "." || segment == "..") && !normalisedPath.empty() &&
+            normalisedPath[normalisedPath.size() - 1] != '/') {
+        normalisedPath += "/";
+    }
+
     // Construct final URI
     return schemeAndAuthority + normalisedPath + suffix;
 }
-- 
2.43.0


From bb1e06e3ff4664181597a9eaf41f2bc2a0474e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:30 +0000
Subject: [PATCH 43/45] fix: keep the query of the base when resolving a
 fragment-only reference

---
 include/valijson/internal/uri.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/valijson/internal/uri.hpp b/include/valijson/internal/uri.hpp
index d5c16ec..df5106a 100644
--- a/include/valijson/internal/uri.hpp
+++ b/include/valijson/internal/uri.hpp
@@ -94,7 +94,9 @@ inline std::string resolveRelativeUri(
 
     // Strip everything after query marker if present (we need both)
     const std::string::size_type baseQueryPos = basePath.find('?');
+    std::string baseQuery;
     if (baseQueryPos != std::string::npos) {
+        baseQuery = basePath.substr(baseQueryPos);
         basePath.erase(baseQueryPos);
     }
 
@@ -102,8 +104,9 @@ inline std::string resolveRelativeUri(
     if (!relativeUri.empty()) {
         // Relative URI is just a fragment OR a query
         if ((relativeUri[0] == '#') || relativeUri[0] == '?') {
-            // Append it to the scheme+authority and clean base path
-            return schemeAndAuthority + basePath + relativeUri;
+            // Append it to the scheme+authority and clean base path. The query
+            // of the base is only replaced by another query
+            return schemeAndAuthority + basePath + (relativeUri[0] == '#' ? baseQuery : "") + relativeUri;
         }
     }
 
-- 
2.43.0


From 0e4a5c932b567ff0db702a3f479325f771999064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:30 +0000
Subject: [PATCH 44/45] fix: end the authority of a base URI at a query or
 fragment

---
 include/valijson/internal/uri.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/valijson/internal/uri.hpp b/include/valijson/internal/uri.hpp
index df5106a..01380ad 100644
--- a/include/valijson/internal/uri.hpp
+++ b/include/valijson/internal/uri.hpp
@@ -69,16 +69,17 @@ inline std::string resolveRelativeUri(
     std::string basePath;
     if (schemeEnd.has_value()) {
         // Extract scheme+authority, e.g. http://userinfo@example.com:8080
-        const auto authorityEnd = resolutionScope.find('/', *schemeEnd);
+        const auto authorityEnd = resolutionScope.find_first_of("/?#", *schemeEnd);
         schemeAndAuthority = resolutionScope.substr(0, authorityEnd);
 
         // Assume path starts immediately after scheme+authority
         const std::string::size_type pathStart = schemeAndAuthority.size();
 
         // Extract base path from resolution scope, or use '/' as default
-        basePath = pathStart < resolutionScope.size()
-                ? resolutionScope.substr(pathStart)
-                : "/";
+        basePath = resolutionScope.substr(pathStart);
+        if (basePath.empty() || basePath[0] != '/') {
+            basePath.insert(0, "/");
+        }
     } else {
         // A relative resolution scope still represents a URI path. Relative
         // references replace its final path segment rather than being appended
-- 
2.43.0


From c7b3fc8583e9629ce8ffc648e0a1a142996b2c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:30 +0000
Subject: [PATCH 45/45] fix: do not take a reference for absolute because of a
 marker in its path, query or fragment

---
 include/valijson/internal/uri.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/valijson/internal/uri.hpp b/include/valijson/internal/uri.hpp
index 01380ad..f5b4c24 100644
--- a/include/valijson/internal/uri.hpp
+++ b/include/valijson/internal/uri.hpp
@@ -20,7 +20,8 @@ inline std::optional<size_t> parseScheme(const std::string &uri)
 
     const auto pos = uri.find(marker);
 
-    return pos == std::string::npos
+    // A marker that follows a path, query or fragment does not end a scheme
+    return pos == std::string::npos || uri.find_first_of("/?#") < pos
         ? std::nullopt
         : std::make_optional<size_t>(pos + 3);
 }
-- 
2.43.0

