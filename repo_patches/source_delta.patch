From 974c3795f573757e1f3d46e88924630ef1633017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:57 +0000
Subject: [PATCH 01/36] fix: out-of-range and empty-value edge cases in list,
 map and string functions

any<-list returned an undefined value or crashed for index 0 and below.
map<-map-keys crashed in Java and C++ for a key that is not in the map.
string-repeat raised in JavaScript and Java for a negative count.
stringlist<-string-split never returned in C++ for an empty delimiter and
dropped trailing empty items in Java.
JavaScript constructors silently dropped empty strings from typed lists and maps.
---
 dist/vxlisp/vx/collection_cpp.txt  |  6 ++++--
 dist/vxlisp/vx/collection_java.txt |  6 ++++--
 dist/vxlisp/vx/core.vxlisp         | 14 +++++++-------
 dist/vxlisp/vx/core_js.txt         |  4 ++--
 dist/vxlisp/vx/type_cpp.txt        |  6 +++++-
 dist/vxlisp/vx/type_java.txt       |  2 +-
 6 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/dist/vxlisp/vx/collection_cpp.txt b/dist/vxlisp/vx/collection_cpp.txt
index bf3bc7c..a9556a2 100644
--- a/dist/vxlisp/vx/collection_cpp.txt
+++ b/dist/vxlisp/vx/collection_cpp.txt
@@ -275,8 +275,10 @@ map<-map-start-end
       vx_core::vx_Type_listany values;
       for (vx_core::Type_string key : keylist) {
         vx_core::Type_any value = map[key->vx_string()];
-        values.push_back(key);
-        values.push_back(value);
+        if (value) {
+          values.push_back(key);
+          values.push_back(value);
+        }
       }
       vx_core::Type_anylist anyvalues = vx_core::vx_new_anylist(values);
       output = vx_core::f_new(generic_map_1, anyvalues);
diff --git a/dist/vxlisp/vx/collection_java.txt b/dist/vxlisp/vx/collection_java.txt
index cbafb18..ed7131f 100644
--- a/dist/vxlisp/vx/collection_java.txt
+++ b/dist/vxlisp/vx/collection_java.txt
@@ -205,8 +205,10 @@
       List<Core.Type_any> values = new ArrayList<>();
       for (Core.Type_string key : keylist) {
         Core.Type_any value = map.get(key.vx_string());
-        values.add(key);
-        values.add(value);
+        if (value != null) {
+          values.add(key);
+          values.add(value);
+        }
       }
       Core.Type_anylist anyvalues = Core.vx_new_anylist(values);
       output = Core.f_new(generic_map_1, anyvalues);
diff --git a/dist/vxlisp/vx/core.vxlisp b/dist/vxlisp/vx/core.vxlisp
index b83dca2..0a70630 100644
--- a/dist/vxlisp/vx/core.vxlisp
+++ b/dist/vxlisp/vx/core.vxlisp
@@ -1552,14 +1552,14 @@
    "long intindex = index->vx_int();
     vx_core::vx_Type_listany listvalue = values->vx_list();
     long intsize = vx_core::vx_int_from_sizet(listvalue.size());
-    if (intindex <= intsize) {
+    if (intindex > 0 && intindex <= intsize) {
       vx_core::Type_any value = listvalue[intindex - 1];
       output = vx_core::vx_any_from_any(generic_any_1, value);
     }"
   :csharp
    "int intindex = index.vx_int();
     int intsize = values.vx_list().Count;
-    if (intindex <= intsize) {
+    if (intindex > 0 && intindex <= intsize) {
       List<Vx.Core.Type_any> listvalue = values.vx_list();
       Vx.Core.Type_any value = listvalue[intindex - 1];
       output = Vx.Core.f_any_from_any(generic_any_1, value);
@@ -1567,19 +1567,19 @@
   :java
    "int intindex = index.vx_int();
     int intsize = values.vx_list().size();
-    if (intindex <= intsize) {
+    if (intindex > 0 && intindex <= intsize) {
       List<Core.Type_any> listvalue = values.vx_list();
       Core.Type_any value = listvalue.get(intindex - 1);
       output = Core.f_any_from_any(generic_any_1, value);
     }"
   :js
-   "if (index <= values.length) {
+   "if (index > 0 && index <= values.length) {
       output = values[index - 1]
     }"
   :kotlin
    "val intindex : Int = index.vx_int()
     val intsize : Int = values.vx_list().size
-    if (intindex <= intsize) {
+    if (intindex > 0 && intindex <= intsize) {
       val listvalue : List<vx_core.Type_any> = values.vx_list()
       val value : vx_core.Type_any = listvalue.get(intindex - 1)
       output = vx_core.f_any_from_any(generic_any_1, value)
@@ -3370,9 +3370,9 @@
   :java
    "String stringtext = text.vx_string();
     int intrepeat = num.vx_int();
-    String stringresult = stringtext.repeat(intrepeat);
+    String stringresult = stringtext.repeat(Math.max(0, intrepeat));
     output = Core.vx_new_string(stringresult);"
-  :js "text.repeat(num)")
+  :js "text.repeat(Math.max(0, num))")
  :test (test "abab" (string-repeat "ab" 2)))
 
 (func string<-any : string
diff --git a/dist/vxlisp/vx/core_js.txt b/dist/vxlisp/vx/core_js.txt
index 5f62151..4de3366 100644
--- a/dist/vxlisp/vx/core_js.txt
+++ b/dist/vxlisp/vx/core_js.txt
@@ -921,7 +921,7 @@
           if (allowany) {
             listvals.push(value)
             isfound = true
-          } else if (vx_core.f_is_empty(value)) {
+          } else if (vx_core.f_is_empty(value) && !allowtypes.includes(valuetype)) {
             isfound = true
           } else if (typedef == valuetype) {
             listvals.push(...value)
@@ -1034,7 +1034,7 @@
               break
             }
           } else {
-            if (vx_core.f_is_empty(value)) {
+            if (vx_core.f_is_empty(value) && !allowtypes.includes(valuetype)) {
               delete propmap[key]
             } else if (allowany) {
               propmap[key] = value
diff --git a/dist/vxlisp/vx/type_cpp.txt b/dist/vxlisp/vx/type_cpp.txt
index 6e63e96..a092385 100644
--- a/dist/vxlisp/vx/type_cpp.txt
+++ b/dist/vxlisp/vx/type_cpp.txt
@@ -162,7 +162,11 @@
     vx_core::vx_Type_listany listany;
     size_t pos = 0;
     std::string stoken;
-    while ((pos = stext.find(sdelim)) != std::string::npos) {
+    while (sdelim == "" && stext.length() > 1) {
+      listany.push_back(vx_core::vx_new_string(stext.substr(0, 1)));
+      stext.erase(0, 1);
+    }
+    while (sdelim != "" && (pos = stext.find(sdelim)) != std::string::npos) {
       stoken = stext.substr(0, pos);
       vx_core::Type_string token = vx_core::vx_new_string(stoken);
       listany.push_back(token);
diff --git a/dist/vxlisp/vx/type_java.txt b/dist/vxlisp/vx/type_java.txt
index 330fd03..9583a22 100644
--- a/dist/vxlisp/vx/type_java.txt
+++ b/dist/vxlisp/vx/type_java.txt
@@ -105,7 +105,7 @@
     Core.Type_stringlist output = Core.e_stringlist;
     String stext = text.vx_string();
     String sdelim = delim.vx_string();
-    Object[] arraystring = stext.split(java.util.regex.Pattern.quote(sdelim));
+    Object[] arraystring = stext.split(java.util.regex.Pattern.quote(sdelim), sdelim.equals("") ? 0 : -1);
     output = Core.vx_new(Core.t_stringlist, arraystring);
     return output;
   }
-- 
2.43.0


From a717375ab979a2ec30b00b3784faf0dbbb018f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:34 +0000
Subject: [PATCH 02/36] fix: keep C++ lambda arguments alive while the lambda
 body runs

A lambda argument used more than once in its body was freed after its first
use, so the generated C++ read freed memory. Lambdas now reserve and release
their arguments the way functions do.
---
 src/vxlisp/lang-cpp.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index f581a86..d9bb82b 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -2750,8 +2750,10 @@ func CppFromValue(
 								case "boolean<-any":
 									returntype = "vx_core::Type_boolean"
 								}
-								work = "" +
+								reservetext, releasetext := CppLambdaReserveFromArgList(arglist, "output_1")
+								work = reservetext +
 									"\n  " + returntype + " output_1 = " + work + ";" +
+									releasetext +
 									"\n  return output_1;"
 								switch funcarg.vxtype.name {
 								case "any<-int", "any<-int-any",
@@ -3953,6 +3955,23 @@ func CppLambdaFromArgList(
 	return lambdatext, lambdavartext, lambdanames
 }
 
+// CppLambdaReserveFromArgList keeps lambda arguments alive while the body runs
+func CppLambdaReserveFromArgList(
+	arglist []vxarg,
+	outputname string) (string, string) {
+	if len(arglist) == 0 {
+		return "", ""
+	}
+	var argnames []string
+	for _, arg := range arglist {
+		argnames = append(argnames, LangFromName(arg.alias))
+	}
+	argtext := vx_core.V_stringn_from_liststringn_joinn(argnames, ", ")
+	reserve := "\n  vx_core::vx_reserve({" + argtext + "});"
+	release := "\n  vx_core::vx_release_one_except({" + argtext + "}, " + outputname + ");"
+	return reserve, release
+}
+
 func CppNameAbstractFullFromConst(
 	lang *vxlang,
 	cnst *vxconst) string {
-- 
2.43.0


From c8b435f5bea310e5ff0219ae0723f0d08ff35ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:48 +0000
Subject: [PATCH 03/36] fix: variadic equality, ordering and subtraction give
 the documented result

(= a b c) was always false, (<= a b c) and (>= a b c) were true for
sequences that are not ordered, and (- a b c) never used the first
number as the starting point.
---
 dist/vxlisp/vx/core.vxlisp | 56 ++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/dist/vxlisp/vx/core.vxlisp b/dist/vxlisp/vx/core.vxlisp
index 0a70630..4e61848 100644
--- a/dist/vxlisp/vx/core.vxlisp
+++ b/dist/vxlisp/vx/core.vxlisp
@@ -966,25 +966,33 @@
 
 (func - : int
  [nums : intlist :...]
- (any<-list-start-reduce
-  nums
-  0
-  (fn : int
-   [total : int
-    num   : int]
-   (- total num)))
+ (switch : int
+  (length nums)
+  (case 1 (- 0 (:1 nums)))
+  (else
+   (any<-list-start-reduce : int
+    nums
+    (* 2 (:1 nums))
+    (fn : int
+     [total : int
+      num   : int]
+     (- total num)))))
  :alias "minus"
  :doc   "Math integer minus")
 
 (func - : number
  [nums : numberlist :...]
- (any<-list-start-reduce
-  nums
-  0
-  (fn : number
-   [total : number
-    num   : number]
-   (- total num)))
+ (switch : number
+  (length nums)
+  (case 1 (- 0 (:1 nums)))
+  (else
+   (any<-list-start-reduce : number
+    nums
+    (* 2 (:1 nums))
+    (fn : number
+     [total : number
+      num   : number]
+     (- total num)))))
  :alias "minus"
  :doc   "Math number minus")
 
@@ -1193,7 +1201,7 @@
  [values : anylist :...]
  (any<-list-start-reduce-next : boolean
   values
-  false
+  true
   (fn : boolean
    [reduce  : boolean
     current : any
@@ -1305,7 +1313,14 @@
 
 (func <= : boolean
  [args : anylist :...]
- (! (> args))
+ (any<-list-start-reduce-next : boolean
+  args
+  true
+  (fn : boolean
+   [reduce  : boolean
+    current : any
+    next    : any]
+   (and reduce (<= current next))))
  :alias "le"
  :test  (test-true (<= "b" "d" "z"))
  :doc   "Returns true if the first arg is less or equal than all of the other args")
@@ -1381,7 +1396,14 @@
 
 (func >= : boolean
  [args : anylist :...]
- (! (< args))
+ (any<-list-start-reduce-next : boolean
+  args
+  true
+  (fn : boolean
+   [reduce  : boolean
+    current : any
+    next    : any]
+   (and reduce (>= current next))))
  :alias "ge"
  :test  (test-true (>= "z" "b" "b"))
  :doc   "Returns true if the first arg is greater or equal than all of the other args")
-- 
2.43.0


From e01cf1596d840da98d6bae382870818ccdff9129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:49 +0000
Subject: [PATCH 04/36] fix: or over a one-element list returns that element

---
 dist/vxlisp/vx/core.vxlisp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dist/vxlisp/vx/core.vxlisp b/dist/vxlisp/vx/core.vxlisp
index 4e61848..d695568 100644
--- a/dist/vxlisp/vx/core.vxlisp
+++ b/dist/vxlisp/vx/core.vxlisp
@@ -968,6 +968,7 @@
  [nums : intlist :...]
  (switch : int
   (length nums)
+  (case 0 0)
   (case 1 (- 0 (:1 nums)))
   (else
    (any<-list-start-reduce : int
@@ -984,6 +985,7 @@
  [nums : numberlist :...]
  (switch : number
   (length nums)
+  (case 0 0)
   (case 1 (- 0 (:1 nums)))
   (else
    (any<-list-start-reduce : number
@@ -3206,14 +3208,13 @@
 
 (func or : boolean
  [values : booleanlist :...]
- (any<-list-start-reduce-next : boolean
+ (any<-list-start-reduce : boolean
   values
   false
   (fn : boolean
    [reduce  : boolean
-    current : boolean
-    next    : boolean]
-   (or reduce (or current next))))
+    current : boolean]
+   (or reduce current)))
  :doc  "Returns true if any value is true"
  :test (test-true (or false true false))
        (test-false (or false false false)))
-- 
2.43.0


From 6da233e05df44e1fedb7db99c56527bbbd8baf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:16 +0000
Subject: [PATCH 05/36] fix: compare keyword text by value in the Java
 find-keyword function

---
 dist/vxlisp/vx/type_java.txt | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dist/vxlisp/vx/type_java.txt b/dist/vxlisp/vx/type_java.txt
index 9583a22..5b04025 100644
--- a/dist/vxlisp/vx/type_java.txt
+++ b/dist/vxlisp/vx/type_java.txt
@@ -13,8 +13,8 @@
   // vx_int_from_string_findkeyword(string, string)
   public static int vx_int_from_string_findkeyword(String text, String find) {
     int output = -1;
-    if (text == "") {
-    } else if (find == ":nonwhitespace") {
+    if (text.equals("")) {
+    } else if (find.equals(":nonwhitespace")) {
       String wschars1 = " \n\r\t";
       int ilen = text.length();
       for (int i = 0; i < ilen; i++) {
@@ -25,7 +25,7 @@
           break;
         }
       }
-    } else if (find == ":whitespace") {
+    } else if (find.equals(":whitespace")) {
       char[] wschars2 = {' ', '\n', '\r', '\t'};
       for (char cchar : wschars2) {
         int pos = text.indexOf(cchar);
-- 
2.43.0


From 9347e6eaad0c66f575fcc1b32e9c0a4885ab51cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:46 +0000
Subject: [PATCH 06/36] fix: order strings and large integers by value in Java
 and C++

Strings were compared in their quoted form, so "a" sorted after "a b".
Integers were compared as single precision floats.
---
 dist/vxlisp/vx/core.vxlisp  |  6 +++++-
 dist/vxlisp/vx/core_cpp.txt | 12 +++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/dist/vxlisp/vx/core.vxlisp b/dist/vxlisp/vx/core.vxlisp
index d695568..76ecd8a 100644
--- a/dist/vxlisp/vx/core.vxlisp
+++ b/dist/vxlisp/vx/core.vxlisp
@@ -1932,7 +1932,11 @@
     output = vx_core::vx_new_int(intresult);"
   :java
    "int intresult = 0;
-    if ((val1 instanceof Core.Type_number) && (val2 instanceof Core.Type_number)) {
+    if ((val1 instanceof Core.Type_int) && (val2 instanceof Core.Type_int)) {
+      intresult = Integer.compare(((Core.Type_int)val1).vx_int(), ((Core.Type_int)val2).vx_int());
+    } else if ((val1 instanceof Core.Type_string) && (val2 instanceof Core.Type_string)) {
+      intresult = Integer.signum(((Core.Type_string)val1).vx_string().compareTo(((Core.Type_string)val2).vx_string()));
+    } else if ((val1 instanceof Core.Type_number) && (val2 instanceof Core.Type_number)) {
       Core.Type_number num1 = (Core.Type_number)val1;
       Core.Type_number num2 = (Core.Type_number)val2;
       float float1 = Core.vx_new(Core.t_float, num1).vx_float();
diff --git a/dist/vxlisp/vx/core_cpp.txt b/dist/vxlisp/vx/core_cpp.txt
index 7969216..1af9953 100644
--- a/dist/vxlisp/vx/core_cpp.txt
+++ b/dist/vxlisp/vx/core_cpp.txt
@@ -1009,7 +1009,17 @@ let-async
     long output = 0;
     vx_core::Type_boolean isnumber1 = vx_core::f_is_number(val1);
     vx_core::Type_boolean isnumber2 = vx_core::f_is_number(val2);
-    if (isnumber1->vx_boolean() && isnumber2->vx_boolean()) {
+    vx_core::Type_any type1 = val1->vx_type();
+    vx_core::Type_any type2 = val2->vx_type();
+    if ((type1 == vx_core::t_int) && (type2 == vx_core::t_int)) {
+      long int1 = vx_core::vx_any_from_any(vx_core::t_int, val1)->vx_int();
+      long int2 = vx_core::vx_any_from_any(vx_core::t_int, val2)->vx_int();
+      output = (int1 > int2) - (int1 < int2);
+    } else if ((type1 == vx_core::t_string) && (type2 == vx_core::t_string)) {
+      int compare = vx_core::vx_any_from_any(vx_core::t_string, val1)->vx_string().compare(
+        vx_core::vx_any_from_any(vx_core::t_string, val2)->vx_string());
+      output = (compare > 0) - (compare < 0);
+    } else if (isnumber1->vx_boolean() && isnumber2->vx_boolean()) {
       vx_core::Type_number num1 = vx_core::vx_any_from_any(
         vx_core::t_number, val1);
       vx_core::Type_number num2 = vx_core::vx_any_from_any(
-- 
2.43.0


From 59a4a902c0ff67a86dc4eb6df7a5b59701e36263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:11 +0000
Subject: [PATCH 07/36] fix: C++ maps built by map functions keep their keys in
 order

Maps made by map<-map and map<-list had values but no key list, so their
length was 0 and their keys were empty. Reducing over a map ignored the
insertion order.
---
 dist/vxlisp/vx/core.vxlisp  |  6 ++++--
 dist/vxlisp/vx/core_cpp.txt | 37 +++++++++++++++++++++++++++++++++----
 src/vxlisp/lang-cpp.go      |  1 +
 3 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/dist/vxlisp/vx/core.vxlisp b/dist/vxlisp/vx/core.vxlisp
index 76ecd8a..bfa2792 100644
--- a/dist/vxlisp/vx/core.vxlisp
+++ b/dist/vxlisp/vx/core.vxlisp
@@ -2915,8 +2915,10 @@
  (native
   :cpp
    "vx_core::vx_Type_listany listany = vallist->vx_list();
-    vx_core::vx_Type_mapany mapany = vx_core::vx_map_from_list(listany, fn_any_from_any);
-    output = vx_core::vx_new_map(generic_map_1, mapany);"
+    std::vector<std::string> keys;
+    vx_core::vx_Type_mapany mapany = vx_core::vx_map_from_list(listany, fn_any_from_any, keys);
+    output = vx_core::vx_new_map(generic_map_1, mapany);
+    vx_core::vx_map_order_keys(output, keys);"
   :java
    "List<Core.Type_any> listval = vallist.vx_list();
     Map<String, Core.Type_any> mapresult = Core.vx_map_from_list_fn(listval, (val) -> {
diff --git a/dist/vxlisp/vx/core_cpp.txt b/dist/vxlisp/vx/core_cpp.txt
index 1af9953..69392ea 100644
--- a/dist/vxlisp/vx/core_cpp.txt
+++ b/dist/vxlisp/vx/core_cpp.txt
@@ -348,7 +348,13 @@ let-async
   // vx_map_from_list(listany, any<-any)
   vx_core::vx_Type_mapany vx_map_from_list(
     vx_core::vx_Type_listany listany,
-    vx_core::Func_any_from_any fn_any_from_any);
+    vx_core::Func_any_from_any fn_any_from_any,
+    std::vector<std::string>& keys);
+
+  // vx_map_order_keys(any, list<string>)
+  void vx_map_order_keys(
+    vx_core::Type_any value,
+    std::vector<std::string> keys);
 
   // vx_map_from_map_fn(generic_map_1, map, fn-any<-key-value)
   vx_core::Type_any vx_map_from_map_fn(
@@ -865,7 +871,8 @@ let-async
   vx_core::Type_any vx_any_from_map_start_reduce(vx_core::Type_any generic_any_1, vx_core::Type_map map, vx_core::Type_any start, vx_core::Func_any_from_any_key_value fn_reduce) {
     vx_core::Type_any output = start;
     std::map<std::string, vx_core::Type_any> mapval = map->vx_map();
-    for (auto const& [skey, value] : mapval) {
+    for (std::string skey : map->vx_p_keys) {
+      vx_core::Type_any value = mapval[skey];
       vx_core::Type_string key = vx_core::vx_new_string(skey);
       output = fn_reduce->vx_any_from_any_key_value(output, key, value);
     }
@@ -1565,7 +1572,8 @@ let-async
   // vx_map_from_list(listany, any<-any)
   vx_core::vx_Type_mapany vx_map_from_list(
     vx_core::vx_Type_listany listany,
-    vx_core::Func_any_from_any fn_any_from_any) {
+    vx_core::Func_any_from_any fn_any_from_any,
+    std::vector<std::string>& keys) {
     vx_core::vx_Type_mapany output;
     for (vx_core::Type_any item : listany) {
       vx_core::Type_any keyany = fn_any_from_any->vx_any_from_any(
@@ -1581,12 +1589,32 @@ let-async
       }
       vx_core::vx_release(keyany);
       if (key != "") {
-        output.insert({key, item});
+        if (output.count(key) == 0) {
+          keys.push_back(key);
+        }
+        output[key] = item;
       }
     }
     return output;
   }
 
+  // vx_map_order_keys(any, list<string>)
+  void vx_map_order_keys(
+    vx_core::Type_any value,
+    std::vector<std::string> keys) {
+    vx_core::Type_map map = vx_core::vx_any_from_any(vx_core::t_map, value);
+    if (map->vx_p_keys.size() > 0) {
+      vx_core::vx_Type_mapany mapval = map->vx_map();
+      std::vector<std::string> orderkeys;
+      for (std::string key : keys) {
+        if (mapval.count(key) > 0) {
+          orderkeys.push_back(key);
+        }
+      }
+      map->vx_p_keys = orderkeys;
+    }
+  }
+
   // vx_map_from_map_fn(generic_map_1, map, fn-any<-key-value)
   vx_core::Type_any vx_map_from_map_fn(
     vx_core::Type_map generic_map_1,
@@ -1621,6 +1649,7 @@ let-async
       output = generic_map_1->vx_new_from_map(
         mapnew
       );
+      vx_core::vx_map_order_keys(output, valuemap->vx_p_keys);
     }
     return output;
   }
diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index d9bb82b..d88f27b 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -2123,6 +2123,7 @@ func CppBodyFromType(
 			"\n        output = " + CppPointerNewFromClassName(fullclassname) + ";" +
 			"\n        output->vx_p_map = map;" +
 			"\n        for (auto const& [key, val] : map) {" +
+			"\n          output->vx_p_keys.push_back(key);" +
 			"\n          vx_core::vx_reserve(val);" +
 			"\n        }" +
 			"\n        if (msgblock != vx_core::e_msgblock) {" +
-- 
2.43.0


From fd6af223c19405fb83383794d057ff661c48488e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:28:07 +0000
Subject: [PATCH 08/36] fix: C++ string case and trim functions handle text of
 any length

They read a fixed number of characters, so longer text was cut off, and
trim looked at memory that was already released.
---
 dist/vxlisp/vx/type_cpp.txt | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dist/vxlisp/vx/type_cpp.txt b/dist/vxlisp/vx/type_cpp.txt
index a092385..7c8a0a8 100644
--- a/dist/vxlisp/vx/type_cpp.txt
+++ b/dist/vxlisp/vx/type_cpp.txt
@@ -130,7 +130,6 @@
   // vx_string_lowercase(string)
   vx_core::Type_string vx_string_lowercase(vx_core::Type_string text) {
     std::string stext = text->vx_string();
-    stext = stext.substr(0, sizeof stext);
     std::transform(stext.begin(), stext.end(), stext.begin(), ::tolower);
     vx_core::Type_string output = vx_core::vx_new_string(stext);
     return output;
@@ -138,8 +137,8 @@
 
   // vx_string_trim(string)
   vx_core::Type_string vx_string_trim(vx_core::Type_string text) {
-    std::string_view stext = text->vx_string();
-    stext = stext.substr(0, sizeof stext);
+    std::string sourcetext = text->vx_string();
+    std::string_view stext = sourcetext;
     stext.remove_prefix(std::min(stext.find_first_not_of(" \t\r\v\n"), stext.size()));
     stext.remove_suffix(std::min(stext.size() - stext.find_last_not_of(" \t\r\v\n") - 1, stext.size()));
     vx_core::Type_string output = vx_core::vx_new_string(static_cast<std::string>(stext));
@@ -149,7 +148,6 @@
   // vx_string_uppercase(string)
   vx_core::Type_string vx_string_uppercase(vx_core::Type_string text) {
     std::string stext = text->vx_string();
-    stext = stext.substr(0, sizeof stext);
     std::transform(stext.begin(), stext.end(), stext.begin(), ::toupper);
     vx_core::Type_string output = vx_core::vx_new_string(stext);
     return output;
-- 
2.43.0


From e52b67beac30dbda3afc4b559e6ca5281fe29adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:29 +0000
Subject: [PATCH 09/36] fix: (:key map) has the map's element type wherever it
 is used

Nested in another call the accessor took its type from the surrounding
call, which crashed in C++ and lost or rejected the value in Java.
---
 src/vxlisp/value.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vxlisp/value.go b/src/vxlisp/value.go
index eeac384..775dba2 100644
--- a/src/vxlisp/value.go
+++ b/src/vxlisp/value.go
@@ -718,6 +718,12 @@ func ValueLink(
 				typearg1 := arg1.value.vxtype
 				switch typearg1.extends {
 				case ":map":
+					if fnc.vxtype.name == "" && !BooleanGenericFromType(typearg1) {
+						allowtype, ok := TypeAllowFromType(typearg1)
+						if ok {
+							fnc.vxtype = allowtype
+						}
+					}
 				case ":struct":
 					fnc.name = "any<-struct"
 					fnc.alias = "any<-struct"
-- 
2.43.0


From b46f5b2fd17ced43beb34f85ec07fd56b78f0ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:25 +0000
Subject: [PATCH 10/36] fix: capture outer variables that are the whole body of
 a let in C++ lambdas

---
 src/vxlisp/lang-cpp.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index d88f27b..885f9b1 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -82,13 +82,7 @@ func ListCaptureFromFunc(
 			case "fn-any":
 				argvalue := arg.value
 				switch argvalue.code {
-				case ":arg":
-					subarg := ArgFromValue(argvalue)
-					outer := LangFromName(subarg.alias)
-					if !vx_core.V_booleann_from_liststringn_containsn(listlocalarg, outer) {
-						listlocalarg = append(listlocalarg, outer)
-					}
-				case ":func":
+				case ":arg", ":func":
 					listmore := ListCaptureFromValue(argvalue, listlocalarg, subpath)
 					for _, outer := range listmore {
 						if !vx_core.V_booleann_from_liststringn_containsn(output, outer) {
-- 
2.43.0


From 0883f7c4b46239c4c085b4eef805ea3a0daa0c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:59 +0000
Subject: [PATCH 11/36] fix: reject an element where a list or map of such
 elements is expected

---
 src/vxlisp/type.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/vxlisp/type.go b/src/vxlisp/type.go
index dbb4640..efd04c6 100644
--- a/src/vxlisp/type.go
+++ b/src/vxlisp/type.go
@@ -444,9 +444,14 @@ func BooleanAllowFromTypeType(
 				pass = true
 			}
 		}
-		for _, allowtype := range typ.allowtypes {
-			if checkname == NameFromType(allowtype) {
-				pass = true
+		switch typ.extends {
+		case ":list", ":map":
+			// the allowed types of a collection are those of its elements
+		default:
+			for _, allowtype := range typ.allowtypes {
+				if checkname == NameFromType(allowtype) {
+					pass = true
+				}
 			}
 		}
 		for _, disallowtype := range typ.disallowtypes {
@@ -582,6 +587,7 @@ func BooleanMatchFromTypeType(
 	default:
 		if pass {
 		} else if !multi && (expectedtype.extends == ":list") {
+		} else if !multi && (expectedtype.extends == ":map") && (actualtype.extends != ":map") {
 		} else if index == 0 && (expectedtype.extends == "") {
 			// first value cannot be within allow types
 		} else {
-- 
2.43.0


From 44ed3750a359c618c88babbfddef175742618e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:28 +0000
Subject: [PATCH 12/36] fix: check the type of a function call used as a
 function's result

---
 src/vxlisp/value.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vxlisp/value.go b/src/vxlisp/value.go
index 775dba2..f4d14b5 100644
--- a/src/vxlisp/value.go
+++ b/src/vxlisp/value.go
@@ -657,7 +657,8 @@ func ValueLink(
 			}
 		}
 		functype := fnc.vxtype
-		if functype.name == "" {
+		istyped := functype.name != ""
+		if !istyped {
 			functype = expectedtype
 		}
 		if functype.name != "" {
@@ -766,7 +767,8 @@ func ValueLink(
 				fnc.textblock = origfunc.textblock
 				fnc.debug = origfunc.debug
 				fnc.argname = origfunc.argname
-				if origfunc.vxtype.name != "" {
+				if origfunc.vxtype.name == "" {
+				} else if istyped || lookupfunc.vxtype.isgeneric {
 					fnc.vxtype = origfunc.vxtype
 				}
 			} else {
-- 
2.43.0


From 0bd5405ee2dc2e3edad22bf51ba8ab7f725a41c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:44 +0000
Subject: [PATCH 13/36] fix: allow comments anywhere whitespace is allowed

---
 src/vxlisp/project.go   |  2 ++
 src/vxlisp/textblock.go | 20 +++++++++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/vxlisp/project.go b/src/vxlisp/project.go
index 0295eec..439f744 100644
--- a/src/vxlisp/project.go
+++ b/src/vxlisp/project.go
@@ -345,6 +345,7 @@ func ProjectReadAllFromPath(
 				msgblock = MsgblockAddBlock(msgblock, msgs)
 				if !msgblock.iserror {
 					textblock, msgs = TextblockParse(textblock)
+					textblock = TextblockRemoveComments(textblock)
 					msgblock = MsgblockAddBlock(msgblock, msgs)
 					if !msgblock.iserror {
 						pkg, msgs := PackageFromTextblock(textblock)
@@ -401,6 +402,7 @@ func ProjectFromTextblock(
 	var foundproject = false
 	var lastword = ""
 	textblock, msgs := TextblockParse(textblock)
+	textblock = TextblockRemoveComments(textblock)
 	msgblock = MsgblockAddBlock(msgblock, msgs)
 	for _, alltextblock := range textblock.listtextblock {
 		wordtextblocks := alltextblock.listtextblock
diff --git a/src/vxlisp/textblock.go b/src/vxlisp/textblock.go
index eb3bf14..5c1f2b4 100644
--- a/src/vxlisp/textblock.go
+++ b/src/vxlisp/textblock.go
@@ -139,7 +139,11 @@ func TextblockParse(textblock *vxtextblock) (*vxtextblock, *vxmsgblock) {
 		switch state {
 		case BLOCKTYPE_UNDEFINED:
 			switch char {
-			case "\n", "\t", " ", "/":
+			case "\n", "\t", " ":
+			case "/":
+				if lastchar == "/" {
+					state = BLOCKTYPE_COMMENT
+				}
 			case "(":
 				blockstack = append(blockstack, phrase)
 				phrase = NewTextblock()
@@ -412,6 +416,20 @@ func TextblockParse(textblock *vxtextblock) (*vxtextblock, *vxmsgblock) {
 	return output, msgblock
 }
 
+// TextblockRemoveComments returns the parsed textblock without its comments
+func TextblockRemoveComments(textblock *vxtextblock) *vxtextblock {
+	var listtextblock []*vxtextblock
+	for _, subtextblock := range textblock.listtextblock {
+		switch subtextblock.blocktype {
+		case "/*", "//":
+		default:
+			listtextblock = append(listtextblock, TextblockRemoveComments(subtextblock))
+		}
+	}
+	textblock.listtextblock = listtextblock
+	return textblock
+}
+
 func TextblocksPop(textblocks []*vxtextblock) (*vxtextblock, []*vxtextblock) {
 	block := textblocks[len(textblocks)-1]
 	blocks := textblocks[:len(textblocks)-1]
-- 
2.43.0


From 68e9d831fd818b8bcd843618b255bd5ddeb40b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:43 +0000
Subject: [PATCH 14/36] fix: report a declaration left open at the end of a
 file

---
 src/vxlisp/textblock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/textblock.go b/src/vxlisp/textblock.go
index 5c1f2b4..ba33d00 100644
--- a/src/vxlisp/textblock.go
+++ b/src/vxlisp/textblock.go
@@ -389,7 +389,7 @@ func TextblockParse(textblock *vxtextblock) (*vxtextblock, *vxmsgblock) {
 		}
 		lastchar = char
 	}
-	for _, stateblock := range blockstack {
+	for _, stateblock := range append(blockstack, phrase) {
 		state = stateblock.blocktype
 		switch state {
 		case BLOCKTYPE_UNDEFINED:
-- 
2.43.0


From a283f28c0216ff373baae92ca4470711df08d590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:46 +0000
Subject: [PATCH 15/36] fix: look for a matching overload in every package of
 the library list

---
 src/vxlisp/scope.go | 39 +++++++++++++--------------------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/src/vxlisp/scope.go b/src/vxlisp/scope.go
index 44bdc4d..a0edd9b 100644
--- a/src/vxlisp/scope.go
+++ b/src/vxlisp/scope.go
@@ -62,37 +62,24 @@ func FuncFromListScope(
 	signature *vxsignature,
 	path string) (*vxfunc, bool) {
 	var fnc *vxfunc
-	var listfunc []*vxfunc
 	var ok = false
 	for _, scope := range listscope {
 		if (pkgname == "") || (scope.pkgname == pkgname) || (scope.pkgshort == pkgname) {
 			mapfunc := scope.mapfunc
-			listfunc, ok = mapfunc[fncname]
-			if ok {
-				if len(listfunc) == 1 {
-					fnc = listfunc[0]
-				} else {
-					var isfound = false
-					for _, lookupfunc := range listfunc {
-						if signature == emptysignature {
-							fnc = lookupfunc
-							isfound = true
-						} else {
-							lookupsignature := SignatureFromFunc(lookupfunc, path)
-							if IsSignatureMatch(lookupsignature, signature, 0, path) {
-								fnc = lookupfunc
-								isfound = true
-							}
-						}
-						if isfound {
-							break
-						}
-					}
-					if !isfound {
-						ok = false
-					}
+			listfunc := mapfunc[fncname]
+			for _, lookupfunc := range listfunc {
+				if signature == emptysignature {
+					return lookupfunc, true
 				}
-				break
+				lookupsignature := SignatureFromFunc(lookupfunc, path)
+				if IsSignatureMatch(lookupsignature, signature, 0, path) {
+					return lookupfunc, true
+				}
+			}
+			if !ok && len(listfunc) == 1 {
+				// a function without overloads reports its own mismatch
+				fnc = listfunc[0]
+				ok = true
 			}
 		}
 	}
-- 
2.43.0


From bac4a80043b33e29fd1ae55c07bd245d305e4151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:23 +0000
Subject: [PATCH 16/36] fix: write C++ trait classes before the types that
 extend them

---
 src/vxlisp/lang-cpp.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 885f9b1..1bf01a8 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -1350,6 +1350,7 @@ func CppFromPackage(
 		}
 	}
 	remainingkeys := ListStringFromListStringNotMatch(typkeys, specialtypeorder)
+	remainingkeys = CppListKeyTraitsFirst(pkg, remainingkeys)
 	for _, typid := range remainingkeys {
 		typ := pkg.maptype[typid]
 		typeheader := CppHeaderFromType(lang, typ)
@@ -4261,6 +4262,32 @@ func CppTestFromFunc(
 	return output, msgblock
 }
 
+// CppListKeyTraitsFirst moves each type behind the traits it extends since
+// a c++ base class must be complete before it can be extended
+func CppListKeyTraitsFirst(
+	pkg *vxpackage,
+	typkeys []string) []string {
+	var output []string
+	waiting := MapStringFromListStringValue(typkeys, "")
+	var add func(typkey string)
+	add = func(typkey string) {
+		_, ok := waiting[typkey]
+		if ok {
+			delete(waiting, typkey)
+			for _, trait := range pkg.maptype[typkey].traits {
+				if trait.pkgname == pkg.name {
+					add(trait.name)
+				}
+			}
+			output = append(output, typkey)
+		}
+	}
+	for _, typkey := range typkeys {
+		add(typkey)
+	}
+	return output
+}
+
 func CppTestFromPackage(
 	lang *vxlang,
 	pkg *vxpackage,
-- 
2.43.0


From e7613918597b538f61a8d209dc442688329f28fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:04 +0000
Subject: [PATCH 17/36] fix: read string literals that end in an escaped
 backslash

---
 src/vxlisp/lang-cpp.go    | 3 +--
 src/vxlisp/lang-native.go | 3 +--
 src/vxlisp/primative.go   | 7 +++++++
 src/vxlisp/textblock.go   | 2 +-
 src/vxlisp/value.go       | 3 ++-
 5 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 1bf01a8..9ee99b4 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -1506,8 +1506,7 @@ func CppFromText(
 	text string) string {
 	var output = text
 	output = strings.ReplaceAll(output, "\n", "\\n")
-	output = strings.ReplaceAll(output, "\\\"", "\\\\\"")
-	output = strings.ReplaceAll(output, "\"", "\\\"")
+	output = strings.NewReplacer("\\\\", "\\\\", "\\\"", "\\\\\\\"", "\"", "\\\"").Replace(output)
 	return output
 }
 
diff --git a/src/vxlisp/lang-native.go b/src/vxlisp/lang-native.go
index c741ed9..79d913f 100644
--- a/src/vxlisp/lang-native.go
+++ b/src/vxlisp/lang-native.go
@@ -659,8 +659,7 @@ func LangNativeFromText(
 	var output = text
 	output = strings.ReplaceAll(output, "\r", "")
 	output = strings.ReplaceAll(output, "\n", "\\n")
-	output = strings.ReplaceAll(output, "\\\"", "\\\\\"")
-	output = strings.ReplaceAll(output, "\"", "\\\"")
+	output = strings.NewReplacer("\\\\", "\\\\", "\\\"", "\\\\\\\"", "\"", "\\\"").Replace(output)
 	switch lang {
 	case langkotlin:
 		output = strings.ReplaceAll(output, "$", "\\$")
diff --git a/src/vxlisp/primative.go b/src/vxlisp/primative.go
index f378cc9..c159279 100644
--- a/src/vxlisp/primative.go
+++ b/src/vxlisp/primative.go
@@ -255,6 +255,13 @@ func StringRemoveQuotes(str string) string {
 	return output
 }
 
+// BooleanEscapedFromString is true when the character after the text is
+// escaped, i.e. when the text ends in an odd number of backslashes
+func BooleanEscapedFromString(text string) bool {
+	trimmed := strings.TrimRight(text, "\\")
+	return (len(text)-len(trimmed))%2 == 1
+}
+
 func StringTrim(str string) string {
 	return strings.TrimSpace(str)
 }
diff --git a/src/vxlisp/textblock.go b/src/vxlisp/textblock.go
index ba33d00..fc3ef86 100644
--- a/src/vxlisp/textblock.go
+++ b/src/vxlisp/textblock.go
@@ -210,7 +210,7 @@ func TextblockParse(textblock *vxtextblock) (*vxtextblock, *vxmsgblock) {
 		case BLOCKTYPE_QUOTE:
 			switch char {
 			case "\"":
-				if lastchar == "\\" {
+				if BooleanEscapedFromString(word) {
 					word += char
 				} else {
 					if vx_core.V_intn_from_stringn_findn(word, "\n") >= 0 {
diff --git a/src/vxlisp/value.go b/src/vxlisp/value.go
index f4d14b5..4ad6a25 100644
--- a/src/vxlisp/value.go
+++ b/src/vxlisp/value.go
@@ -1,6 +1,7 @@
 package vxlisp
 
 import (
+	"strings"
 	vx_core "vxlisp/vxlisp/vx/core"
 )
 
@@ -546,7 +547,7 @@ func ValueFromTextblock(
 	case "\"":
 		text = vx_core.V_stringn_from_stringn_findn_replacen(text, "“", "\"")
 		text = vx_core.V_stringn_from_stringn_findn_replacen(text, "”", "\"")
-		text = vx_core.V_stringn_from_stringn_findn_replacen(text, "\\\"", "\"")
+		text = strings.NewReplacer("\\\\", "\\\\", "\\\"", "\"").Replace(text)
 		output = NewValueFromString("\"" + text + "\"")
 	case "`":
 		output = NewValueFromString("\"" + text + "\"")
-- 
2.43.0


From 16266dd17bd164a79b85ab2649480b7da27bdcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:06 +0000
Subject: [PATCH 18/36] fix: keep quoted text that starts with a colon a string

---
 src/vxlisp/const.go | 2 +-
 src/vxlisp/func.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vxlisp/const.go b/src/vxlisp/const.go
index 0934c73..22e01da 100644
--- a/src/vxlisp/const.go
+++ b/src/vxlisp/const.go
@@ -107,7 +107,7 @@ func ConstFromTextblock(textblock *vxtextblock, pkg *vxpackage) (*vxconst, *vxms
 					cnst.doc = StringRemoveQuotes(word)
 				}
 				lastword = ""
-			} else if strings.HasPrefix(word, ":") && (textblock.blocktype != "\"") {
+			} else if strings.HasPrefix(word, ":") && (wordtextblock.blocktype == "text") {
 				switch word {
 				case ":", ":alias", ":deprecated", ":doc":
 					lastword = word
diff --git a/src/vxlisp/func.go b/src/vxlisp/func.go
index d013427..7cdc040 100644
--- a/src/vxlisp/func.go
+++ b/src/vxlisp/func.go
@@ -513,7 +513,7 @@ func FuncFromTextblock(
 						fnc.sideeffects = StringRemoveQuotes(word)
 					}
 					lastword = ""
-				} else if vx_core.V_booleann_from_stringn_startsn(word, ":") && (textblock.blocktype != "\"") {
+				} else if vx_core.V_booleann_from_stringn_startsn(word, ":") && (wordtextblock.blocktype == "text") {
 					switch word {
 					case ":", ":alias", ":bigospace", ":bigotime", ":clientserver", ":doc", ":deprecated", ":sideeffects":
 						lastword = word
-- 
2.43.0


From f070cc0723aa7159a3433f7b141d43508adef946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:08 +0000
Subject: [PATCH 19/36] fix: give constants of simple, map and expression
 values their value

---
 dist/vxlisp/vx/core.vxlisp | 10 +++++-----
 src/vxlisp/lang-const.go   | 39 +++++++++++++++++++++++++++++++++++++-
 src/vxlisp/lang-cpp.go     | 18 ++++++++++++++----
 src/vxlisp/lang-js.go      |  8 ++++++++
 4 files changed, 65 insertions(+), 10 deletions(-)

diff --git a/dist/vxlisp/vx/core.vxlisp b/dist/vxlisp/vx/core.vxlisp
index bfa2792..55ed445 100644
--- a/dist/vxlisp/vx/core.vxlisp
+++ b/dist/vxlisp/vx/core.vxlisp
@@ -65,7 +65,7 @@
        return vxboolean;
      }"
    :java
-    "protected boolean vxboolean = false;
+    "public boolean vxboolean = false;
 
      @Override
      public boolean vx_boolean() {
@@ -163,7 +163,7 @@
        return vxdecimal;
      }"
    :java
-    "protected String vxdecimal = “0.0”;
+    "public String vxdecimal = “0.0”;
 
      @Override
      public float vx_float() {
@@ -220,7 +220,7 @@
        return vxfloat;
      }"
    :java
-    "protected float vxfloat = 0;
+    "public float vxfloat = 0;
 
      @Override
      public float vx_float() {
@@ -311,7 +311,7 @@
        return vxint;
      }"
    :java
-    "protected int vxint = 0;
+    "public int vxint = 0;
 
      @Override
      public int vx_int() {
@@ -624,7 +624,7 @@
        return vxstring;
      }"
    :java
-    "protected String vxstring = “”;
+    "public String vxstring = “”;
 
      @Override
      public String vx_string() {
diff --git a/src/vxlisp/lang-const.go b/src/vxlisp/lang-const.go
index 3862620..7c73574 100644
--- a/src/vxlisp/lang-const.go
+++ b/src/vxlisp/lang-const.go
@@ -20,6 +20,11 @@ func LangConst(
 			"outval.vx_p_constdef",
 			"constdef()")
 	cnstval := LangConstValFromConst(lang, cnst, project)
+	if cnstval == "" {
+		cnstexpr, msgs := LangFromValue(lang, 3, cnst.value, cnst.pkgname, emptyfunc, true, false, path)
+		msgblock = MsgblockAddBlock(msgblock, msgs)
+		cnstval = LangConstValFromExpr(cnst, cnstexpr, ".")
+	}
 	switch NameFromType(cnsttype) {
 	case "vx/core/boolean":
 		if cnstval == "" {
@@ -47,6 +52,9 @@ func LangConst(
 		}
 		const_new += "\n      outval.vxint = " + cnstval + lang.lineend
 	case "vx/core/string":
+		if cnstval == "" {
+			cnstval = "\"\""
+		}
 		if BooleanFromStringStartsEnds(cnstval, "\"", "\"") {
 			cnstval = cnstval[1 : len(cnstval)-1]
 			cnstval = LangNativeFromText(lang, cnstval)
@@ -85,7 +93,7 @@ func LangConst(
 						"value", clstext) +
 					LangVarSet(lang, 3,
 						"outval.vx_p_map",
-						"val.vx_map"+maptypename+"()")
+						"value.vx_map"+maptypename+"()")
 			}
 		case ":struct":
 			clstext, msgs := LangFromValue(lang, 3, cnst.value, cnst.pkgname, emptyfunc, true, false, path)
@@ -173,6 +181,35 @@ func LangConstValFromConst(
 	return cnstval
 }
 
+// BooleanExprFromConst is true when a constant is defined by an expression
+// instead of a literal
+func BooleanExprFromConst(cnst *vxconst) bool {
+	output := false
+	switch cnst.value.code {
+	case ":const":
+		output = true
+	case ":func":
+		output = FuncFromValue(cnst.value).name != "native"
+	}
+	return output
+}
+
+// LangConstValFromExpr is the native value of a constant that is defined by an
+// expression instead of a literal
+func LangConstValFromExpr(
+	cnst *vxconst,
+	expr string,
+	ref string) string {
+	output := ""
+	if BooleanExprFromConst(cnst) {
+		switch NameFromType(cnst.vxtype) {
+		case "vx/core/boolean", "vx/core/int", "vx/core/string":
+			output = expr + ref + "vx_" + cnst.vxtype.name + "()"
+		}
+	}
+	return output
+}
+
 func LangConstVxConstdef(
 	lang *vxlang,
 	path string,
diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 9ee99b4..cdd3a49 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -471,8 +471,6 @@ func CppFromConst(
 	cnsttype := cnst.vxtype
 	cnstname := LangFromName(cnst.alias)
 	cnstclassname := "Class_" + cnstname
-	cnsttypename := LangNameFromType(
-		lang, cnst.vxtype)
 	cnsttypeclassname := LangNameTypeFullFromType(
 		lang, cnsttype)
 	pkgname := LangPkgName(
@@ -482,6 +480,12 @@ func CppFromConst(
 	initval := ""
 	cnstval := LangConstValFromConst(
 		lang, cnst, project)
+	if cnstval == "" {
+		cnstexpr, msgs := CppFromValue(
+			lang, cnst.value, cnst.pkgname, emptyfunc, 3, true, false, path)
+		msgblock = MsgblockAddBlock(msgblock, msgs)
+		cnstval = LangConstValFromExpr(cnst, cnstexpr, "->")
+	}
 	headerextras := ""
 	switch NameFromType(cnsttype) {
 	case "vx/core/boolean":
@@ -528,6 +532,9 @@ func CppFromConst(
 			"\n      return this->vx_p_int;" +
 			"\n    }"
 	case "vx/core/string":
+		if cnstval == "" {
+			cnstval = "\"\""
+		}
 		if BooleanFromStringStartsEnds(cnstval, "\"", "\"") {
 			cnstval = cnstval[1 : len(cnstval)-1]
 			cnstval = CppFromText(cnstval)
@@ -563,13 +570,16 @@ func CppFromConst(
 			msgblock = MsgblockAddBlock(
 				msgblock, msgs)
 			if clstext != "" {
-				maptypename := cnsttypename
+				allowtype, _ := TypeAllowFromType(cnsttype)
+				maptypename := LangNameFromType(
+					lang, allowtype)
 				if maptypename == "any" {
 					maptypename = ""
 				}
 				cnstval = "" +
 					"\n      " + cnsttypeclassname + " val = " + clstext + ";" +
-					"\n      output->vx_p_map" + maptypename + " = val->vx_map" + maptypename + "();"
+					"\n      output->vx_p_keys = val->vx_p_keys;" +
+					"\n      output->vx_p_map = val->vx_map" + maptypename + "();"
 			}
 		case ":struct":
 			clstext, msgs := CppFromValue(
diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index b3faac2..5ed9801 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -184,11 +184,19 @@ func JsFromConst(
 		switch cnst.vxtype.extends {
 		case ":list":
 			startval = "Object.assign([], " + startval + ")"
+		case ":map":
+			startval = "Object.assign({vx_value: {}}, " + startval + ")"
 		}
 		if value != "\"\"" {
 			properties = append(properties, "Object.assign("+propertyprefix+", "+value+")")
 		}
 	}
+	if startval == value && BooleanExprFromConst(cnst) {
+		// types and functions are not ready before the static block
+		startval = JsEmptyValueFromType(lang, cnsttype)
+		properties = append(properties, propertyprefix+" = "+value)
+		properties = append(properties, "constmap['vx_value'][\""+cnst.name+"\"] = "+propertyprefix)
+	}
 	doc := LangConstDoc(lang, cnst)
 	output := "" +
 		doc +
-- 
2.43.0


From 6fb66937e9fa29f75905c304bdec91017e8f71eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:10 +0000
Subject: [PATCH 20/36] fix: set constants after the constants they refer to

---
 src/vxlisp/const.go | 45 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/vxlisp/const.go b/src/vxlisp/const.go
index 22e01da..9238d8c 100644
--- a/src/vxlisp/const.go
+++ b/src/vxlisp/const.go
@@ -231,7 +231,50 @@ func ListKeyFromMapConst(mapcnst map[string]*vxconst) []string {
 		listkey = append(listkey, id)
 	}
 	sort.Strings(listkey)
-	return listkey
+	return ListKeyConstOrder(mapcnst, listkey)
+}
+
+// ListKeyConstOrder moves each constant behind the constants that its value
+// refers to since values are built in this order
+func ListKeyConstOrder(mapcnst map[string]*vxconst, listkey []string) []string {
+	output := make([]string, 0, len(listkey))
+	done := make(map[string]bool)
+	var add func(key string)
+	add = func(key string) {
+		cnst, ok := mapcnst[key]
+		if ok && !done[key] {
+			done[key] = true
+			for _, subcnst := range ListConstFromValue(cnst.value) {
+				if subcnst.pkgname == cnst.pkgname {
+					add(subcnst.name)
+				}
+			}
+			output = append(output, key)
+		}
+	}
+	for _, key := range listkey {
+		add(key)
+	}
+	return output
+}
+
+// ListConstFromValue lists the constants written in a value
+func ListConstFromValue(value vxvalue) []*vxconst {
+	var output []*vxconst
+	switch value.code {
+	case ":const":
+		output = append(output, ConstFromValue(value))
+	case ":arglist":
+		for _, arg := range ListArgFromValue(value) {
+			output = append(output, ListConstFromValue(arg.value)...)
+		}
+	case ":func":
+		fnc := FuncFromValue(value)
+		for _, arg := range fnc.listarg {
+			output = append(output, ListConstFromValue(arg.value)...)
+		}
+	}
+	return output
 }
 
 func MapConstFromListConst(listconst []*vxconst) map[string]*vxconst {
-- 
2.43.0


From 207a9eb500d0b80dedd79754eb0c77f6ca86b8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:11 +0000
Subject: [PATCH 21/36] fix: keep documentation text inside its comment

---
 src/vxlisp/lang-js.go     | 2 +-
 src/vxlisp/lang-native.go | 8 ++++----
 src/vxlisp/primative.go   | 9 +++++++++
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index 5ed9801..b836c1f 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -603,7 +603,7 @@ func JsFromType(
 		"\n    }"
 	output := "" +
 		"\n  /**" +
-		"\n   * " + StringFromStringIndent(doc, "   * ") +
+		"\n   * " + StringCommentFromString(doc, "   * ") +
 		"\n   */" +
 		"\n  static t_" + typename + " = {}" +
 		"\n  static e_" + typename + " = " + evalue +
diff --git a/src/vxlisp/lang-native.go b/src/vxlisp/lang-native.go
index 79d913f..30a8908 100644
--- a/src/vxlisp/lang-native.go
+++ b/src/vxlisp/lang-native.go
@@ -518,7 +518,7 @@ func LangConstDoc(
 		doc += "{" + cnst.vxtype.name + "}"
 		output = "" +
 			"  /**" +
-			"\n   * " + StringFromStringIndent(doc, "   * ") +
+			"\n   * " + StringCommentFromString(doc, "   * ") +
 			"\n   */"
 	}
 	return output
@@ -971,7 +971,7 @@ func LangFuncDoc(
 			"\n@return {" + fnc.vxtype.name + "}"
 		output = "" +
 			"  /**" +
-			"\n   * " + StringFromStringIndent(doc, "   * ") +
+			"\n   * " + StringCommentFromString(doc, "   * ") +
 			"\n   */"
 	default:
 		switch NameFromFunc(fnc) {
@@ -1011,7 +1011,7 @@ func LangFuncDoc(
 			"\n@return {" + fnc.vxtype.name + "}"
 		output = "" +
 			"  /**" +
-			"\n   * " + StringFromStringIndent(doc, "   * ") +
+			"\n   * " + StringCommentFromString(doc, "   * ") +
 			"\n   * (func " + fnc.name + ")" +
 			"\n   */"
 	}
@@ -3216,7 +3216,7 @@ func LangTypeDoc(
 		}
 		output = "" +
 			"  /**" +
-			"\n   * " + StringFromStringIndent(doc, "   * ") +
+			"\n   * " + StringCommentFromString(doc, "   * ") +
 			"\n   * (type " + typ.name + ")" +
 			"\n   */"
 	}
diff --git a/src/vxlisp/primative.go b/src/vxlisp/primative.go
index c159279..2d19ad4 100644
--- a/src/vxlisp/primative.go
+++ b/src/vxlisp/primative.go
@@ -230,6 +230,15 @@ func StringFromStringIndent(str string, indent string) string {
 	return output
 }
 
+// StringCommentFromString is text that may stand in a block comment, it can
+// neither close the comment nor start a unicode escape
+func StringCommentFromString(str string, indent string) string {
+	output := StringFromStringIndent(str, indent)
+	output = strings.ReplaceAll(output, "*/", "* /")
+	output = strings.ReplaceAll(output, "\\u", "\\ u")
+	return output
+}
+
 func StringFromListString(liststring []string) string {
 	output := ""
 	if len(liststring) > 0 {
-- 
2.43.0


From 81157ef9cc047b6e79c30ebd2e0b9c0cc594b955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:13 +0000
Subject: [PATCH 22/36] fix: do not cut quotes from a single character

---
 src/vxlisp/primative.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vxlisp/primative.go b/src/vxlisp/primative.go
index 2d19ad4..676bedc 100644
--- a/src/vxlisp/primative.go
+++ b/src/vxlisp/primative.go
@@ -253,7 +253,9 @@ func StringOutdentLines(str string, indent string) string {
 
 func StringRemoveQuotes(str string) string {
 	var output = ""
-	if strings.HasPrefix(str, "`") && strings.HasSuffix(str, "`") {
+	if len(str) < 2 {
+		output = str
+	} else if strings.HasPrefix(str, "`") && strings.HasSuffix(str, "`") {
 		output = str[1 : len(str)-1]
 	} else if strings.HasPrefix(str, "\"") && strings.HasSuffix(str, "\"") {
 		output = str[1 : len(str)-1]
-- 
2.43.0


From 2f8af8d58e3bc900d02768703e4a70b3ad11d8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:14 +0000
Subject: [PATCH 23/36] fix: inherit the traits of a trait

---
 src/vxlisp/type.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/vxlisp/type.go b/src/vxlisp/type.go
index efd04c6..3f28574 100644
--- a/src/vxlisp/type.go
+++ b/src/vxlisp/type.go
@@ -439,7 +439,7 @@ func BooleanAllowFromTypeType(
 	checkname := NameFromType(checktype)
 	if checkname != "" {
 		typename := NameFromType(typ)
-		for _, trait := range checktype.traits {
+		for _, trait := range ListTraitFromType(checktype) {
 			if NameFromType(trait) == typename {
 				pass = true
 			}
@@ -675,7 +675,7 @@ func ListPropertyTraitFromType(typ *vxtype) []vxarg {
 	if len(typ.traits) == 0 {
 		output = typ.properties
 	} else {
-		for _, trait := range typ.traits {
+		for _, trait := range ListTraitFromType(typ) {
 			output = append(output, trait.properties...)
 		}
 		output = append(output, typ.properties...)
@@ -683,6 +683,26 @@ func ListPropertyTraitFromType(typ *vxtype) []vxarg {
 	return output
 }
 
+// ListTraitFromType lists the traits of a type including the traits of its
+// traits, each trait once and behind its own traits
+func ListTraitFromType(typ *vxtype) []*vxtype {
+	var output []*vxtype
+	done := map[string]bool{NameFromType(typ): true}
+	var add func(traits []*vxtype)
+	add = func(traits []*vxtype) {
+		for _, trait := range traits {
+			name := NameFromType(trait)
+			if !done[name] {
+				done[name] = true
+				add(trait.traits)
+				output = append(output, trait)
+			}
+		}
+	}
+	add(typ.traits)
+	return output
+}
+
 func ListTypeFromGenericMapType(typmap map[string]*vxtype) []*vxtype {
 	var output []*vxtype
 	keys := make([]string, 0, len(typmap))
-- 
2.43.0


From e82ac8f2f4c2101324ec0c33302ceb8ddcc1c724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:16 +0000
Subject: [PATCH 24/36] fix: compile boolean map types in Java

---
 src/vxlisp/lang-type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/lang-type.go b/src/vxlisp/lang-type.go
index 2240f60..6b5431b 100644
--- a/src/vxlisp/lang-type.go
+++ b/src/vxlisp/lang-type.go
@@ -1944,7 +1944,7 @@ func LangTypeVxCopy(
 				if allowedtypename == allowclass {
 					switch NameFromType(allowedtype) {
 					case "vx/core/boolean":
-						allowedtype = rawbooltype
+						allowedtype = rawbooleantype
 						castval = LangFuncCallVariadicVx(lang, 6,
 							func_new,
 							[]string{
-- 
2.43.0


From a13694e6e92e0e642aa432e55b6787c8cf8986a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:18 +0000
Subject: [PATCH 25/36] fix: copy into a default list property of any name in
 C++

---
 src/vxlisp/lang-cpp.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index cdd3a49..29cdbfb 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -2344,10 +2344,10 @@ func CppBodyFromType(
 						defaultkey += "" +
 							"\n          } else if (valsubtype == " + subargttype + ") { // default property" +
 							"\n            ischanged = true;" +
-							"\n            vx_p_nodes = vx_core::vx_copy(vx_p_nodes, {valsub});" +
+							"\n            vx_p_" + lastargname + " = vx_core::vx_copy(vx_p_" + lastargname + ", {valsub});" +
 							"\n          } else if (vx_core::vx_boolean_from_type_trait(valsubtype, " + subargttype + ")) { // default property" +
 							"\n            ischanged = true;" +
-							"\n            vx_p_nodes = vx_core::vx_copy(vx_p_nodes, {valsub});"
+							"\n            vx_p_" + lastargname + " = vx_core::vx_copy(vx_p_" + lastargname + ", {valsub});"
 					}
 				}
 			}
-- 
2.43.0


From 2fb040b131cab73020d599a7aabcb56c97ea6ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:37:45 +0000
Subject: [PATCH 26/36] fix: read a struct property by a computed key in Java
 and C++

---
 src/vxlisp/lang-cpp.go  | 2 ++
 src/vxlisp/lang-func.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 29cdbfb..2060b1e 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -2673,6 +2673,8 @@ func CppFromValue(
 						work = work + "->" + LangFromName(propname) + "()"
 						argtexts = append(argtexts, work)
 						isskip = true
+					default:
+						output += LangPkgName(lang, fnc.pkgname) + lang.pkgref + "f_" + LangFuncName(fnc) + "("
 					}
 				default:
 					output += LangPkgName(lang, fnc.pkgname) + lang.pkgref + "f_" + LangFuncName(fnc) + "("
diff --git a/src/vxlisp/lang-func.go b/src/vxlisp/lang-func.go
index 8f13fc0..5c724bf 100644
--- a/src/vxlisp/lang-func.go
+++ b/src/vxlisp/lang-func.go
@@ -820,6 +820,8 @@ func LangFuncValue(
 					LangFromName(propname))
 				//				listargtext = append(listargtext, work)
 				//				isskip = true
+			default:
+				funcprefix = "f"
 			}
 		case "vx/core/fn":
 		case "vx/core/let":
-- 
2.43.0


From 3329370f03f55595d327211acf3f40dd9a7c0584 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 05:12:08 +0000
Subject: [PATCH 27/36] fix: count Big-O coverage in the JavaScript test suite

---
 src/vxlisp/lang-js.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index b836c1f..b6f9794 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -1116,6 +1116,14 @@ func JsTestFromPackage(
 				if fnc.doc != "" {
 					coverdoccnt += 1
 				}
+				coverbigospacetotal += 1
+				if fnc.bigospace != "" {
+					coverbigospacecnt += 1
+				}
+				coverbigotimetotal += 1
+				if fnc.bigotime != "" {
+					coverbigotimecnt += 1
+				}
 			}
 		}
 		if isfound {
-- 
2.43.0


From 7094ae75e8d04738082d934308b22a4a981b1c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:00:01 +0000
Subject: [PATCH 28/36] fix: count each overload in the function coverage total
 of JavaScript and C++

---
 src/vxlisp/lang-cpp.go | 2 +-
 src/vxlisp/lang-js.go  | 6 +-----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 2060b1e..172b573 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -4378,9 +4378,9 @@ func CppTestFromPackage(
 	funcheaders := ""
 	functexts := ""
 	for _, fncid := range fnckeys {
-		coverfunctotal += 1
 		fncs := pkg.mapfunc[fncid]
 		for _, fnc := range fncs {
+			coverfunctotal += 1
 			test, msgs := CppTestFromFunc(lang, fnc)
 			msgblock = MsgblockAddBlock(msgblock, msgs)
 			msgblock = MsgblockAddBlock(msgblock, msgs)
diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index b6f9794..20629b4 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -1092,13 +1092,12 @@ func JsTestFromPackage(
 	coverfunctotal := 0
 	fnckeys := ListKeyFromMapFunc(pkg.mapfunc)
 	for _, fncid := range fnckeys {
-		isfound := false
 		fncs := pkg.mapfunc[fncid]
 		for _, fnc := range fncs {
 			switch fnc.clientserver {
 			case ":server":
 			default:
-				isfound = true
+				coverfunctotal += 1
 				test, msgs := JsTestFromFunc(lang, fnc)
 				msgblock = MsgblockAddBlock(msgblock, msgs)
 				msgblock = MsgblockAddBlock(msgblock, msgs)
@@ -1126,9 +1125,6 @@ func JsTestFromPackage(
 				}
 			}
 		}
-		if isfound {
-			coverfunctotal += 1
-		}
 	}
 	coverbigospacepct := 100
 	if coverbigospacetotal > 0 {
-- 
2.43.0


From 70272ba20c9990571183c752d747d2c18394fb5c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 05:16:45 +0000
Subject: [PATCH 29/36] fix: compare primitive constants by value in C++

---
 dist/vxlisp/vx/core_cpp.txt | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dist/vxlisp/vx/core_cpp.txt b/dist/vxlisp/vx/core_cpp.txt
index 69392ea..d9b1d98 100644
--- a/dist/vxlisp/vx/core_cpp.txt
+++ b/dist/vxlisp/vx/core_cpp.txt
@@ -2104,7 +2104,11 @@ let-async
       if (pkgname != "vx/core") {
         typedefname = pkgname + "/" + typedefname;
       }
-      if (constdef != nullptr) {
+      bool isprimitive = type == vx_core::t_boolean || type == vx_core::t_decimal
+        || type == vx_core::t_float || type == vx_core::t_int || type == vx_core::t_string;
+      bool isnamedint = value == vx_core::c_infinity || value == vx_core::c_neginfinity
+        || value == vx_core::c_notanumber;
+      if (constdef != nullptr && (!isprimitive || isnamedint)) {
         text = constdef->name()->vx_string();
         pkgname = constdef->pkgname()->vx_string();
         if (pkgname != "vx/core") {
-- 
2.43.0


From bfb43da1604083026de028821ae6d6f9494ee693 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 05:24:37 +0000
Subject: [PATCH 30/36] fix: generate a working application when main or
 context is not given

---
 src/vxlisp/lang-cpp.go | 9 +++++----
 src/vxlisp/lang-js.go  | 2 +-
 src/vxlisp/lang.go     | 7 ++-----
 3 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 172b573..31c75e0 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -4697,11 +4697,12 @@ func CppApp(
 		PackageCoreFromProject(project),
 		imports)
 	contexttext := `
-    vx_core::Type_context context = vx_core::f_context_main(arglist);`
+    context = vx_core::f_context_main(arglist);
+    vx_core::vx_reserve_context(context);`
 	maintext := `
-    vx_core::Type_string output = vx_core::f_main(arglist);
-		std::cout << output->vx_string();
-		vx_core::vx_release(output);`
+    vx_core::Type_string mainstring = vx_core::f_main(arglist);
+    soutput = mainstring->vx_string();
+    vx_core::vx_release(mainstring);`
 	if cmd.context == "" && cmd.main == "" {
 	} else {
 		contextfunc := FuncFromProjectFuncname(project, cmd.context)
diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index 20629b4..5da0ab5 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -1348,7 +1348,7 @@ func JsApp(
 	contexttext := `
     const context = vx_core.f_context_main(arglist)`
 	maintext := `
-    const output = vx_core::f_main(arglist)`
+    const output = vx_core.f_main(...arglist)`
 	if cmd.context == "" && cmd.main == "" {
 	} else {
 		contextfunc := FuncFromProjectFuncname(project, cmd.context)
diff --git a/src/vxlisp/lang.go b/src/vxlisp/lang.go
index 77cadb3..2d3a99f 100644
--- a/src/vxlisp/lang.go
+++ b/src/vxlisp/lang.go
@@ -844,11 +844,8 @@ func LangApp(
 		LangPkgNameDot(lang, "vx/core")+"f_context_main(arglist)")
 	maintext := "" +
 		LangVal(lang, 3, stringtype,
-			"mainval",
-			LangPkgNameDot(lang, "vx/core")+"f_main(arglist)") +
-		LangVarSet(lang, 3,
-			"output",
-			"mainval.vx_string()")
+			"mainstring",
+			LangPkgNameDot(lang, "vx/core")+"f_main(arglist)")
 	if cmd.context == "" && cmd.main == "" {
 	} else {
 		contextfunc := FuncFromProjectFuncname(project, cmd.context)
-- 
2.43.0


From 62a9f93a6d7bc9c7c7163fab66e99dfe414ac77a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 05:40:14 +0000
Subject: [PATCH 31/36] fix: make valid identifiers of function literal and
 variadic argument names

---
 src/vxlisp/lang-func.go   | 4 ++--
 src/vxlisp/lang-js.go     | 6 +++---
 src/vxlisp/lang-native.go | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vxlisp/lang-func.go b/src/vxlisp/lang-func.go
index 5c724bf..089bd6a 100644
--- a/src/vxlisp/lang-func.go
+++ b/src/vxlisp/lang-func.go
@@ -967,11 +967,11 @@ func LangFuncValueArgIndex(
 					argtype := lambdaarg.vxtype
 					lambdavar :=
 						LangVal(lang, indent+2, argtype,
-							lambdaarg.name,
+							LangFromName(lambdaarg.name),
 							LangFuncCallF(lang, indent+2,
 								func_any_from_any,
 								LangTypeT(lang, argtype),
-								lambdaarg.name+"_any"))
+								LangFromName(lambdaarg.name)+"_any"))
 					lambdavars = append(lambdavars, lambdavar)
 				}
 				slambdaargs := vx_core.V_stringn_from_liststringn_joinn(lambdaargs, ", ")
diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index 5da0ab5..2df5afa 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -293,7 +293,7 @@ func JsFromFunc(
 	if fnc.debug {
 		logheader += lineindent + "console.log(\"" + fnc.name + "\", \"start\""
 		for _, arg := range fnc.listarg {
-			logheader += ", \"" + arg.name + "=\", " + arg.alias
+			logheader += ", \"" + arg.name + "=\", " + LangFromName(arg.alias)
 		}
 		logheader += ")\n"
 		logfooter = lineindent + "console.log(\"" + fnc.name + "\", \"end\", output)"
@@ -317,7 +317,7 @@ func JsFromFunc(
 		}
 		for _, arg := range fnc.listarg {
 			if arg.multi {
-				defaultvalue += lineindent + arg.alias + " = vx_core.f_new_from_type(" + LangTypeTGeneric(lang, arg.vxtype) + ", ..." + arg.alias + ")"
+				defaultvalue += lineindent + LangFromName(arg.alias) + " = vx_core.f_new_from_type(" + LangTypeTGeneric(lang, arg.vxtype) + ", ..." + LangFromName(arg.alias) + ")"
 			}
 		}
 	}
@@ -718,7 +718,7 @@ func JsFromValue(
 						var lambdaargs []string
 						arglist := ListArgLocalFromFunc(argfunc)
 						for _, lambdaarg := range arglist {
-							lambdaargs = append(lambdaargs, lambdaarg.name)
+							lambdaargs = append(lambdaargs, LangFromName(lambdaarg.name))
 						}
 						lambdatext := strings.Join(lambdaargs, ", ")
 						work, msgs := JsFromValue(lang, argvalue, pkgname, fnc, 0, true, test, argsubpath)
diff --git a/src/vxlisp/lang-native.go b/src/vxlisp/lang-native.go
index 30a8908..1b7dd21 100644
--- a/src/vxlisp/lang-native.go
+++ b/src/vxlisp/lang-native.go
@@ -1343,7 +1343,7 @@ func LangFuncLambdaArgAny(
 func LangFuncLambdaArgName(
 	lang *vxlang,
 	lambdaarg vxarg) string {
-	output := lambdaarg.name + "_any"
+	output := LangFromName(lambdaarg.name) + "_any"
 	switch lang {
 	case langkotlin:
 		output += " : vx_core.Type_any"
-- 
2.43.0


From 0fb4d46a8158fcbe4cb92af1c1bb8cc8746fe1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:04 +0000
Subject: [PATCH 32/36] fix: escape argument descriptions in the documentation
 page

---
 src/vxlisp/doc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/doc.go b/src/vxlisp/doc.go
index 945625e..066c458 100644
--- a/src/vxlisp/doc.go
+++ b/src/vxlisp/doc.go
@@ -74,7 +74,7 @@ func HtmlFromListFuncIndent(listfunc []*vxfunc, indent string) (string, string)
 			lineindent + "          <div class=\"td\">Description</div>" +
 			lineindent + "        </div>"
 		for _, arg := range fnc.listarg {
-			argdoc := arg.doc
+			argdoc := HtmlFromString(arg.doc)
 			arguments += "" +
 				lineindent + "        <div class=\"tr\">" +
 				lineindent + "          <div class=\"td\">" + HtmlFromString(arg.name) + "</div>" +
-- 
2.43.0


From 034ce6067b5203047127d61c48799281e68b44dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:04 +0000
Subject: [PATCH 33/36] fix: show argument descriptions under their own heading

---
 src/vxlisp/doc.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/vxlisp/doc.go b/src/vxlisp/doc.go
index 066c458..8832145 100644
--- a/src/vxlisp/doc.go
+++ b/src/vxlisp/doc.go
@@ -70,7 +70,6 @@ func HtmlFromListFuncIndent(listfunc []*vxfunc, indent string) (string, string)
 			lineindent + "        <div class=\"th\">" +
 			lineindent + "          <div class=\"td\">Name</div>" +
 			lineindent + "          <div class=\"td\">Type</div>" +
-			lineindent + "          <div class=\"td\">Generic</div>" +
 			lineindent + "          <div class=\"td\">Description</div>" +
 			lineindent + "        </div>"
 		for _, arg := range fnc.listarg {
-- 
2.43.0


From fe11ca5b1eaa06d7325020bba689b4e9173b09a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:16 +0000
Subject: [PATCH 34/36] fix: link function types to their function in the
 documentation page

---
 src/vxlisp/doc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vxlisp/doc.go b/src/vxlisp/doc.go
index 8832145..b0db885 100644
--- a/src/vxlisp/doc.go
+++ b/src/vxlisp/doc.go
@@ -793,6 +793,9 @@ func HtmlLinkFromPackageName(pkgname string) string {
 }
 
 func HtmlLinkFromType(typ *vxtype) string {
+	if typ.isfunc && typ.vxfunc != nil {
+		return HtmlLinkFromFunc(typ.vxfunc)
+	}
 	output := "" +
 		"<span class=\"ntype\" onclick=\"docjs.navigate('type_" + HtmlNameFromType(typ) + "')\">" + HtmlFromString(typ.pkgname) + "/" + HtmlFromString(typ.name) + "</span>"
 	return output
-- 
2.43.0


From 6ba9de3636f887acbac6966f921a3c2460b74e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:09:11 +0000
Subject: [PATCH 35/36] fix: keep the whole source text of declarations with
 non-ASCII characters

---
 src/vxlisp/primative.go | 11 +++++++++++
 src/vxlisp/textblock.go |  8 ++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/vxlisp/primative.go b/src/vxlisp/primative.go
index 676bedc..5207527 100644
--- a/src/vxlisp/primative.go
+++ b/src/vxlisp/primative.go
@@ -4,6 +4,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 	vx_core "vxlisp/vxlisp/vx/core"
 )
 
@@ -78,6 +79,16 @@ func IntFromStringFindNth(str string, find string, nth int) int {
 	return output
 }
 
+func IntFromStringSkipChars(str string, start int, count int) int {
+	output := start
+	for count > 0 && output < len(str) {
+		_, size := utf8.DecodeRuneInString(str[output:])
+		output += size
+		count -= 1
+	}
+	return output + count
+}
+
 func IntFromStringFindStart(str string, find string, start int) int {
 	output := strings.Index(str[start:], find)
 	if output >= 0 {
diff --git a/src/vxlisp/textblock.go b/src/vxlisp/textblock.go
index fc3ef86..6beb993 100644
--- a/src/vxlisp/textblock.go
+++ b/src/vxlisp/textblock.go
@@ -40,14 +40,14 @@ func StringFromTextblockStartEnd(textblock *vxtextblock, startline int, startcha
 	startpos := 0
 	endpos := 0
 	if startlinenum == 0 {
-		startpos = startchar - textblock.charnum
+		startpos = IntFromStringSkipChars(text, 0, startchar-textblock.charnum)
 	} else {
-		startpos = IntFromStringFindNth(text, "\n", startlinenum) + startchar
+		startpos = IntFromStringSkipChars(text, IntFromStringFindNth(text, "\n", startlinenum)+1, startchar-1)
 	}
 	if endlinenum == 0 {
-		endpos = endchar - textblock.charnum + 1
+		endpos = IntFromStringSkipChars(text, 0, endchar-textblock.charnum+1)
 	} else {
-		endpos = IntFromStringFindNth(text, "\n", endlinenum) + endchar + 1
+		endpos = IntFromStringSkipChars(text, IntFromStringFindNth(text, "\n", endlinenum)+1, endchar)
 	}
 	output = vx_core.V_stringn_from_string_startn_endn(text, startpos, endpos)
 	if startchar > 1 {
-- 
2.43.0


From 19237a86d5b7f548a2e65e2c2431b9660e329e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:49:56 +0000
Subject: [PATCH 36/36] fix: pass a constant where a generic value is expected
 in C++

---
 src/vxlisp/lang-cpp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 31c75e0..b7c0b51 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -2622,7 +2622,7 @@ func CppFromValue(
 				valstr = LangFromName(value.name)
 			} else {
 				valconst := ConstFromValue(value)
-				valstr = LangPkgName(lang, valconst.pkgname) + lang.pkgref + "c_" + LangFromName(valconst.alias)
+				valstr = "static_cast<" + LangNameTypeFullFromType(lang, valconst.vxtype) + ">(" + LangPkgName(lang, valconst.pkgname) + lang.pkgref + "c_" + LangFromName(valconst.alias) + ")"
 			}
 		}
 		output = valstr
-- 
2.43.0

