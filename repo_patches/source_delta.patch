From 21f372997ff1d8a4d4601102515299233e889f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:11 +0000
Subject: [PATCH 01/53] fix: apply: reject an improper last argument list

---
 src/eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index e437abb..13992ef 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -787,7 +787,7 @@ scm_p_apply(ScmObj proc, ScmObj arg0, ScmObj rest, ScmEvalState *eval_state)
         last = arg;
     }
 
-    ENSURE_LIST(last);
+    ENSURE_PROPER_ARG_LIST(last);
 
     /* Since any tail recursive procedures called here return a tail expression
      * with SCM_VALTYPE_NEED_EVAL, evaluate such proc with call() does not
-- 
2.43.0


From 0df193815e310b04c399f6673f74dc63ea1b558e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:11 +0000
Subject: [PATCH 02/53] fix: cond: do not take the car of a non-pair clause
 body

---
 src/syntax.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/syntax.c b/src/syntax.c
index b66e756..e2f48d2 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -341,7 +341,7 @@ scm_s_cond_internal(ScmObj clauses, ScmEvalState *eval_state)
              * of the <test> and the value returned by this procedure is
              * returned by the cond expression.
              */
-            if (EQ(l_sym_yields, CAR(exps)) && LIST_2_P(exps)) {
+            if (LIST_2_P(exps) && EQ(l_sym_yields, CAR(exps))) {
                 proc = EVAL(CADR(exps), env);
                 if (!PROCEDUREP(proc))
                     ERR_OBJ("exp after => must be a procedure but got", proc);
-- 
2.43.0


From 3bb097b30cea8b375db219ae06ac57e3c27b0e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:11 +0000
Subject: [PATCH 03/53] fix: %%set-current-*-port!: reject a non-port argument

---
 src/port.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/port.c b/src/port.c
index a8464c6..1ec0e03 100644
--- a/src/port.c
+++ b/src/port.c
@@ -308,6 +308,7 @@ scm_p_set_current_input_portx(ScmObj newport)
 {
     DECLARE_FUNCTION("%%set-current-input-port!", procedure_fixed_1);
 
+    ENSURE_PORT(newport);
     SCM_ENSURE_LIVE_PORT(newport);
     if (!(SCM_PORT_FLAG(newport) & SCM_PORTFLAG_INPUT))
         ERR_OBJ("input port required but got", newport);
@@ -322,6 +323,7 @@ scm_p_set_current_output_portx(ScmObj newport)
 {
     DECLARE_FUNCTION("%%set-current-output-port!", procedure_fixed_1);
 
+    ENSURE_PORT(newport);
     SCM_ENSURE_LIVE_PORT(newport);
     if (!(SCM_PORT_FLAG(newport) & SCM_PORTFLAG_OUTPUT))
         ERR_OBJ("output port required but got", newport);
@@ -336,6 +338,7 @@ scm_p_set_current_error_portx(ScmObj newport)
 {
     DECLARE_FUNCTION("%%set-current-error-port!", procedure_fixed_1);
 
+    ENSURE_PORT(newport);
     SCM_ENSURE_LIVE_PORT(newport);
     if (!(SCM_PORT_FLAG(newport) & SCM_PORTFLAG_OUTPUT))
         ERR_OBJ("output port required but got", newport);
-- 
2.43.0


From cc587d10c6b9555f5c34894339ddccd7596a0e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:11 +0000
Subject: [PATCH 04/53] fix: define-record-type: reject a non-symbol
 constructor name

---
 src/module-srfi9.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module-srfi9.c b/src/module-srfi9.c
index 39c6526..c15f150 100644
--- a/src/module-srfi9.c
+++ b/src/module-srfi9.c
@@ -123,6 +123,7 @@ scm_s_srfi9_define_record_type(ScmObj type_name, ScmObj ctor_spec,
 
     ctor_name = CAR(ctor_spec);
     ctor_tags = CDR(ctor_spec);
+    ENSURE_SYMBOL(ctor_name);
     field_tags = scm_map_single_arg(l_proc_car, field_specs);
 
     type_obj = scm_call(l_proc_make_record_type,
-- 
2.43.0


From 9a4ed358af062b77c0f4a13a86b6d86c47d9f2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:11 +0000
Subject: [PATCH 05/53] fix: number->string, string->number: do not truncate
 the radix argument

---
 src/number-io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/number-io.c b/src/number-io.c
index b314eb2..2b4f0fa 100644
--- a/src/number-io.c
+++ b/src/number-io.c
@@ -78,7 +78,7 @@ static int
 prepare_radix(const char *funcname, ScmObj args)
 {
     ScmObj radix;
-    int r;
+    scm_int_t r;
     DECLARE_INTERNAL_FUNCTION("(internal)");
 
     ASSERT_PROPER_ARG_LIST(args);
-- 
2.43.0


From 62e834090ae553d06a9eb41e7787409dd1927b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:52 +0000
Subject: [PATCH 06/53] fix: map, for-each, map-in-order: do not modify the
 caller's argument list

---
 src/procedure.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/procedure.c b/src/procedure.c
index 8f43f3a..dd0ebfa 100644
--- a/src/procedure.c
+++ b/src/procedure.c
@@ -308,10 +308,18 @@ scm_map_single_arg(ScmObj proc, ScmObj lst)
 SCM_EXPORT ScmObj
 scm_map_multiple_args(ScmObj proc, ScmObj lsts, scm_bool allow_uneven_lists)
 {
-    ScmQueue retq, argq;
+    ScmQueue retq, argq, lstq;
     ScmObj ret, elm, map_args, rest_lsts, lst;
     DECLARE_INTERNAL_FUNCTION("map");
 
+    /* The argument list may be owned by user (via apply). */
+    rest_lsts = lsts;
+    lsts = SCM_NULL;
+    SCM_QUEUE_POINT_TO(lstq, lsts);
+    FOR_EACH (lst, rest_lsts)
+        SCM_QUEUE_ADD(lstq, lst);
+    NO_MORE_ARG(rest_lsts);
+
     ret = SCM_NULL;
     SCM_QUEUE_POINT_TO(retq, ret);
     for (;;) {
-- 
2.43.0


From 04705b1f9bdb0e0352807fcf188168afc117297c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:52 +0000
Subject: [PATCH 07/53] fix: list->string: reject null and unencodable
 characters

---
 src/string-procedure.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/string-procedure.c b/src/string-procedure.c
index e33b9a1..e9aeb14 100644
--- a/src/string-procedure.c
+++ b/src/string-procedure.c
@@ -535,12 +535,20 @@ scm_p_list2string(ScmObj lst)
     dst = str = scm_malloc(str_size);
     FOR_EACH (ch, lst) {
 #if !SCM_USE_NULL_CAPABLE_STRING
-        if (ch == '\0')
+        if (SCM_CHAR_VALUE(ch) == '\0') {
+            free(str);
             ERR(SCM_ERRMSG_NULL_IN_STRING);
+        }
 #endif
 #if SCM_USE_MULTIBYTE_CHAR
         dst = SCM_CHARCODEC_INT2STR(scm_current_char_codec, dst,
                                     SCM_CHAR_VALUE(ch), SCM_MB_STATELESS);
+        if (!dst) {
+            free(str);
+            ERR("invalid char 0x~MX for encoding ~S",
+                (scm_int_t)SCM_CHAR_VALUE(ch),
+                SCM_CHARCODEC_ENCODING(scm_current_char_codec));
+        }
 #else
         *dst++ = SCM_CHAR_VALUE(ch);
 #endif
-- 
2.43.0


From 780e84390e4e7967f6f28d0e26e8a4a3eb16c512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:52 +0000
Subject: [PATCH 08/53] fix: string-set!, string-fill!: reject the null
 character

---
 src/string-procedure.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/string-procedure.c b/src/string-procedure.c
index e9aeb14..63dedfd 100644
--- a/src/string-procedure.c
+++ b/src/string-procedure.c
@@ -213,6 +213,10 @@ scm_p_string_setx(ScmObj str, ScmObj k, ScmObj ch)
     c_str = SCM_STRING_STR(str);
     if (idx < 0 || SCM_STRING_LEN(str) <= idx)
         ERR_OBJ("index out of range", k);
+#if !SCM_USE_NULL_CAPABLE_STRING
+    if (SCM_CHAR_VALUE(ch) == '\0')
+        ERR(SCM_ERRMSG_NULL_IN_STRING);
+#endif
 
 #if SCM_USE_MULTIBYTE_CHAR
     /* point at the char that to be replaced */
@@ -582,6 +586,10 @@ scm_p_string_fillx(ScmObj str, ScmObj ch)
     ENSURE_STRING(str);
     ENSURE_MUTABLE_STRING(str);
     ENSURE_CHAR(ch);
+#if !SCM_USE_NULL_CAPABLE_STRING
+    if (SCM_CHAR_VALUE(ch) == '\0')
+        ERR(SCM_ERRMSG_NULL_IN_STRING);
+#endif
 
     str_len = SCM_STRING_LEN(str);
     if (str_len == 0)
-- 
2.43.0


From 182820cda630c63a7b5d4332c5699592a639ecc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:52 +0000
Subject: [PATCH 09/53] fix: make-vector, make-string: reject a length whose
 byte count overflows

---
 src/string-procedure.c | 2 ++
 src/vector.c           | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/string-procedure.c b/src/string-procedure.c
index 63dedfd..9e44789 100644
--- a/src/string-procedure.c
+++ b/src/string-procedure.c
@@ -131,6 +131,8 @@ scm_p_make_string(ScmObj length, ScmObj args)
             (scm_int_t)filler_val,
             SCM_CHARCODEC_ENCODING(scm_current_char_codec));
 
+    if ((size_t)len > ((size_t)-1 - sizeof("")) / ch_len)
+        ERR_OBJ("too large length", length);
     str = scm_malloc(ch_len * len + sizeof(""));
     for (dst = str; dst < &str[ch_len * len]; dst += ch_len)
         memcpy(dst, ch_buf, ch_len);
diff --git a/src/vector.c b/src/vector.c
index f8a75cd..69a4c4f 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -82,6 +82,8 @@ scm_p_make_vector(ScmObj scm_len, ScmObj args)
     len = SCM_INT_VALUE(scm_len);
     if (len < 0)
         ERR_OBJ("length must be a non-negative integer", scm_len);
+    if ((size_t)len > (size_t)-1 / sizeof(ScmObj))
+        ERR_OBJ("too large length", scm_len);
 
     vec = scm_malloc(sizeof(ScmObj) * len);
     if (NULLP(args)) {
-- 
2.43.0


From 37a74ecb1340ab5ce7769a22c7f9c1d4a08f9ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:03 +0000
Subject: [PATCH 10/53] fix: signal fixnum overflow when the least fixnum is
 divided by -1 or negated

---
 src/number.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/number.c b/src/number.c
index 722cd90..f639a3f 100644
--- a/src/number.c
+++ b/src/number.c
@@ -174,6 +174,8 @@ scm_p_divide(ScmObj left, ScmObj right, enum ScmReductionState *state)
         val = SCM_INT_VALUE(right);
         if (val == 0)
             ERR(ERRMSG_DIV_BY_ZERO);
+        if (val == -1 && result == SCM_INT_MIN)
+            ERR(ERRMSG_FIXNUM_OVERFLOW);
         result /= val;
         break;
 
@@ -367,6 +369,8 @@ scm_p_quotient(ScmObj _n1, ScmObj _n2)
     n2 = SCM_INT_VALUE(_n2);
     if (n2 == 0)
         ERR(ERRMSG_DIV_BY_ZERO);
+    if (n2 == -1 && n1 == SCM_INT_MIN)
+        ERR(ERRMSG_FIXNUM_OVERFLOW);
 
     /*
      * ISO/IEC 9899:1999(E):
@@ -394,6 +398,8 @@ scm_p_modulo(ScmObj _n1, ScmObj _n2)
     n2 = SCM_INT_VALUE(_n2);
     if (n2 == 0)
         ERR(ERRMSG_DIV_BY_ZERO);
+    if (n2 == -1)
+        return MAKE_INT(0);  /* avoid native overflow of INT_MIN % -1 */
 
     rem = n1 % n2;
     if (rem && ((n1 < 0 && 0 < n2) || (n2 < 0 && 0 < n1)))
@@ -415,6 +421,8 @@ scm_p_remainder(ScmObj _n1, ScmObj _n2)
     n2 = SCM_INT_VALUE(_n2);
     if (n2 == 0)
         ERR(ERRMSG_DIV_BY_ZERO);
+    if (n2 == -1)
+        return MAKE_INT(0);  /* avoid native overflow of INT_MIN % -1 */
 
     return MAKE_INT(n1 % n2);
 }
@@ -453,11 +461,15 @@ static scm_int_t gcd(scm_int_t x, scm_int_t y)
        absolute value in the end. This is one single
        computation of abs, instead of two. */
     scm_int_t tmp;
+    DECLARE_INTERNAL_FUNCTION("gcd");
+
     while (x != 0) {
         tmp = x;
-        x = y % x;
+        x = (x == -1) ? 0 : y % x;
         y = tmp;
     }
+    if (y == SCM_INT_MIN)
+        ERR(ERRMSG_FIXNUM_OVERFLOW);
     return (y >= 0) ? y : -y;
 }
 
-- 
2.43.0


From 28a2edfb3e713de9447c099e9d22e4af24611778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:03 +0000
Subject: [PATCH 11/53] fix: expt, lcm: signal fixnum overflow and a zero lcm
 operand

---
 src/number.c | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/number.c b/src/number.c
index f639a3f..9d3904f 100644
--- a/src/number.c
+++ b/src/number.c
@@ -98,6 +98,18 @@ scm_p_add(ScmObj left, ScmObj right, enum ScmReductionState *state)
     return MAKE_INT(result);
 }
 
+/* Returns whether l * r exceeds the fixnum range. */
+static scm_bool
+multiply_overflowp(scm_int_t l, scm_int_t r)
+{
+    if (l == 0 || r == 0)
+        return scm_false;
+    if (l > 0)
+        return (r > 0) ? (l > SCM_INT_MAX / r) : (r < SCM_INT_MIN / l);
+    else
+        return (r > 0) ? (l < SCM_INT_MIN / r) : (r < SCM_INT_MAX / l);
+}
+
 /* no overflow check */
 SCM_EXPORT ScmObj
 scm_p_multiply(ScmObj left, ScmObj right, enum ScmReductionState *state)
@@ -445,10 +457,17 @@ scm_p_expt(ScmObj _base, ScmObj _expo)
 
     result = 1;
     while (expo > 0) {
-        if (expo % 2 == 1)
+        if (expo % 2 == 1) {
+            if (multiply_overflowp(result, base))
+                ERR(ERRMSG_FIXNUM_OVERFLOW);
             result *= base;
-        base *= base;
+        }
         expo /= 2;
+        if (expo > 0) {
+            if (multiply_overflowp(base, base))
+                ERR(ERRMSG_FIXNUM_OVERFLOW);
+            base *= base;
+        }
     }
     return MAKE_INT(result);
 }
@@ -501,7 +520,7 @@ ScmObj scm_p_gcd(ScmObj left, ScmObj right, enum ScmReductionState *state)
 SCM_EXPORT ScmObj
 scm_p_lcm(ScmObj left, ScmObj right, enum ScmReductionState *state)
 {
-    scm_int_t result;
+    scm_int_t result, r;
     DECLARE_FUNCTION("lcm", reduction_operator);
 
     result = 1;
@@ -513,13 +532,23 @@ scm_p_lcm(ScmObj left, ScmObj right, enum ScmReductionState *state)
         /* Fall through. */
     case SCM_REDUCE_1:
         ENSURE_INT(right);
-        result *= SCM_INT_VALUE(right) / gcd(result, SCM_INT_VALUE(right));
+        r = SCM_INT_VALUE(right);
+        if (result == 0 || r == 0) {
+            result = 0;
+            break;
+        }
+        r /= gcd(result, r);
+        if (multiply_overflowp(result, r))
+            ERR(ERRMSG_FIXNUM_OVERFLOW);
+        result *= r;
         /* Fall through. */
     case SCM_REDUCE_0:
         break;
     default:
         SCM_NOTREACHED;
     }
+    if (result == SCM_INT_MIN)
+        ERR(ERRMSG_FIXNUM_OVERFLOW);
     if (result < 0) result = -result;
     return MAKE_INT(result);
 }
-- 
2.43.0


From 31059669799b24f9f0311476dc84c5acf67b91c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:39 +0000
Subject: [PATCH 12/53] fix: let-optionals*: reject an improper restargs list

---
 src/module-sscm-ext.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/module-sscm-ext.c b/src/module-sscm-ext.c
index 0c5984e..7626f1b 100644
--- a/src/module-sscm-ext.c
+++ b/src/module-sscm-ext.c
@@ -425,6 +425,9 @@ scm_s_let_optionalsstar(ScmObj args, ScmObj bindings, ScmObj body,
             val = EVAL(exp, env);
             CHECK_VALID_EVALED_VALUE(val);
         } else {
+            /* args may be a dotted list, or may have been modified by the
+             * expressions evaluated above */
+            ENSURE_CONS(args);
             val = POP(args);
         }
 
-- 
2.43.0


From f824e798a91c95ee459d63d9e5052798e2b5c72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:39 +0000
Subject: [PATCH 13/53] fix: let-vector-start+end: read the formals before
 evaluating the arguments

---
 src/module-srfi43.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/module-srfi43.c b/src/module-srfi43.c
index dae8c87..4b23fe9 100644
--- a/src/module-srfi43.c
+++ b/src/module-srfi43.c
@@ -112,14 +112,16 @@ scm_s_let_vector_start_plus_end(ScmObj callee, ScmObj vec,
 
     env = eval_state->env;
 
+    /* take these before the form can be modified by evaluated codes */
+    start_name = QUOTE(CAR(start_plus_end));
+    end_name   = QUOTE(CADR(start_plus_end));
+
     proc_check_type = EVAL(l_sym_check_type, env);
     check_type_args = LIST_3(EVAL(l_sym_vectorp, env),
                              EVAL(vec, env),
                              EVAL(callee, env));
     vec = scm_call(proc_check_type, check_type_args);
 
-    start_name = QUOTE(CAR(start_plus_end));
-    end_name   = QUOTE(CADR(start_plus_end));
     receive_expr = CONS(l_sym_vector_parse_start_plus_end,
                         LIST_5(QUOTE(vec), args, start_name, end_name, callee));
     return scm_s_srfi8_receive(start_plus_end, receive_expr, body, eval_state);
-- 
2.43.0


From d1a37041a20cd89ec6d19078d7343821c42ae420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:52 +0000
Subject: [PATCH 14/53] fix: quasiquote: copy a list spliced into a vector

---
 src/qquote.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qquote.c b/src/qquote.c
index c56c0b2..cc035ed 100644
--- a/src/qquote.c
+++ b/src/qquote.c
@@ -346,6 +346,9 @@ scm_vectran(sequence_translator *t, tr_msg msg, ScmObj obj)
          *   -- YamaKen 2006-06-25 */
         if (!SCM_LISTLEN_PROPERP(splice_len))
             ERR_OBJ(ERRMSG_BAD_SPLICE_LIST, obj);
+        /* Copy the list since succeeding unquoted expressions may change its
+         * length before it is extracted. */
+        obj = scm_p_append(LIST_2(obj, SCM_NULL));
         t->u.vec.growth += splice_len - 1;
         change_index = SPLICED_INDEX(t->u.vec.index);
         goto record_change;
-- 
2.43.0


From 474b75f637bf280aeb6bfee385963a9d27398b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:53 +0000
Subject: [PATCH 15/53] fix: quasiquote: do not modify a spliced list

---
 src/qquote.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qquote.c b/src/qquote.c
index cc035ed..003f8df 100644
--- a/src/qquote.c
+++ b/src/qquote.c
@@ -293,6 +293,11 @@ scm_listran(sequence_translator *t, tr_msg msg, ScmObj obj)
         }
 
         if (msg != TRL_MSG_SET_SUBLS) {
+            /* The rest of the template must not be appended to the spliced
+             * list itself. */
+            if (msg == TR_MSG_SPLICE && !NULLP(CDR(t->u.lst.cur))
+                && PROPER_LISTP(obj))
+                obj = scm_p_append(LIST_2(obj, SCM_NULL));
             SCM_QUEUE_APPEND(t->u.lst.q, obj);
 #if SCM_STRICT_ARGCHECK
             if (!NULLP(SCM_QUEUE_TERMINATOR(t->u.lst.q)))
-- 
2.43.0


From 2596df394cfd667679e631f09675ae46c898f8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 16/53] fix: syntax-rules: reject an improper rule list

---
 src/macro.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro.c b/src/macro.c
index 9a0f88c..520e2ea 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -284,7 +284,7 @@ scm_s_syntax_rules(ScmObj args, ScmObj env)
     compilation_context ctx;
     DECLARE_FUNCTION("syntax-rules", syntax_variadic_0);
 
-    if (NULLP(args) || NULLP(CDR(args)))
+    if (!CONSP(args) || !CONSP(CDR(args)))
         ERR_OBJ("missing rules", args);
 
     ctx.literals = CAR(args);
-- 
2.43.0


From bde5fe284532d52fe2e41171381b4e0290baf12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:06 +0000
Subject: [PATCH 17/53] fix: expand-macro: reject a non-macro argument

---
 src/macro.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/macro.c b/src/macro.c
index 520e2ea..4662d1f 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -271,7 +271,10 @@ scm_s_expand_macro(ScmObj macro, ScmObj args, ScmEvalState *eval_state)
     ScmObj ret;
     DECLARE_FUNCTION("expand-macro", syntax_variadic_tailrec_1);
 
-    ret = scm_expand_macro(EVAL(macro, eval_state->env), args, eval_state);
+    macro = EVAL(macro, eval_state->env);
+    ENSURE_TYPE(HMACROP, "macro", macro);
+
+    ret = scm_expand_macro(macro, args, eval_state);
     eval_state->ret_type = SCM_VALTYPE_AS_IS;
     return ret;
 }
-- 
2.43.0


From 89af584190a9e723decaba121e63cb1e0ca3488e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:39 +0000
Subject: [PATCH 18/53] fix: variable reference: reject an identifier taken out
 of its scope

---
 src/env.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/env.c b/src/env.c
index 62f9780..75c32ba 100644
--- a/src/env.c
+++ b/src/env.c
@@ -410,7 +410,8 @@ scm_symbol_value(ScmObj var, ScmObj env)
 #if SCM_USE_HYGIENIC_MACRO
         if (FARSYMBOLP(var))
             var = SCM_FARSYMBOL_SYM(var);
-        SCM_ASSERT(SYMBOLP(var));
+        if (!SYMBOLP(var))
+            scm_macro_bad_scope(var);
 #endif
         val = SCM_SYMBOL_VCELL(var);
     }
-- 
2.43.0


From 2cd7d321f52de9f964d3ba3f523c4ff065821701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:53 +0000
Subject: [PATCH 19/53] fix: require-extension: reject an improper clause list

---
 src/module-srfi55.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/module-srfi55.c b/src/module-srfi55.c
index 3b6da0a..585f7a3 100644
--- a/src/module-srfi55.c
+++ b/src/module-srfi55.c
@@ -91,6 +91,8 @@ scm_s_srfi55_require_extension(ScmObj clauses, ScmObj env)
       <extension-identifier> ::= <symbol>
       <extension-argument> ::= <any Scheme value>
     =======================================================================*/
+    ENSURE_PROPER_ARG_LIST(clauses);
+
     proc = scm_symbol_value(l_sym_require_extension, SCM_INTERACTION_ENV);
 
     return scm_call(proc, clauses);
-- 
2.43.0


From be15a37b6c3384361a2174858231c6ab2a8d1e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:15 +0000
Subject: [PATCH 20/53] fix: make-string: reject surplus arguments for length 0

---
 src/string-procedure.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/string-procedure.c b/src/string-procedure.c
index 9e44789..1ae4705 100644
--- a/src/string-procedure.c
+++ b/src/string-procedure.c
@@ -93,8 +93,11 @@ scm_p_make_string(ScmObj length, ScmObj args)
 #endif
     ENSURE_INT(length);
     len = SCM_INT_VALUE(length);
-    if (len == 0)
+    if (len == 0) {
+        if (!NO_MORE_ARG(args))
+            ASSERT_NO_MORE_ARG(CDR(args));
         return MAKE_STRING_COPYING("", 0);
+    }
     if (len < 0)
         ERR_OBJ("length must be a non-negative integer", length);
 
-- 
2.43.0


From 37b549d0350027eca9904e1aa17bb43b414ac2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:15 +0000
Subject: [PATCH 21/53] fix: body without bindings: do not let definitions
 reach the toplevel

---
 src/syntax.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/syntax.c b/src/syntax.c
index e2f48d2..205e712 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -774,6 +774,13 @@ scm_s_body(ScmObj body, ScmEvalState *eval_state)
     ScmObj env, formals, actuals, def_exps, exp, val;
     DECLARE_INTERNAL_FUNCTION("(body)" /* , syntax_variadic_tailrec_0 */);
 
+    /* A body is not the toplevel even if the binding construct that has it
+     * binds no variable: (let* () 1 (define foo 2)) */
+    if (scm_toplevel_environmentp(eval_state->env)) {
+        eval_state->env = scm_extend_environment(SCM_NULL, SCM_NULL,
+                                                 SCM_INTERACTION_ENV);
+    }
+
     if (CONSP(body)) {
         /* collect internal definitions */
         def_exps = formals = actuals = SCM_NULL;
-- 
2.43.0


From 1edae11611fb4b99f0623e646127e3f08702a046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:03 +0000
Subject: [PATCH 22/53] fix: map does not store keywords or multiple values in
 its result

---
 src/procedure.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/procedure.c b/src/procedure.c
index dd0ebfa..03e0090 100644
--- a/src/procedure.c
+++ b/src/procedure.c
@@ -298,6 +298,7 @@ scm_map_single_arg(ScmObj proc, ScmObj lst)
     SCM_QUEUE_POINT_TO(q, ret);
     FOR_EACH (elm, lst) {
         elm = scm_call(proc, LIST_1(elm));
+        CHECK_VALID_EVALED_VALUE(elm);
         SCM_QUEUE_ADD(q, elm);
     }
     NO_MORE_ARG(lst);
@@ -339,6 +340,7 @@ scm_map_multiple_args(ScmObj proc, ScmObj lsts, scm_bool allow_uneven_lists)
         }
 
         elm = scm_call(proc, map_args);
+        CHECK_VALID_EVALED_VALUE(elm);
         SCM_QUEUE_ADD(retq, elm);
     }
 
-- 
2.43.0


From 8225e8efea80f7119633364371b0042e734380cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:03 +0000
Subject: [PATCH 23/53] fix: quasiquote does not insert keywords or multiple
 values

---
 src/qquote.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qquote.c b/src/qquote.c
index 003f8df..8598e58 100644
--- a/src/qquote.c
+++ b/src/qquote.c
@@ -483,6 +483,7 @@ qquote_internal(ScmObj input, ScmObj env, scm_int_t nest)
 
                 if (--nest == 0) {
                     obj = EVAL(CAR(args), env);
+                    CHECK_VALID_EVALED_VALUE(obj);
                     TRL_SET_SUBLS(tr, obj);
                     my_result.obj = TRL_EXTRACT(tr);
                     my_result.msg = TR_MSG_REPLACE;
-- 
2.43.0


From e5a2116a826a074fafff88d142da2a167f3d4ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:03 +0000
Subject: [PATCH 24/53] fix: receive does not bind a syntactic keyword

---
 src/module-srfi8.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module-srfi8.c b/src/module-srfi8.c
index 52d68e7..0683636 100644
--- a/src/module-srfi8.c
+++ b/src/module-srfi8.c
@@ -100,6 +100,7 @@ scm_s_srfi8_receive(ScmObj formals, ScmObj expr, ScmObj body,
         actuals = SCM_VALUEPACKET_VALUES(actuals);
         actuals_len = scm_finite_length(actuals);
     } else {
+        CHECK_VALID_EVALED_VALUE(actuals);
         actuals = LIST_1(actuals);
         actuals_len = 1;
     }
-- 
2.43.0


From 8275ec45b3d6d620658076249d09dbc5175c23c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:03 +0000
Subject: [PATCH 25/53] fix: call-with-values does not pass a syntactic keyword
 to the consumer

---
 src/eval.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eval.c b/src/eval.c
index 13992ef..0683a7d 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -301,6 +301,7 @@ call(ScmObj proc, ScmObj args, ScmEvalState *eval_state,
 
             if (!VALUEPACKETP(vals)) {
                 /* got back a single value */
+                CHECK_VALID_EVALED_VALUE(vals);
                 args = LIST_1(vals);
             } else {
                 /* extract */
-- 
2.43.0


From 6b95b253ab31705e60d9125b24b76a41506c6c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:03 +0000
Subject: [PATCH 26/53] fix: let-vector-start+end does not pass keywords or
 multiple values on

---
 src/module-srfi43.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/module-srfi43.c b/src/module-srfi43.c
index 4b23fe9..8251d00 100644
--- a/src/module-srfi43.c
+++ b/src/module-srfi43.c
@@ -102,7 +102,7 @@ scm_s_let_vector_start_plus_end(ScmObj callee, ScmObj vec,
                                 ScmEvalState *eval_state)
 {
     ScmObj env, start_name, end_name, proc_check_type, check_type_args;
-    ScmObj receive_expr;
+    ScmObj vectorp, callee_val, receive_expr;
     DECLARE_FUNCTION("let-vector-start+end", syntax_variadic_tailrec_4);
 
     if (!LIST_2_P(start_plus_end))
@@ -117,9 +117,13 @@ scm_s_let_vector_start_plus_end(ScmObj callee, ScmObj vec,
     end_name   = QUOTE(CADR(start_plus_end));
 
     proc_check_type = EVAL(l_sym_check_type, env);
-    check_type_args = LIST_3(EVAL(l_sym_vectorp, env),
-                             EVAL(vec, env),
-                             EVAL(callee, env));
+    vectorp = EVAL(l_sym_vectorp, env);
+    CHECK_VALID_EVALED_VALUE(vectorp);
+    vec = EVAL(vec, env);
+    CHECK_VALID_EVALED_VALUE(vec);
+    callee_val = EVAL(callee, env);
+    CHECK_VALID_EVALED_VALUE(callee_val);
+    check_type_args = LIST_3(vectorp, vec, callee_val);
     vec = scm_call(proc_check_type, check_type_args);
 
     receive_expr = CONS(l_sym_vector_parse_start_plus_end,
-- 
2.43.0


From e7f4f11060a95f72a17790b9c52ddde8a41619b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:09 +0000
Subject: [PATCH 27/53] fix: define-macro does not turn other references to the
 closure into macros

---
 src/legacy-macro.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/legacy-macro.c b/src/legacy-macro.c
index 9608abf..e5a9824 100644
--- a/src/legacy-macro.c
+++ b/src/legacy-macro.c
@@ -118,8 +118,11 @@ scm_s_define_macro(ScmObj identifier, ScmObj rest, ScmEvalState *eval_state)
     ENSURE_CLOSURE(closure);
     if (!scm_toplevel_environmentp(SCM_CLOSURE_ENV(closure)))
         ERR("syntactic closure in SigScheme must have toplevel environment");
-    /* destructively mark the closure as syntactic */
-    SCM_CLOSURE_SET_ENV(closure, SCM_SYNTACTIC_CLOSURE_ENV);
+    /* The closure may be bound to another variable. So bind a marked copy
+     * rather than marking it destructively. */
+    closure = MAKE_CLOSURE(SCM_CLOSURE_EXP(closure),
+                           SCM_SYNTACTIC_CLOSURE_ENV);
+    SCM_SYMBOL_SET_VCELL(identifier, closure);
 
     eval_state->ret_type = SCM_VALTYPE_AS_IS;
     return SCM_UNDEF;
-- 
2.43.0


From e58b5af4eb25959054e577b06dabc349e281b530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:09 +0000
Subject: [PATCH 28/53] fix: an abbreviated quotation in a literal is as
 constant as other lists

---
 src/read.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/read.c b/src/read.c
index 4548494..6b40311 100644
--- a/src/read.c
+++ b/src/read.c
@@ -1039,7 +1039,11 @@ read_quoted(ScmObj port, ScmObj quoter)
     if (EOFP(obj))
         ERR("EOF in ~a", quoter);
 
+#if SCM_CONST_LIST_LITERAL
+    return IMMUTABLE_CONS(quoter, IMMUTABLE_CONS(obj, SCM_NULL));
+#else
     return SCM_LIST_2(quoter, obj);
+#endif
 }
 
 /*===========================================================================
-- 
2.43.0


From 7f857d4ed155c9ad34fd669dadb9d264ba3dd7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:04 +0000
Subject: [PATCH 29/53] fix: protect the procedures SRFI-9 keeps in global
 variables from the garbage collector

---
 src/module-srfi9.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/module-srfi9.c b/src/module-srfi9.c
index c15f150..45b790d 100644
--- a/src/module-srfi9.c
+++ b/src/module-srfi9.c
@@ -95,12 +95,17 @@ scm_initialize_srfi9(void)
     scm_require_module("srfi-23");
     scm_load_system_file("srfi-9.scm");
 
-    l_proc_car                = SYMBOL_VALUE("car");
-    l_proc_make_record_type   = SYMBOL_VALUE("make-record-type");
-    l_proc_record_constructor = SYMBOL_VALUE("record-constructor");
-    l_proc_record_predicate   = SYMBOL_VALUE("record-predicate");
-    l_proc_record_accessor    = SYMBOL_VALUE("record-accessor");
-    l_proc_record_modifier    = SYMBOL_VALUE("record-modifier");
+    scm_gc_protect_with_init(&l_proc_car, SYMBOL_VALUE("car"));
+    scm_gc_protect_with_init(&l_proc_make_record_type,
+                             SYMBOL_VALUE("make-record-type"));
+    scm_gc_protect_with_init(&l_proc_record_constructor,
+                             SYMBOL_VALUE("record-constructor"));
+    scm_gc_protect_with_init(&l_proc_record_predicate,
+                             SYMBOL_VALUE("record-predicate"));
+    scm_gc_protect_with_init(&l_proc_record_accessor,
+                             SYMBOL_VALUE("record-accessor"));
+    scm_gc_protect_with_init(&l_proc_record_modifier,
+                             SYMBOL_VALUE("record-modifier"));
 }
 
 SCM_EXPORT ScmObj
-- 
2.43.0


From b9b034d3785ad5a61f73883d88df9448f601d228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:04 +0000
Subject: [PATCH 30/53] fix: let string input ports keep a copy of the string
 they read

---
 src/module-srfi6.c | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/module-srfi6.c b/src/module-srfi6.c
index cf1cb8b..1ea42e5 100644
--- a/src/module-srfi6.c
+++ b/src/module-srfi6.c
@@ -61,8 +61,6 @@
 /*=======================================
   File Local Function Declarations
 =======================================*/
-static void srfi6_istrport_finalize(char **str, scm_bool ownership,
-                                    void **opaque);
 
 /*=======================================
   Function Definitions
@@ -75,28 +73,18 @@ scm_initialize_srfi6(void)
     scm_register_funcs(scm_functable_srfi6);
 }
 
-static void
-srfi6_istrport_finalize(char **str, scm_bool ownership, void **opaque)
-{
-    SCM_ASSERT(!ownership);
-
-    scm_gc_unprotect((ScmObj *)opaque);
-}
-
 SCM_EXPORT ScmObj
 scm_p_srfi6_open_input_string(ScmObj str)
 {
-    ScmObj *hold_str;
     ScmBytePort *bport;
     ScmCharPort *cport;
     DECLARE_FUNCTION("open-input-string", procedure_fixed_1);
 
     ENSURE_STRING(str);
 
-    bport = ScmInputStrPort_new_const(SCM_STRING_STR(str),
-                                      srfi6_istrport_finalize);
-    hold_str = (ScmObj *)ScmInputStrPort_ref_opaque(bport);
-    scm_gc_protect_with_init(hold_str, str);
+    /* The content must be copied since str may be modified, and its storage
+     * reallocated, while the port is being read. */
+    bport = ScmInputStrPort_new_copying(SCM_STRING_STR(str), NULL);
     cport = scm_make_char_port(bport);
     return MAKE_PORT(cport, SCM_PORTFLAG_INPUT);
 }
-- 
2.43.0


From ad58e965509d361b5e86db35adf5a6d74b313854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 31/53] fix: forget the shared-structure context of a write
 that ended in an error

---
 src/write.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/write.c b/src/write.c
index f34c9a1..34d8179 100644
--- a/src/write.c
+++ b/src/write.c
@@ -121,6 +121,10 @@ static scm_write_ss_context *l_write_ss_ctx;
 SCM_GLOBAL_VARS_END(static_write);
 #define l_write_ss_ctx SCM_GLOBAL_VAR(static_write, l_write_ss_ctx)
 SCM_DEFINE_STATIC_VARS(static_write);
+/* An error escaping from write_ss_internal() leaves its dead context here. */
+#define DISCARD_WRITE_SS_CTX() (l_write_ss_ctx = NULL)
+#else
+#define DISCARD_WRITE_SS_CTX() ((void)0)
 #endif /* SCM_USE_SRFI38 */
 
 /*=======================================
@@ -177,12 +181,14 @@ scm_init_writer(void)
 SCM_EXPORT void
 scm_write(ScmObj port, ScmObj obj)
 {
+    DISCARD_WRITE_SS_CTX();
     write_internal(port, obj, AS_WRITE);
 }
 
 SCM_EXPORT void
 scm_display(ScmObj port, ScmObj obj)
 {
+    DISCARD_WRITE_SS_CTX();
     write_internal(port, obj, AS_DISPLAY);
 }
 
@@ -249,7 +255,7 @@ write_obj(ScmObj port, ScmObj obj, enum ScmOutputType otype)
         scm_port_puts(port, (SCM_SYNTAXP(obj)) ? "#<syntax " : "#<subr ");
         sym = scm_symbol_bound_to(obj);
         if (TRUEP(sym))
-            scm_display(port, sym);
+            write_internal(port, sym, AS_DISPLAY);
         else
             scm_format(port, SCM_FMT_RAW_C, "~P", (void *)obj);
         scm_port_put_char(port, '>');
@@ -587,11 +593,11 @@ write_errobj(ScmObj port, ScmObj obj, enum ScmOutputType otype)
     switch (otype) {
     case AS_WRITE:
         scm_port_puts(port, "#<error ");
-        scm_write(port, reason);
+        write_internal(port, reason, AS_WRITE);
         break;
 
     case AS_DISPLAY:
-        scm_display(port, reason);
+        write_internal(port, reason, AS_DISPLAY);
         break;
 
     default:
@@ -600,7 +606,7 @@ write_errobj(ScmObj port, ScmObj obj, enum ScmOutputType otype)
 
     FOR_EACH (elm, objs) {
         scm_port_put_char(port, ' ');
-        scm_write(port, elm);
+        write_internal(port, elm, AS_WRITE);
     }
 
     if (otype == AS_WRITE)
@@ -615,7 +621,7 @@ write_farsymbol(ScmObj port, ScmObj obj, enum ScmOutputType otype)
     scm_port_puts(port, "#<farsym");
     for (; SCM_FARSYMBOLP(obj); obj = SCM_FARSYMBOL_SYM(obj))
         scm_format(port, SCM_FMT_RAW_C, " ~MD ", SCM_FARSYMBOL_ENV(obj));
-    scm_display(port, obj); /* Name. */
+    write_internal(port, obj, AS_DISPLAY); /* Name. */
     scm_port_puts(port, ">");
 }
 #endif /* SCM_USE_HYGIENIC_MACRO */
@@ -811,8 +817,7 @@ write_ss_internal(ScmObj port, ScmObj obj, enum ScmOutputType otype)
     write_ss_scan(obj, &ctx);
 
     /* If no structure is shared, we do a normal write. */
-    if (!HASH_EMPTY(ctx.seen))
-        l_write_ss_ctx = &ctx;
+    l_write_ss_ctx = (HASH_EMPTY(ctx.seen)) ? NULL : &ctx;
 
     write_internal(port, obj, otype);
 
-- 
2.43.0


From 0e2551e38cc6f5064dccb8ddb975103e66bc0649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 32/53] fix: a port whose closing fails stays closed instead of
 referring to freed memory

---
 src/port.c             | 6 +++++-
 src/scmport-basechar.c | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/port.c b/src/port.c
index 1ec0e03..34c62e7 100644
--- a/src/port.c
+++ b/src/port.c
@@ -187,11 +187,15 @@ scm_port_newline(ScmObj port)
 SCM_EXPORT void
 scm_port_close(ScmObj port)
 {
+    ScmCharPort *impl;
+
     SCM_ASSERT(SCM_PORTP(port));
     SCM_ASSERT(SCM_PORT_IMPL(port));
 
-    SCM_CHARPORT_CLOSE(SCM_PORT_IMPL(port));
+    /* The device is released even if closing it raises an error. */
+    impl = SCM_PORT_IMPL(port);
     SCM_PORT_SET_IMPL(port, NULL);
+    SCM_CHARPORT_CLOSE(impl);
 }
 
 SCM_EXPORT ScmCharCodec *
diff --git a/src/scmport-basechar.c b/src/scmport-basechar.c
index f178ad0..a57521f 100644
--- a/src/scmport-basechar.c
+++ b/src/scmport-basechar.c
@@ -139,8 +139,12 @@ basecport_dyn_cast(ScmCharPort *cport, const ScmCharPortVTbl *dst_vptr)
 static void
 basecport_close(ScmBaseCharPort *port)
 {
-    SCM_BYTEPORT_CLOSE(port->bport);
+    ScmBytePort *bport;
+
+    /* closing the byte port may raise an error */
+    bport = port->bport;
     free(port);
+    SCM_BYTEPORT_CLOSE(bport);
 }
 
 static ScmCharCodec *
-- 
2.43.0


From d4a6c6584be50b6e76b5421d4bac3078ce4cc5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 33/53] fix: no error is raised while the garbage collector
 closes an unreferenced port

---
 src/scmport-config.h |  3 +++
 src/scmport-file.c   |  2 +-
 src/sigscheme.h      |  1 +
 src/storage-gc.c     | 13 +++++++++++++
 4 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/scmport-config.h b/src/scmport-config.h
index e50e6a8..54b7488 100644
--- a/src/scmport-config.h
+++ b/src/scmport-config.h
@@ -57,6 +57,8 @@ extern "C" {
 #define SCM_PORT_STRDUP(str)           (scm_strdup(str))
 #define SCM_CHARPORT_ERROR(cport, msg) (scm_plain_error(msg))
 #define SCM_BYTEPORT_ERROR(bport, msg) (scm_plain_error(msg))
+/* the port is being closed by the garbage collector */
+#define SCM_PORT_FINALIZINGP()         (scm_gc_finalizingp())
 #else /* SCM_SCMPORT_USE_WITH_SIGSCHEME */
 /* Allocation error handling in the macros is strongly recommended. */
 #define SCM_PORT_MALLOC(size)          (malloc(size))
@@ -72,6 +74,7 @@ extern "C" {
  */
 #define SCM_CHARPORT_ERROR(cport, msg) (exit(EXIT_FAILURE))
 #define SCM_BYTEPORT_ERROR(bport, msg) (exit(EXIT_FAILURE))
+#define SCM_PORT_FINALIZINGP()         (0)
 #endif /* SCM_SCMPORT_USE_WITH_SIGSCHEME */
 
 /*=======================================
diff --git a/src/scmport-file.c b/src/scmport-file.c
index 50489bb..f6f1f80 100644
--- a/src/scmport-file.c
+++ b/src/scmport-file.c
@@ -190,7 +190,7 @@ fileport_close(ScmFilePort *port)
     ret = (port->ownership) ? fclose(port->file) : OK;
     free(port->aux_info);
     free(port);
-    if (ret == EOF)
+    if (ret == EOF && !SCM_PORT_FINALIZINGP())
         SCM_BYTEPORT_ERROR(NULL, SCM_ERRMSG_CLOSE_PORT);
 }
 
diff --git a/src/sigscheme.h b/src/sigscheme.h
index a4acc26..d597a76 100644
--- a/src/sigscheme.h
+++ b/src/sigscheme.h
@@ -1307,6 +1307,7 @@ SCM_EXPORT void scm_gc_unprotect(ScmObj *var);
 SCM_EXPORT scm_bool scm_gc_protectedp(ScmObj obj);
 SCM_EXPORT void *scm_call_with_gc_ready_stack(ScmGCGateFunc func, void *arg);
 SCM_EXPORT scm_bool scm_gc_protected_contextp(void);
+SCM_EXPORT scm_bool scm_gc_finalizingp(void);
 /* for semantic assertions */
 #define scm_gc_any_contextp()                                                \
     (!scm_gc_protected_contextp() || scm_gc_protected_contextp())
diff --git a/src/storage-gc.c b/src/storage-gc.c
index 04bbf9d..eb5dd41 100644
--- a/src/storage-gc.c
+++ b/src/storage-gc.c
@@ -102,6 +102,7 @@ static ScmObj l_freelist;
 static ScmObj **l_protected_vars;
 static size_t l_protected_vars_size, l_n_empty_protected_vars;
 static GCROOTS_context *l_gcroots_ctx;
+static scm_bool l_finalizing;
 #if SCM_DEBUG
 static size_t l_gcing;
 static scm_bool l_allocating;
@@ -121,6 +122,7 @@ SCM_GLOBAL_VARS_END(static_gc);
 #define l_n_empty_protected_vars                                             \
     SCM_GLOBAL_VAR(static_gc, l_n_empty_protected_vars)
 #define l_gcroots_ctx          SCM_GLOBAL_VAR(static_gc, l_gcroots_ctx)
+#define l_finalizing           SCM_GLOBAL_VAR(static_gc, l_finalizing)
 #if SCM_DEBUG
 #define l_gcing                SCM_GLOBAL_VAR(static_gc, l_gcing)
 #define l_allocating           SCM_GLOBAL_VAR(static_gc, l_allocating)
@@ -187,6 +189,7 @@ scm_init_gc(const ScmStorageConf *conf)
     l_gcing = 0;
     l_allocating = scm_false;
 #endif
+    l_finalizing = scm_false;
 
     l_gcroots_ctx = GCROOTS_init(scm_malloc,
                                  (GCROOTS_mark_proc)gc_mark_locations,
@@ -788,9 +791,18 @@ gc_mark_global_vars(void)
     SCM_END_GC_SUBCONTEXT();
 }
 
+/* Returns true while an object is being finalized by the collector. No error
+ * can be raised in the context since there is no operation to fail. */
+SCM_EXPORT scm_bool
+scm_gc_finalizingp(void)
+{
+    return l_finalizing;
+}
+
 static void
 free_cell(ScmCell *cell)
 {
+    l_finalizing = scm_true;
 #if SCM_USE_STORAGE_COMPACT
     if (SCM_CELL_MISCP(*cell)) {
         if (SCM_CELL_SYMBOLP(*cell))
@@ -882,6 +894,7 @@ free_cell(ScmCell *cell)
         SCM_NOTREACHED;
     }
 #endif /* SCM_USE_STORAGE_COMPACT */
+    l_finalizing = scm_false;
 }
 
 static size_t
-- 
2.43.0


From f8660452ad36302ffed38eaee9671d1cde76a72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 34/53] fix: a closed port can be printed

---
 src/write.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/write.c b/src/write.c
index 34d8179..95e942e 100644
--- a/src/write.c
+++ b/src/write.c
@@ -544,13 +544,18 @@ write_port(ScmObj port, ScmObj obj, enum ScmOutputType otype)
         scm_port_put_char(port, 'o');
     scm_port_puts(port, "port");
 
-    /* file or string */
-    info = scm_port_inspect(obj);
-    if (*info) {
-        scm_port_put_char(port, ' ');
-        scm_port_puts(port, info);
+    if (SCM_PORT_IMPL(obj)) {
+        /* file or string */
+        info = scm_port_inspect(obj);
+        if (*info) {
+            scm_port_put_char(port, ' ');
+            scm_port_puts(port, info);
+        }
+        free(info);
+    } else {
+        /* must be printable since errors on a closed port refer to it */
+        scm_port_puts(port, " closed");
     }
-    free(info);
 
     scm_port_put_char(port, '>');
 }
-- 
2.43.0


From 785ebf68bbd7f13fb8a8d58b62d40f1e11bc3f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 35/53] fix: the REPL ends in an error when its input port was
 closed

---
 src/main.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.c b/src/main.c
index d510b9e..2a5e4c0 100644
--- a/src/main.c
+++ b/src/main.c
@@ -158,6 +158,8 @@ repl_loop(void)
 
         /* parse error */
         if (EQ(sexp, err)) {
+            if (!SCM_PORT_IMPL(scm_in))
+                PLAIN_ERR("input port has been closed");
             cport = SCM_CHARPORT_DYNAMIC_CAST(ScmBaseCharPort,
                                               SCM_PORT_IMPL(scm_in));
             if (cport) {
-- 
2.43.0


From 73828e290cfab8c574517c265382c82ab8a9bb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:44 +0000
Subject: [PATCH 36/53] fix: a module merely declared as provided is not used
 uninitialized

(provide "srfi-34") in an interpreter that never required srfi-34 made
the next error call raise with uninitialized exception handlers.
---
 src/error.c             |  2 +-
 src/module.c            | 12 +++++++++++-
 src/sigschemeinternal.h |  1 +
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/error.c b/src/error.c
index 229561b..50b4104 100644
--- a/src/error.c
+++ b/src/error.c
@@ -183,7 +183,7 @@ srfi34_providedp(void)
 {
     if (!l_srfi34_is_provided) {
         /* expensive */
-        l_srfi34_is_provided = scm_providedp(CONST_STRING("srfi-34"));
+        l_srfi34_is_provided = scm_module_initializedp("srfi-34");
     }
     return l_srfi34_is_provided;
 }
diff --git a/src/module.c b/src/module.c
index 040e22f..64a2cd1 100644
--- a/src/module.c
+++ b/src/module.c
@@ -174,7 +174,6 @@ scm_provide(ScmObj feature)
     SCM_ASSERT(STRINGP(feature));
 
     l_features = CONS(feature, l_features);
-    l_provided_modules = CONS(feature, l_provided_modules);
 }
 
 SCM_EXPORT scm_bool
@@ -183,6 +182,14 @@ scm_providedp(ScmObj feature)
     return TRUEP(scm_p_member(feature, l_features));
 }
 
+/* Unlike scm_providedp(), a feature merely declared by scm_provide() or the
+ * 'provide' procedure is not regarded as an initialized module. */
+SCM_EXPORT scm_bool
+scm_module_initializedp(const char *name)
+{
+    return TRUEP(scm_p_member(CONST_STRING(name), l_provided_modules));
+}
+
 #if 1  /* 'use' is deprecated and will be removed in SigScheme 0.9 */
 SCM_EXPORT scm_bool
 scm_use(const char *feature)
@@ -250,7 +257,10 @@ scm_p_require_module(ScmObj name)
     if ((mod = lookup_module_info(c_name))) {
         if (!scm_providedp(name)) {
             (*mod->initializer)();
+            /* NAME may be modified by its owner afterwards */
+            name = CONST_STRING(mod->name);
             scm_provide(name);
+            l_provided_modules = CONS(name, l_provided_modules);
         }
         return SCM_TRUE;
     }
diff --git a/src/sigschemeinternal.h b/src/sigschemeinternal.h
index 2ff6a64..0325a7c 100644
--- a/src/sigschemeinternal.h
+++ b/src/sigschemeinternal.h
@@ -763,6 +763,7 @@ SCM_EXPORT void scm_load_system_file(const char *file);
 
 /* module.c */
 SCM_EXPORT void scm_init_module(void);
+SCM_EXPORT scm_bool scm_module_initializedp(const char *name);
 SCM_EXPORT void scm_fin_module(void);
 
 /* sigscheme.c */
-- 
2.43.0


From 0113f9fabbdc8118d4314b92e6633c0d9e835621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 37/53] fix: a rejected argument of %%fatal-error does not hide
 later error reports

After (guard (e (#t 1)) (%%fatal-error 1)) the next uncaught error ended
in "looped fatal error" without being reported.
---
 src/error.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/error.c b/src/error.c
index 50b4104..8ce5ee8 100644
--- a/src/error.c
+++ b/src/error.c
@@ -262,8 +262,10 @@ scm_p_fatal_error(ScmObj err_obj)
         /* to avoid infinite loop by implicit assertion, use no SCM macros */
         msg = "looped fatal error";
     } else {
-        l_fatal_error_looped = scm_true;
+        /* An invalid argument is an ordinary error, possibly to be handled. It
+         * cannot loop since it is raised with a valid error object. */
         ENSURE_ERROBJ(err_obj);
+        l_fatal_error_looped = scm_true;
         scm_p_inspect_error(err_obj);
         msg = NULL;
     }
-- 
2.43.0


From f8c11bc788895e30f2441e170682ce28e4183e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:58 +0000
Subject: [PATCH 38/53] fix: read_token: signal an error for a character the
 identifier codec cannot encode

int2str() returns NULL for a code point beyond U+10FFFF, which a 4-byte
UTF-8 sequence can carry; the token reader went on writing through it.
---
 src/read.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/read.c b/src/read.c
index 6b40311..39d36ec 100644
--- a/src/read.c
+++ b/src/read.c
@@ -490,6 +490,8 @@ read_token(ScmObj port, int *err,
             /* canonicalize internal Unicode encoding */
             p = SCM_CHARCODEC_INT2STR(scm_identifier_codec, p, c,
                                       SCM_MB_STATELESS);
+            if (!p)
+                ERR("invalid char in token: 0x~MX", (scm_int_t)c);
 #else
             ERR("non-ASCII char in token: 0x~X", (int)c);
 #endif
-- 
2.43.0


From 8f45bb722ea2110a55661da1d20c17cceaf9e172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 39/53] fix: read: a character literal cut off by the end of
 input is an error

---
 src/read.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/read.c b/src/read.c
index 39d36ec..bf0df2b 100644
--- a/src/read.c
+++ b/src/read.c
@@ -777,6 +777,8 @@ read_char(ScmObj port)
 
     /* raw char (multibyte-ready) */
     c = scm_port_get_char(port);
+    if (c == SCM_ICHAR_EOF)
+        ERR("EOF in character literal");
     next = scm_port_peek_char(port);
     if (ICHAR_ASCII_CLASS(next) & SCM_CH_DELIMITER || next == SCM_ICHAR_EOF) {
 #if !SCM_USE_R6RS_CHARS
-- 
2.43.0


From 17b79fe6e4ae193fb119c4f38999cff832268b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:32 +0000
Subject: [PATCH 40/53] fix: read: a control character or backslash is a read
 error, not a failed assertion

---
 src/read.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/read.c b/src/read.c
index bf0df2b..7368c87 100644
--- a/src/read.c
+++ b/src/read.c
@@ -535,7 +535,6 @@ read_sexpression(ScmObj port)
             return read_number_or_peculiar(port);
 
         /* case labels are ordered by appearance rate and penalty cost */
-        SCM_ASSERT(ch_class == SCM_CH_TOKEN_INITIAL || c == SCM_ICHAR_EOF);
         SCM_ASSERT(c != ';');
         DISCARD_LOOKAHEAD(port);
         switch (c) {
@@ -618,7 +617,9 @@ read_sexpression(ScmObj port)
             /* NOTREACHED */
 
         default:
-            SCM_NOTREACHED;
+            /* control characters and backslash */
+            ERR("invalid character: 0x~MX", (scm_int_t)c);
+            /* NOTREACHED */
         }
     }
 }
-- 
2.43.0


From c8ae9aa391df1e2ea81f9a225b6e081a771201a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:16 +0000
Subject: [PATCH 41/53] fix: format compared only the low byte of a directive
 character

---
 src/format.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/format.c b/src/format.c
index 2b069ef..d8e48db 100644
--- a/src/format.c
+++ b/src/format.c
@@ -472,7 +472,7 @@ format_directive(ScmObj port, scm_ichar_t last_ch,
                  format_string_t *fmt, struct scm_format_args args)
 {
     const void *orig_pos;
-    char directive;
+    scm_ichar_t directive;
     scm_bool eolp;
 #if SCM_USE_SRFI48
     ScmObj obj, indirect_fmt, indirect_args, proc_pretty_print;
@@ -546,7 +546,7 @@ format_directive(ScmObj port, scm_ichar_t last_ch,
 #endif /* SCM_USE_SRFI48 */
 
     if (prefixedp)
-        ERR("invalid prefix for directive ~~~C", (scm_ichar_t)directive);
+        ERR("invalid prefix for directive ~~~C", directive);
 
     if (fcap & SCM_FMT_SRFI28) {
         switch (directive) {
@@ -643,7 +643,7 @@ format_directive(ScmObj port, scm_ichar_t last_ch,
 
     /* Although SRFI-48 does not specified about unknown directives, the
      * reference implementation treats it as error. */
-    ERR(ERRMSG_INVALID_ESCSEQ ": ~~~C", (scm_ichar_t)directive);
+    ERR(ERRMSG_INVALID_ESCSEQ ": ~~~C", directive);
 
  fin:
     FORMAT_STR_SKIP_CHAR(*fmt);
-- 
2.43.0


From e322644ee0196c46807204a9a2b6aedc65931a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:46 +0000
Subject: [PATCH 42/53] fix: format kept a pointer into a format string ~y
 could alter

---
 src/format.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/format.c b/src/format.c
index d8e48db..8d4beff 100644
--- a/src/format.c
+++ b/src/format.c
@@ -721,10 +721,14 @@ scm_lformat(ScmObj port,
             enum ScmFormatCapability fcap, const char *fmt, ScmObj scm_args)
 {
     struct scm_format_args args;
+    /* The format string may be altered by the user-defined pretty-print
+     * procedure called for ~y, or be reclaimed while it is processed. */
+    volatile ScmObj fmt_copy;
 
+    fmt_copy = MAKE_IMMUTABLE_STRING_COPYING(fmt, SCM_STRLEN_UNKNOWN);
     args.type = ARG_SCM_LIST;
     args.lst.scm = &scm_args;
-    return format_internal(port, fcap, fmt, args);
+    return format_internal(port, fcap, SCM_STRING_STR(fmt_copy), args);
 }
 
 SCM_EXPORT ScmObj
-- 
2.43.0


From 0b095cbae145c74825034cf4f44fa273533d40ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:43 +0000
Subject: [PATCH 43/53] fix: definitions were accepted as a test, value or
 initialiser of a toplevel form

A define at a place that is neither the toplevel nor the head of a body
is an error, as for 'and', 'or' and 'do': (let ((x (define y 1))) x)
defined y at the toplevel.
---
 src/macro.c             |  4 ++--
 src/module-srfi2.c      |  4 ++--
 src/module-srfi43.c     |  4 ++--
 src/module-srfi8.c      |  2 +-
 src/module-sscm-ext.c   |  4 ++--
 src/qquote.c            |  4 ++--
 src/sigschemeinternal.h |  7 +++++++
 src/syntax.c            | 24 ++++++++----------------
 8 files changed, 26 insertions(+), 27 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index 4662d1f..73c6cb2 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -271,7 +271,7 @@ scm_s_expand_macro(ScmObj macro, ScmObj args, ScmEvalState *eval_state)
     ScmObj ret;
     DECLARE_FUNCTION("expand-macro", syntax_variadic_tailrec_1);
 
-    macro = EVAL(macro, eval_state->env);
+    macro = EVAL(macro, FORBID_TOPLEVEL_DEFINITIONS(eval_state->env));
     ENSURE_TYPE(HMACROP, "macro", macro);
 
     ret = scm_expand_macro(macro, args, eval_state);
@@ -337,7 +337,7 @@ scm_s_match(ScmObj form, ScmObj clauses, ScmEvalState *state)
     compilation_context ctx;
     DECLARE_FUNCTION("match", syntax_variadic_tailrec_1);
 
-    form             = EVAL(form, state->env);
+    form             = EVAL(form, FORBID_TOPLEVEL_DEFINITIONS(state->env));
     ctx.pvmark       = MAKE_PVAR(SCM_NULL, 0);
     ctx.literals     = SCM_NULL;
     ctx.mode.pattern = scm_true;
diff --git a/src/module-srfi2.c b/src/module-srfi2.c
index 00aaa62..f446351 100644
--- a/src/module-srfi2.c
+++ b/src/module-srfi2.c
@@ -88,7 +88,7 @@ scm_s_srfi2_and_letstar(ScmObj claws, ScmObj body, ScmEvalState *eval_state)
             if (NULLP(CDR(claw))) {
                 /* (<expression>) */
                 exp = CAR(claw);
-                val = EVAL(exp, env);
+                val = EVAL(exp, FORBID_TOPLEVEL_DEFINITIONS(env));
                 CHECK_VALID_EVALED_VALUE(val);
             } else if (IDENTIFIERP(CAR(claw))) {
                 /* (<variable> <expression>) */
@@ -96,7 +96,7 @@ scm_s_srfi2_and_letstar(ScmObj claws, ScmObj body, ScmEvalState *eval_state)
                     goto err;
                 var = CAR(claw);
                 exp = CADR(claw);
-                val = EVAL(exp, env);
+                val = EVAL(exp, FORBID_TOPLEVEL_DEFINITIONS(env));
                 CHECK_VALID_EVALED_VALUE(val);
                 env = scm_extend_environment(LIST_1(var), LIST_1(val), env);
             } else {
diff --git a/src/module-srfi43.c b/src/module-srfi43.c
index 8251d00..03f8832 100644
--- a/src/module-srfi43.c
+++ b/src/module-srfi43.c
@@ -119,9 +119,9 @@ scm_s_let_vector_start_plus_end(ScmObj callee, ScmObj vec,
     proc_check_type = EVAL(l_sym_check_type, env);
     vectorp = EVAL(l_sym_vectorp, env);
     CHECK_VALID_EVALED_VALUE(vectorp);
-    vec = EVAL(vec, env);
+    vec = EVAL(vec, FORBID_TOPLEVEL_DEFINITIONS(env));
     CHECK_VALID_EVALED_VALUE(vec);
-    callee_val = EVAL(callee, env);
+    callee_val = EVAL(callee, FORBID_TOPLEVEL_DEFINITIONS(env));
     CHECK_VALID_EVALED_VALUE(callee_val);
     check_type_args = LIST_3(vectorp, vec, callee_val);
     vec = scm_call(proc_check_type, check_type_args);
diff --git a/src/module-srfi8.c b/src/module-srfi8.c
index 0683636..9fcd0fa 100644
--- a/src/module-srfi8.c
+++ b/src/module-srfi8.c
@@ -94,7 +94,7 @@ scm_s_srfi8_receive(ScmObj formals, ScmObj expr, ScmObj body,
      * will be extended after the evaluation. So current implementation is
      * correct, I think.  -- YamaKen 2006-01-05
      */
-    actuals = EVAL(expr, env);
+    actuals = EVAL(expr, FORBID_TOPLEVEL_DEFINITIONS(env));
 
     if (SCM_VALUEPACKETP(actuals)) {
         actuals = SCM_VALUEPACKET_VALUES(actuals);
diff --git a/src/module-sscm-ext.c b/src/module-sscm-ext.c
index 7626f1b..e4d33c6 100644
--- a/src/module-sscm-ext.c
+++ b/src/module-sscm-ext.c
@@ -389,7 +389,7 @@ scm_s_let_optionalsstar(ScmObj args, ScmObj bindings, ScmObj body,
 
     env = eval_state->env;
 
-    args = EVAL(args, env);
+    args = EVAL(args, FORBID_TOPLEVEL_DEFINITIONS(env));
     ENSURE_LIST(args);
 
     /*=======================================================================
@@ -422,7 +422,7 @@ scm_s_let_optionalsstar(ScmObj args, ScmObj bindings, ScmObj body,
         if (NULLP(args)) {
             /* the second element is only evaluated when there are not enough
              * arguments */
-            val = EVAL(exp, env);
+            val = EVAL(exp, FORBID_TOPLEVEL_DEFINITIONS(env));
             CHECK_VALID_EVALED_VALUE(val);
         } else {
             /* args may be a dotted list, or may have been modified by the
diff --git a/src/qquote.c b/src/qquote.c
index 8598e58..7be08ae 100644
--- a/src/qquote.c
+++ b/src/qquote.c
@@ -482,7 +482,7 @@ qquote_internal(ScmObj input, ScmObj env, scm_int_t nest)
                     ERR_OBJ("invalid unquote form", form);
 
                 if (--nest == 0) {
-                    obj = EVAL(CAR(args), env);
+                    obj = EVAL(CAR(args), FORBID_TOPLEVEL_DEFINITIONS(env));
                     CHECK_VALID_EVALED_VALUE(obj);
                     TRL_SET_SUBLS(tr, obj);
                     my_result.obj = TRL_EXTRACT(tr);
@@ -501,7 +501,7 @@ qquote_internal(ScmObj input, ScmObj env, scm_int_t nest)
                      * If a comma appears followed immediately by an
                      * at-sign (@), then the following expression must
                      * evaluate to a list */
-                    obj = EVAL(CAR(args), env);
+                    obj = EVAL(CAR(args), FORBID_TOPLEVEL_DEFINITIONS(env));
                     /* Properness check of the list is performed on splice
                      * operation of (lis|vec)tran(). */
                     if (!LISTP(obj))
diff --git a/src/sigschemeinternal.h b/src/sigschemeinternal.h
index 0325a7c..bb47abf 100644
--- a/src/sigschemeinternal.h
+++ b/src/sigschemeinternal.h
@@ -204,6 +204,13 @@ extern "C" {
 #if SCM_STRICT_TOPLEVEL_DEFINITIONS
 /* FIXME: temporary hack. SCM_EOF is only used as an unique ID. */
 #define SCM_INTERACTION_ENV_INDEFINABLE SCM_EOF
+
+/* evaluates an expression that is not a toplevel form even if env is the
+ * toplevel one */
+#define FORBID_TOPLEVEL_DEFINITIONS(env)                                     \
+    (EQ((env), SCM_INTERACTION_ENV) ? SCM_INTERACTION_ENV_INDEFINABLE : (env))
+#else
+#define FORBID_TOPLEVEL_DEFINITIONS(env) (env)
 #endif
 
 /* specifies whether the storage abstraction layer can only handle nested
diff --git a/src/syntax.c b/src/syntax.c
index 205e712..c7c6d6e 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -58,14 +58,6 @@
 #define ERRMSG_BAD_DEFINE_PLACEMENT "internal definitions feature is disabled"
 #endif
 
-/* FIXME: temporary hack */
-#if SCM_STRICT_TOPLEVEL_DEFINITIONS
-#define FORBID_TOPLEVEL_DEFINITIONS(env)                                     \
-    (EQ((env), SCM_INTERACTION_ENV) ? SCM_INTERACTION_ENV_INDEFINABLE : (env))
-#else
-#define FORBID_TOPLEVEL_DEFINITIONS(env) (env)
-#endif
-
 #if SCM_USE_HYGIENIC_MACRO
 #define CHECK_VALID_BINDEE(permitted_type, bindee)                           \
     do {                                                                     \
@@ -217,7 +209,7 @@ scm_s_if(ScmObj test, ScmObj conseq, ScmObj rest, ScmEvalState *eval_state)
       (if <test> <consequent> <alternate>)
     =======================================================================*/
 
-    test = EVAL(test, env);
+    test = EVAL(test, FORBID_TOPLEVEL_DEFINITIONS(env));
     CHECK_VALID_EVALED_VALUE(test);
     if (TRUEP(test)) {
 #if SCM_STRICT_ARGCHECK
@@ -251,7 +243,7 @@ scm_s_setx(ScmObj sym, ScmObj exp, ScmObj env)
 
     ENSURE_SYMBOL(sym);
 
-    evaled = EVAL(exp, env);
+    evaled = EVAL(exp, FORBID_TOPLEVEL_DEFINITIONS(env));
     CHECK_VALID_EVALED_VALUE(evaled);
     locally_bound = scm_lookup_environment(sym, env);
     if (locally_bound != SCM_INVALID_REF) {
@@ -321,7 +313,7 @@ scm_s_cond_internal(ScmObj clauses, ScmEvalState *eval_state)
             return scm_s_begin(exps, eval_state);
         }
         
-        test = EVAL(test, env);
+        test = EVAL(test, FORBID_TOPLEVEL_DEFINITIONS(env));
         CHECK_VALID_EVALED_VALUE(test);
         if (TRUEP(test)) {
             /*
@@ -342,7 +334,7 @@ scm_s_cond_internal(ScmObj clauses, ScmEvalState *eval_state)
              * returned by the cond expression.
              */
             if (LIST_2_P(exps) && EQ(l_sym_yields, CAR(exps))) {
-                proc = EVAL(CADR(exps), env);
+                proc = EVAL(CADR(exps), FORBID_TOPLEVEL_DEFINITIONS(env));
                 if (!PROCEDUREP(proc))
                     ERR_OBJ("exp after => must be a procedure but got", proc);
 
@@ -405,7 +397,7 @@ scm_s_case(ScmObj key, ScmObj clauses, ScmEvalState *eval_state)
     if (NO_MORE_ARG(clauses))
         ERR(ERRMSG_CLAUSE_REQUIRED);
 
-    key = EVAL(key, eval_state->env);
+    key = EVAL(key, FORBID_TOPLEVEL_DEFINITIONS(eval_state->env));
     CHECK_VALID_EVALED_VALUE(key);
 
     FOR_EACH (clause, clauses) {
@@ -555,7 +547,7 @@ scm_s_let_internal(enum ScmObjType permitted, ScmObj bindings, ScmObj body,
             ERR_OBJ(ERRMSG_DUPLICATE_VARNAME, var);
 #endif
         exp = CADR(binding);
-        val = EVAL(exp, env);
+        val = EVAL(exp, FORBID_TOPLEVEL_DEFINITIONS(env));
         CHECK_VALID_BINDEE(permitted, val);
 
         SCM_QUEUE_ADD(varq, var);
@@ -608,7 +600,7 @@ scm_s_letstar(ScmObj bindings, ScmObj body, ScmEvalState *eval_state)
             ERR_OBJ(ERRMSG_INVALID_BINDING, binding);
 
         exp = CADR(binding);
-        val = EVAL(exp, env);
+        val = EVAL(exp, FORBID_TOPLEVEL_DEFINITIONS(env));
         CHECK_VALID_EVALED_VALUE(val);
 
         /* extend env for each variable */
@@ -971,7 +963,7 @@ scm_s_define_internal(enum ScmObjType permitted,
     SCM_ASSERT(SYMBOLP(var));
 #endif
     var = SCM_UNWRAP_KEYWORD(var);
-    val = EVAL(exp, env);
+    val = EVAL(exp, FORBID_TOPLEVEL_DEFINITIONS(env));
     CHECK_VALID_BINDEE(permitted, val);
 
     SCM_SYMBOL_SET_VCELL(var, val);
-- 
2.43.0


From 84e0aaec12732ad33229619d0fd5d862473d1012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:37 +0000
Subject: [PATCH 44/53] fix: define-syntax in a body or an expression defined
 at the toplevel

---
 src/macro.c     | 11 ++++++++---
 src/sigscheme.h |  3 ++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index 73c6cb2..7faccc5 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -393,14 +393,19 @@ scm_s_letrec_syntax(ScmObj bindings, ScmObj body, ScmEvalState *eval_state)
 }
 
 SCM_EXPORT ScmObj
-scm_s_define_syntax(ScmObj var, ScmObj macro, ScmObj env)
+scm_s_define_syntax(ScmObj var, ScmObj macro, ScmEvalState *eval_state)
 {
-    DECLARE_FUNCTION("define-syntax", syntax_fixed_2);
+    DECLARE_FUNCTION("define-syntax", syntax_fixed_tailrec_2);
+
+    /* R5RS: 5.3 Syntax definitions: valid only at the toplevel */
+    if (!SCM_DEFINABLE_TOPLEVELP(eval_state))
+        ERR_OBJ("syntax definition is not allowed here", var);
 
     ENSURE_IDENTIFIER(var);
 
-    scm_s_define_internal(ScmMacro, var, macro, env);
+    scm_s_define_internal(ScmMacro, var, macro, eval_state->env);
 
+    eval_state->ret_type = SCM_VALTYPE_AS_IS;
     return SCM_UNDEF;
 }
 
diff --git a/src/sigscheme.h b/src/sigscheme.h
index d597a76..0db37bc 100644
--- a/src/sigscheme.h
+++ b/src/sigscheme.h
@@ -1598,7 +1598,8 @@ SCM_EXPORT ScmObj scm_s_let_syntax(ScmObj bindings, ScmObj body,
                                    ScmEvalState *eval_state);
 SCM_EXPORT ScmObj scm_s_letrec_syntax(ScmObj bindings, ScmObj body,
                                       ScmEvalState *eval_state);
-SCM_EXPORT ScmObj scm_s_define_syntax(ScmObj var, ScmObj macro, ScmObj env);
+SCM_EXPORT ScmObj scm_s_define_syntax(ScmObj var, ScmObj macro,
+                                      ScmEvalState *eval_state);
 SCM_EXPORT ScmObj scm_unwrap_syntaxx(ScmObj obj);
 SCM_EXPORT ScmObj scm_unwrap_keyword(ScmObj obj);
 #endif
-- 
2.43.0


From 8669ca66bc4da3a342b9aed6a0b6e935b0eb1c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:01 +0000
Subject: [PATCH 45/53] fix: a variable of a named let was hidden by the name
 of the loop

(let foo ((foo 5)) foo) gave the procedure instead of 5.
---
 src/syntax.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/syntax.c b/src/syntax.c
index c7c6d6e..ebeb12c 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -556,16 +556,15 @@ scm_s_let_internal(enum ScmObjType permitted, ScmObj bindings, ScmObj body,
     if (!NULLP(bindings))
         ERR_OBJ(ERRMSG_INVALID_BINDINGS, bindings);
 
-    env = scm_extend_environment(formals, actuals, env);
-
-    /* named let */
+    /* named let: the name is bound outside of the variables */
     if (IDENTIFIERP(named_let_sym)) {
+        env = scm_extend_environment(LIST_1(named_let_sym),
+                                     LIST_1(SCM_UNBOUND), env);
         proc = MAKE_CLOSURE(CONS(formals, body), env);
-        env = scm_add_environment(named_let_sym, proc, env);
-        SCM_CLOSURE_SET_ENV(proc, env);
+        env = scm_update_environment(LIST_1(proc), env);
     }
 
-    eval_state->env = env;
+    eval_state->env = scm_extend_environment(formals, actuals, env);
     return scm_s_body(body, eval_state);
 }
 
-- 
2.43.0


From 24aa757556e03d26a5baaf4661d8b2d61a0da9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:48 +0000
Subject: [PATCH 46/53] fix: (cond (test => proc)) applied a local variable
 named quote to the value of the test

---
 src/syntax.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/syntax.c b/src/syntax.c
index ebeb12c..f7243c3 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -91,7 +91,7 @@ SCM_DEFINE_EXPORTED_VARS(syntax);
 
 SCM_GLOBAL_VARS_BEGIN(static_syntax);
 #define static
-static ScmObj l_sym_else, l_sym_yields, l_sym_define;
+static ScmObj l_sym_else, l_sym_yields, l_sym_define, l_syn_quote;
 #if SCM_USE_INTERNAL_DEFINITIONS
 static ScmObj l_sym_begin, l_syn_lambda;
 #endif /* SCM_USE_INTERNAL_DEFINITIONS */
@@ -102,6 +102,7 @@ SCM_GLOBAL_VARS_END(static_syntax);
 #define l_sym_define SCM_GLOBAL_VAR(static_syntax, l_sym_define)
 #define l_sym_begin  SCM_GLOBAL_VAR(static_syntax, l_sym_begin)
 #define l_syn_lambda SCM_GLOBAL_VAR(static_syntax, l_syn_lambda)
+#define l_syn_quote  SCM_GLOBAL_VAR(static_syntax, l_syn_quote)
 SCM_DEFINE_STATIC_VARS(static_syntax);
 
 /*=======================================
@@ -132,6 +133,9 @@ scm_init_syntax(void)
     l_sym_else   = scm_intern("else");
     l_sym_yields = scm_intern("=>");
     l_sym_define = scm_intern("define");
+    scm_gc_protect_with_init(&l_syn_quote,
+                             scm_symbol_value(SYM_QUOTE,
+                                              SCM_INTERACTION_ENV));
 #if SCM_USE_INTERNAL_DEFINITIONS
     l_sym_begin  = scm_intern("begin");
     scm_gc_protect_with_init(&l_syn_lambda,
@@ -347,7 +351,8 @@ scm_s_cond_internal(ScmObj clauses, ScmEvalState *eval_state)
                  * evaluation of <expression2> is in a tail
                  * context. <expression2> itself is not in a tail context.
                  */
-                return LIST_2(proc, LIST_2(SYM_QUOTE, test));
+                /* l_syn_quote: the variable 'quote' may be bound locally */
+                return LIST_2(proc, LIST_2(l_syn_quote, test));
             }
 
             return scm_s_begin(exps, eval_state);
-- 
2.43.0


From 1edf8ad25c38f2831043fdc9ea6784512dd9a249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:37 +0000
Subject: [PATCH 47/53] fix: guard raised an untaken condition through local
 variables named raise or quote

---
 src/module-srfi34.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/module-srfi34.c b/src/module-srfi34.c
index e773f70..72d7472 100644
--- a/src/module-srfi34.c
+++ b/src/module-srfi34.c
@@ -421,8 +421,10 @@ guard_handler_body(ScmObj q_handler_k, ScmObj env)
             caught = EVAL(caught, cond_env);
         scm_call_continuation(guard_k, delay(caught, cond_env));
     } else {
-        reraise = enclose(LIST_2(l_sym_raise, LIST_2(SYM_QUOTE, condition)),
-                          cond_env);
+        /* 'raise' and 'quote' may be bound locally in cond_env */
+        reraise = enclose(LIST_2(l_sym_raise,
+                                 LIST_2(l_syn_raw_quote, condition)),
+                          SCM_INTERACTION_ENV);
         scm_call_continuation(handler_k, reraise);
     }
     /* NOTREACHED */
-- 
2.43.0


From a5c28ec084dcdf4ae1239312842435de17303a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 48/53] fix: do not rely on wrapping native arithmetic in + and
 -

The overflow tests looked at the sum after computing it. Overflow of a native
signed addition is undefined, and a compiler may drop such tests: built by
clang -O2 with 64-bit fixnums, (+ (greatest-fixnum) 1) delivers the least
fixnum. Test the operands before the operation.
---
 src/number.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/number.c b/src/number.c
index 9d3904f..91f8272 100644
--- a/src/number.c
+++ b/src/number.c
@@ -83,11 +83,11 @@ scm_p_add(ScmObj left, ScmObj right, enum ScmReductionState *state)
     case SCM_REDUCE_1:
         ENSURE_INT(right);
         r = SCM_INT_VALUE(right);
-        result = l + r;
-        if (INT_OUT_OF_RANGEP(result)
-            || (r > 0 && result < l)
-            || (r < 0 && result > l))
+        /* must be tested before the addition: native overflow is undefined */
+        if ((r > 0 && l > SCM_INT_MAX - r)
+            || (r < 0 && l < SCM_INT_MIN - r))
             ERR(ERRMSG_FIXNUM_OVERFLOW);
+        result = l + r;
         /* Fall through. */
     case SCM_REDUCE_0:
         break;
@@ -153,11 +153,11 @@ scm_p_subtract(ScmObj left, ScmObj right, enum ScmReductionState *state)
     case SCM_REDUCE_1:
         ENSURE_INT(right);
         r = SCM_INT_VALUE(right);
-        result = l - r;
-        if (INT_OUT_OF_RANGEP(result)
-            || (r > 0 && result > l)
-            || (r < 0 && result < l))
+        /* must be tested before the subtraction: native overflow is undefined */
+        if ((r > 0 && l < SCM_INT_MIN + r)
+            || (r < 0 && l > SCM_INT_MAX + r))
             ERR(ERRMSG_FIXNUM_OVERFLOW);
+        result = l - r;
         break;
 
     case SCM_REDUCE_0:
-- 
2.43.0


From 047f7d6135f64bcdb0a0afe472a3f0ffb1733bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:48 +0000
Subject: [PATCH 49/53] fix: reject an improper clause list in syntax-rules and
 match

---
 src/macro.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/macro.c b/src/macro.c
index 7faccc5..4d7fbe7 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -326,6 +326,7 @@ scm_s_syntax_rules(ScmObj args, ScmObj env)
         tmpl = compile(&ctx, CADR(rule));
         SCM_QUEUE_ADD(q, CONS(pat, tmpl));
     }
+    ASSERT_NO_MORE_ARG(args);
 
     return MAKE_HMACRO(compiled_rules, env);
 }
@@ -369,6 +370,8 @@ scm_s_match(ScmObj form, ScmObj clauses, ScmEvalState *state)
             return scm_s_begin(CDR(clause), state);
         }
     }
+    ASSERT_NO_MORE_ARG(clauses);
+
     return SCM_UNDEF;
 }
 
-- 
2.43.0


From bb65866404f2e5ce8b4b233db8ff63670c221ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:35 +0000
Subject: [PATCH 50/53] fix: record the right length for the feature name of a
 required file

---
 src/module-sscm-ext.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module-sscm-ext.c b/src/module-sscm-ext.c
index e4d33c6..dceae07 100644
--- a/src/module-sscm-ext.c
+++ b/src/module-sscm-ext.c
@@ -265,7 +265,7 @@ make_loaded_str(const char *filename)
     loaded_str = scm_malloc(size);
     sprintf(loaded_str, "*%s-loaded*", filename);
 
-    return MAKE_IMMUTABLE_STRING(loaded_str, size - 1);
+    return MAKE_IMMUTABLE_STRING(loaded_str, STRLEN_UNKNOWN);
 }
 
 /*
-- 
2.43.0


From 76f9bc095e5abc8f135350705b4a1eb4f596c45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:42 +0000
Subject: [PATCH 51/53] fix: reject a NUL written as a hex escape in a string
 literal

---
 src/read.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/read.c b/src/read.c
index 7368c87..d247713 100644
--- a/src/read.c
+++ b/src/read.c
@@ -867,6 +867,10 @@ read_string(ScmObj port)
                 if (!p)
                     ERR("invalid inline hex escape in string: 0x~MX",
                         (scm_int_t)c);
+#if !SCM_USE_NULL_CAPABLE_STRING
+                if (c == '\0')
+                    ERR(SCM_ERRMSG_NULL_IN_STRING);
+#endif
                 c = scm_port_get_char(port);
                 if (c != ';')
                     ERR("inline hex escape must be followed by ';'");
-- 
2.43.0


From f4a1efe6fc5e74f700b64b5a75306278d4eb3777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:04 +0000
Subject: [PATCH 52/53] fix: integer->char accepted integers beyond the native
 character type in encodings other than Unicode

---
 src/char.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/char.c b/src/char.c
index 89cf5ad..f35f271 100644
--- a/src/char.c
+++ b/src/char.c
@@ -275,7 +275,8 @@ scm_p_integer2char(ScmObj n)
 
     val = SCM_INT_VALUE(n);
 #if SCM_USE_MULTIBYTE_CHAR
-    if ((SCM_CHARCODEC_CCS(scm_current_char_codec) == SCM_CCS_UNICODE
+    if (val < 0 || val > SCM_ICHAR_T_MAX  /* must be tested before narrowing */
+        || (SCM_CHARCODEC_CCS(scm_current_char_codec) == SCM_CCS_UNICODE
          && !ICHAR_VALID_UNICODEP(val))
         || (!SCM_CHARCODEC_CHAR_LEN(scm_current_char_codec, val)
             && val != 0))  /* NUL is a valid char */
-- 
2.43.0


From f1b6a1e5c4425534e807ff0a791d51371f35ec39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:04 +0000
Subject: [PATCH 53/53] fix: hexadecimal character value was truncated before
 the range check

---
 src/read.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/read.c b/src/read.c
index d247713..ffbc6dd 100644
--- a/src/read.c
+++ b/src/read.c
@@ -714,7 +714,7 @@ read_list(ScmObj port, scm_ichar_t closing_paren)
 static scm_ichar_t
 parse_unicode_sequence(const char *seq, int len)
 {
-    scm_ichar_t c;
+    scm_int_t c;
     int err;
     DECLARE_INTERNAL_FUNCTION("read");
 
@@ -731,7 +731,7 @@ parse_unicode_sequence(const char *seq, int len)
      * the sequence of <digit 16>s forms a hexadecimal number between 0 and
      * #x10FFFF excluding the range [#xD800, #xDFFF] */
     if (!ICHAR_VALID_UNICODEP(c))
-        ERR("invalid Unicode value: 0x~MX", (scm_int_t)c);
+        ERR("invalid Unicode value: 0x~MX", c);
 
     return c;
 }
-- 
2.43.0

