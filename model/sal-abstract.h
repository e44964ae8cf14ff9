/* Abstract storage layer used by the analyses instead of storage-compact.h /
 * storage-fatty.h.  Every object predicate, accessor and mutator becomes a
 * declared primitive so that the analyses see the resolved operation. */
#ifndef VERIF_SAL_ABSTRACT_H
#define VERIF_SAL_ABSTRACT_H
#include <stddef.h>
#include <limits.h>
#include <stdlib.h>

struct sal_obj_;
typedef __attribute__((address_space(7))) struct sal_obj_ *ScmObj;
typedef ScmObj *ScmRef;
typedef struct ScmCell_ { void *x, *y; } ScmCell;
typedef ScmObj (*ScmFuncType)();
#define ALIGNOF_SCMOBJ 8
#define SIZEOF_SCMOBJ  8
struct ScmCharPort_;
enum ScmPortFlag;

#define SALC __attribute__((const, nothrow))
#define SALP __attribute__((pure, nothrow))

/* ---- configuration matrix (taken from the real storage) ---- */
#define SCM_SAL_HAS_CHAR     1
#define SCM_SAL_HAS_RATIONAL 0
#define SCM_SAL_HAS_REAL     0
#define SCM_SAL_HAS_COMPLEX  0
#define SCM_SAL_HAS_STRING   1
#define SCM_SAL_HAS_VECTOR   1
#if SCM_USE_STORAGE_FATTY
#define SCM_SAL_HAS_IMMUTABLE_CONS   1
#else
#define SCM_SAL_HAS_IMMUTABLE_CONS   0
#endif
#define SCM_SAL_HAS_IMMUTABLE_STRING 1
#define SCM_SAL_HAS_IMMUTABLE_VECTOR 1
#if SCM_USE_STORAGE_FATTY
#define SCM_SAL_HAS_IMMEDIATE_CHAR_ONLY     0
#define SCM_SAL_HAS_IMMEDIATE_NUMBER_ONLY   0
#define SCM_SAL_HAS_IMMEDIATE_INT_ONLY      0
#else
#define SCM_SAL_HAS_IMMEDIATE_CHAR_ONLY     1
#define SCM_SAL_HAS_IMMEDIATE_NUMBER_ONLY   1
#define SCM_SAL_HAS_IMMEDIATE_INT_ONLY      1
#endif
#define SCM_SAL_HAS_IMMEDIATE_RATIONAL_ONLY 0
#define SCM_SAL_HAS_IMMEDIATE_REAL_ONLY     0
#define SCM_SAL_HAS_IMMEDIATE_COMPLEX_ONLY  0
#define SCM_SAL_PTR_BITS    (sizeof(void *) * CHAR_BIT)
#if SCM_USE_STORAGE_FATTY
#define SCM_SAL_CHAR_BITS   (sizeof(scm_ichar_t) * CHAR_BIT)
#define SCM_SAL_CHAR_MAX    SCM_ICHAR_T_MAX
#define SCM_SAL_INT_BITS    (sizeof(scm_int_t) * CHAR_BIT)
#define SCM_SAL_INT_MAX     SCM_INT_T_MAX
#define SCM_SAL_INT_MIN     SCM_INT_T_MIN
#else
#define SCM_SAL_CHAR_BITS   (sizeof(scm_ichar_t) * CHAR_BIT)
#define SCM_SAL_CHAR_MAX    SCM_ICHAR_T_MAX
#define SCM_SAL_INT_BITS    60
#define SCM_SAL_INT_MAX     ((scm_int_t)(SCM_INT_T_MAX >> 4))
#define SCM_SAL_INT_MIN     ((scm_int_t)(SCM_INT_T_MIN >> 4))
#endif
#define SCM_SAL_STRLEN_BITS SCM_INT_BITS
#define SCM_SAL_STRLEN_MAX  SCM_INT_MAX
#define SCM_SAL_VECLEN_BITS SCM_INT_BITS
#define SCM_SAL_VECLEN_MAX  SCM_INT_MAX

/* ---- kinds ---- */
SALC enum ScmObjType sal_type(ScmObj o);
#define SCM_SAL_TYPE(o) sal_type(o)
#define SALPRED(n) SALC int sal_##n(ScmObj o);
SALPRED(intp) SALPRED(consp) SALPRED(symbolp) SALPRED(charp) SALPRED(stringp)
SALPRED(funcp) SALPRED(closurep) SALPRED(vectorp) SALPRED(portp)
SALPRED(continuationp) SALPRED(valuepacketp) SALPRED(hmacrop)
SALPRED(farsymbolp) SALPRED(subpatp) SALPRED(constantp) SALPRED(c_pointerp)
SALPRED(c_funcpointerp) SALPRED(freecellp)
#define SCM_SAL_NUMBERP(o)  sal_intp(o)
#define SCM_SAL_INTP(o)     sal_intp(o)
#define SCM_SAL_CONSP(o)    sal_consp(o)
#define SCM_SAL_SYMBOLP(o)  sal_symbolp(o)
#define SCM_SAL_CHARP(o)    sal_charp(o)
#define SCM_SAL_STRINGP(o)  sal_stringp(o)
#define SCM_SAL_FUNCP(o)    sal_funcp(o)
#define SCM_SAL_CLOSUREP(o) sal_closurep(o)
#define SCM_SAL_VECTORP(o)  sal_vectorp(o)
#define SCM_SAL_PORTP(o)    sal_portp(o)
#define SCM_SAL_CONTINUATIONP(o) sal_continuationp(o)
#define SCM_SAL_VALUEPACKETP(o)  sal_valuepacketp(o)
#define SCM_SAL_MACROP(o)    sal_hmacrop(o)
#define SCM_SAL_HMACROP(o)   sal_hmacrop(o)
#define SCM_SAL_FARSYMBOLP(o) sal_farsymbolp(o)
#define SCM_SAL_SUBPATP(o)   sal_subpatp(o)
#define SCM_SAL_CONSTANTP(o) sal_constantp(o)
#define SCM_SAL_C_POINTERP(o) sal_c_pointerp(o)
#define SCM_SAL_C_FUNCPOINTERP(o) sal_c_funcpointerp(o)
#define SCM_SAL_FREECELLP(o) sal_freecellp(o)

/* ---- accessors ---- */
SALC scm_int_t sal_int_value(ScmObj o);
#define SCM_SAL_INT_VALUE(o) sal_int_value(o)
SALP ScmObj sal_cons_car(ScmObj o);
SALP ScmObj sal_cons_cdr(ScmObj o);
void sal_cons_set_car(ScmObj o, ScmObj v);
void sal_cons_set_cdr(ScmObj o, ScmObj v);
#define SCM_SAL_CONS_CAR(o) sal_cons_car(o)
#define SCM_SAL_CONS_CDR(o) sal_cons_cdr(o)
#define SCM_SAL_CONS_SET_CAR(o, v) sal_cons_set_car((o), (v))
#define SCM_SAL_CONS_SET_CDR(o, v) sal_cons_set_cdr((o), (v))
#if SCM_SAL_HAS_IMMUTABLE_CONS
SALC int sal_cons_mutablep(ScmObj o);
#define SCM_SAL_CONS_MUTABLEP(o) sal_cons_mutablep(o)
#else
#define SCM_SAL_CONS_MUTABLEP(o) scm_true
#endif
void sal_set_mutable(ScmObj o);
void sal_set_immutable(ScmObj o);
#define SCM_SAL_CONS_SET_MUTABLE(o)   sal_set_mutable(o)
#define SCM_SAL_CONS_SET_IMMUTABLE(o) sal_set_immutable(o)

SALP char *sal_symbol_name(ScmObj o);
SALP ScmObj sal_symbol_vcell(ScmObj o);
void sal_symbol_set_name(ScmObj o, char *n);
void sal_symbol_set_vcell(ScmObj o, ScmObj v);
#define SCM_SAL_SYMBOL_NAME(o) sal_symbol_name(o)
#define SCM_SAL_SYMBOL_VCELL(o) sal_symbol_vcell(o)
#define SCM_SAL_SYMBOL_SET_NAME(o, n) sal_symbol_set_name((o), (n))
#define SCM_SAL_SYMBOL_SET_VCELL(o, v) sal_symbol_set_vcell((o), (v))

SALC scm_ichar_t sal_char_value(ScmObj o);
void sal_char_set_value(ScmObj o, scm_ichar_t v);
#define SCM_SAL_CHAR_VALUE(o) sal_char_value(o)
#define SCM_SAL_CHAR_SET_VALUE(o, v) sal_char_set_value((o), (v))
void sal_int_set_value(ScmObj o, scm_int_t v);
#define SCM_SAL_INT_SET_VALUE(o, v) sal_int_set_value((o), (v))

SALP char *sal_string_str(ScmObj o);
SALP scm_int_t sal_string_len(ScmObj o);
SALP int sal_string_mutablep(ScmObj o);
void sal_string_set_str(ScmObj o, char *s);
void sal_string_set_len(ScmObj o, scm_int_t l);
#define SCM_SAL_STRING_STR(o) sal_string_str(o)
#define SCM_SAL_STRING_LEN(o) sal_string_len(o)
#define SCM_SAL_STRING_MUTABLEP(o) sal_string_mutablep(o)
#define SCM_SAL_STRING_SET_STR(o, s) sal_string_set_str((o), (s))
#define SCM_SAL_STRING_SET_LEN(o, l) sal_string_set_len((o), (l))
#define SCM_SAL_STRING_SET_MUTABLE(o) sal_set_mutable(o)
#define SCM_SAL_STRING_SET_IMMUTABLE(o) sal_set_immutable(o)

SALC enum ScmFuncTypeCode sal_func_typecode(ScmObj o);
SALC ScmFuncType sal_func_cfunc(ScmObj o);
#define SCM_SAL_FUNC_TYPECODE(o) sal_func_typecode(o)
#define SCM_SAL_FUNC_CFUNC(o) sal_func_cfunc(o)
void sal_func_set_cfunc(ScmObj o, ScmFuncType f);
void sal_func_set_typecode(ScmObj o, enum ScmFuncTypeCode t);
#define SCM_SAL_FUNC_SET_TYPECODE(o, t) sal_func_set_typecode((o), (t))
#define SCM_SAL_FUNC_SET_CFUNC(o, f) sal_func_set_cfunc((o), (ScmFuncType)(f))

SALP ScmObj sal_closure_exp(ScmObj o);
SALP ScmObj sal_closure_env(ScmObj o);
void sal_closure_set_exp(ScmObj o, ScmObj v);
void sal_closure_set_env(ScmObj o, ScmObj v);
#define SCM_SAL_CLOSURE_EXP(o) sal_closure_exp(o)
#define SCM_SAL_CLOSURE_ENV(o) sal_closure_env(o)
#define SCM_SAL_CLOSURE_SET_EXP(o, v) sal_closure_set_exp((o), (v))
#define SCM_SAL_CLOSURE_SET_ENV(o, v) sal_closure_set_env((o), (v))

SALP ScmObj *sal_vector_vec(ScmObj o);
SALP scm_int_t sal_vector_len(ScmObj o);
SALP int sal_vector_mutablep(ScmObj o);
void sal_vector_set_vec(ScmObj o, ScmObj *v);
void sal_vector_set_len(ScmObj o, scm_int_t l);
#define SCM_SAL_VECTOR_VEC(o) sal_vector_vec(o)
#define SCM_SAL_VECTOR_LEN(o) sal_vector_len(o)
#define SCM_SAL_VECTOR_MUTABLEP(o) sal_vector_mutablep(o)
#define SCM_SAL_VECTOR_SET_VEC(o, v) sal_vector_set_vec((o), (v))
#define SCM_SAL_VECTOR_SET_LEN(o, l) sal_vector_set_len((o), (l))
#define SCM_SAL_VECTOR_SET_MUTABLE(o) sal_set_mutable(o)
#define SCM_SAL_VECTOR_SET_IMMUTABLE(o) sal_set_immutable(o)

SALP enum ScmPortFlag sal_port_flag(ScmObj o);
SALP struct ScmCharPort_ *sal_port_impl(ScmObj o);
void sal_port_set_flag(ScmObj o, enum ScmPortFlag f);
void sal_port_set_impl(ScmObj o, struct ScmCharPort_ *i);
#define SCM_SAL_PORT_FLAG(o) sal_port_flag(o)
#define SCM_SAL_PORT_IMPL(o) sal_port_impl(o)
#define SCM_SAL_PORT_SET_FLAG(o, f) sal_port_set_flag((o), (f))
#define SCM_SAL_PORT_SET_IMPL(o, i) sal_port_set_impl((o), (i))

SALP void *sal_continuation_opaque(ScmObj o);
SALP scm_int_t sal_continuation_tag(ScmObj o);
void sal_continuation_set_opaque(ScmObj o, void *v);
void sal_continuation_set_tag(ScmObj o, scm_int_t v);
#define SCM_SAL_CONTINUATION_OPAQUE(o) sal_continuation_opaque(o)
#define SCM_SAL_CONTINUATION_TAG(o) sal_continuation_tag(o)
#define SCM_SAL_CONTINUATION_SET_OPAQUE(o, v) sal_continuation_set_opaque((o), (v))
#define SCM_SAL_CONTINUATION_SET_TAG(o, v) sal_continuation_set_tag((o), (v))

SALP ScmObj sal_valuepacket_values(ScmObj o);
#define SCM_SAL_VALUEPACKET_VALUES(o) sal_valuepacket_values(o)
#if SCM_USE_VALUECONS
ScmObj sal_make_valuepacket(ScmObj vals);
void sal_entype(ScmObj o, int t);
#define SCM_ENTYPE(o, t) sal_entype((o), (t))
#define SCM_SAL_MAKE_VALUEPACKET(vals) sal_make_valuepacket(vals)
SALC int sal_nullvaluesp(ScmObj o);
SALP ScmObj sal_valuecons_car(ScmObj o);
SALP ScmObj sal_valuecons_cdr(ScmObj o);
#define SCM_SAL_NULLVALUESP(o) sal_nullvaluesp(o)
#define SCM_SAL_VALUECONS_CAR(o) sal_valuecons_car(o)
#define SCM_SAL_VALUECONS_CDR(o) sal_valuecons_cdr(o)
#endif

#if SCM_USE_HYGIENIC_MACRO
SALP ScmObj sal_hmacro_rules(ScmObj o);
SALP ScmPackedEnv sal_hmacro_env(ScmObj o);
#define SCM_SAL_HMACRO_RULES(o) sal_hmacro_rules(o)
#define SCM_SAL_HMACRO_ENV(o) sal_hmacro_env(o)
void sal_hmacro_set_rules(ScmObj o, ScmObj v);
void sal_hmacro_set_env(ScmObj o, ScmPackedEnv v);
#define SCM_SAL_HMACRO_SET_RULES(o, r) sal_hmacro_set_rules((o), (r))
#define SCM_SAL_HMACRO_SET_ENV(o, e) sal_hmacro_set_env((o), (e))
SALP ScmObj sal_farsymbol_sym(ScmObj o);
SALP ScmPackedEnv sal_farsymbol_env(ScmObj o);
void sal_farsymbol_set_sym(ScmObj o, ScmObj v);
void sal_farsymbol_set_env(ScmObj o, ScmPackedEnv v);
#define SCM_SAL_FARSYMBOL_SYM(o) sal_farsymbol_sym(o)
#define SCM_SAL_FARSYMBOL_ENV(o) sal_farsymbol_env(o)
#define SCM_SAL_FARSYMBOL_SET_SYM(o, s) sal_farsymbol_set_sym((o), (s))
#define SCM_SAL_FARSYMBOL_SET_ENV(o, e) sal_farsymbol_set_env((o), (e))
SALP ScmObj sal_subpat_obj(ScmObj o);
SALP scm_int_t sal_subpat_meta(ScmObj o);
void sal_subpat_set_obj(ScmObj o, ScmObj v);
void sal_subpat_set_meta(ScmObj o, scm_int_t v);
#define SCM_SAL_SUBPAT_OBJ(o) sal_subpat_obj(o)
#define SCM_SAL_SUBPAT_META(o) sal_subpat_meta(o)
#define SCM_SAL_SUBPAT_SET_OBJ(o, v) sal_subpat_set_obj((o), (v))
#define SCM_SAL_SUBPAT_SET_META(o, v) sal_subpat_set_meta((o), (v))

#endif
SALP void *sal_c_pointer_value(ScmObj o);
SALP ScmCFunc sal_c_funcpointer_value(ScmObj o);
void sal_c_pointer_set_value(ScmObj o, void *p);
void sal_c_funcpointer_set_value(ScmObj o, ScmCFunc p);
#define SCM_SAL_C_POINTER_VALUE(o) sal_c_pointer_value(o)
#define SCM_SAL_C_FUNCPOINTER_VALUE(o) sal_c_funcpointer_value(o)
#define SCM_SAL_C_POINTER_SET_VALUE(o, p) sal_c_pointer_set_value((o), (p))
#define SCM_SAL_C_FUNCPOINTER_SET_VALUE(o, p) sal_c_funcpointer_set_value((o), (p))

/* ---- references into cells ---- */
#define SCM_SAL_INVALID_REF NULL
SALC ScmRef sal_ref_car(ScmObj o);
SALC ScmRef sal_ref_cdr(ScmObj o);
SALP ScmObj sal_deref(ScmRef r);
void sal_set(ScmRef r, ScmObj v);
#define SCM_SAL_REF_CAR(o) sal_ref_car(o)
#define SCM_SAL_REF_CDR(o) sal_ref_cdr(o)
SALC ScmRef sal_ref_off_heap(ScmObj *o);
#define SCM_SAL_REF_OFF_HEAP(o) sal_ref_off_heap(&(o))
#define SCM_SAL_DEREF(r) sal_deref(r)
#define SCM_SAL_SET(r, v) sal_set((r), (v))

/* ---- constants ---- */
#if !SCM_USE_STORAGE_FATTY
SALC ScmObj scm_make_int_immediate_(scm_int_t v);
SALC ScmObj scm_make_char_immediate_(scm_ichar_t v);
SALC ScmObj sal_make_int(scm_int_t v);
SALC ScmObj sal_make_char(scm_ichar_t v);
#define SCM_SAL_MAKE_INT(v) sal_make_int(v)
#define SCM_SAL_MAKE_CHAR(v) sal_make_char(v)
#endif
struct sal_obj_ { int dummy; };
typedef __attribute__((address_space(7))) struct sal_obj_ sal_const_t;
extern sal_const_t sal_k_null, sal_k_invalid, sal_k_unbound, sal_k_false,
                   sal_k_true, sal_k_eof, sal_k_undef;
#define SCM_SAL_NULL    (&sal_k_null)
#define SCM_SAL_INVALID (&sal_k_invalid)
#define SCM_SAL_UNBOUND (&sal_k_unbound)
#define SCM_SAL_FALSE   (&sal_k_false)
#define SCM_SAL_TRUE    (&sal_k_true)
#define SCM_SAL_EOF     (&sal_k_eof)
#define SCM_SAL_UNDEF   (&sal_k_undef)
#define SCM_SAL_EQ(a, b) ((a) == (b))

#if SCM_USE_VALUECONS
extern ScmObj sal_null_values;
#endif
#include "storage-common.h"
#endif
