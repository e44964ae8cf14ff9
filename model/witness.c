/* Analysed (never executed) together with the real storage layer: one small
 * function per storage operation, so that the macros are seen in every use. */
#include <config.h>
#include "sigscheme.h"
#include "sigschemeinternal.h"
typedef ScmObj O;
#define PRED(n, M) int w_is_##n(O o) { return M(o) ? 1 : 0; }
#define GET(n, t, M) t w_get_##n(O o) { return (t)M(o); }
#define SETR(n, t, M) void w_set_##n(O o, t v) { M(o, v); }
PRED(cons, SCM_CONSP) PRED(closure, SCM_CLOSUREP) PRED(int, SCM_INTP) PRED(char, SCM_CHARP)
PRED(symbol, SCM_SYMBOLP) PRED(string, SCM_STRINGP) PRED(vector, SCM_VECTORP) PRED(vpacket, SCM_VALUEPACKETP)
PRED(func, SCM_FUNCP) PRED(port, SCM_PORTP) PRED(cont, SCM_CONTINUATIONP) PRED(cptr, SCM_C_POINTERP)
PRED(cfptr, SCM_C_FUNCPOINTERP) PRED(const, SCM_CONSTANTP) PRED(freecell, SCM_FREECELLP)
#if SCM_USE_HYGIENIC_MACRO
PRED(hmacro, SCM_HMACROP) PRED(farsym, SCM_FARSYMBOLP) PRED(subpat, SCM_SUBPATP)
#endif
PRED(number, SCM_NUMBERP)
PRED(nullc, SCM_NULLP) PRED(falsec, SCM_FALSEP) PRED(eofc, SCM_EOFP)
int w_type(O o) { return SCM_TYPE(o); }
int w_eq(O a, O b) { return SCM_EQ(a, b) ? 1 : 0; }
O w_const_null(void) { return SCM_NULL; }   O w_const_true(void) { return SCM_TRUE; }
O w_const_false(void) { return SCM_FALSE; } O w_const_eof(void) { return SCM_EOF; }
O w_const_unbound(void) { return SCM_UNBOUND; } O w_const_undef(void) { return SCM_UNDEF; }
O w_const_invalid(void) { return SCM_INVALID; }
O w_mk_int(scm_int_t v) { return SCM_MAKE_INT(v); }
O w_mk_char(scm_ichar_t v) { return SCM_MAKE_CHAR(v); }
scm_int_t w_int_max(void) { return SCM_INT_MAX; } scm_int_t w_int_min(void) { return SCM_INT_MIN; }
scm_int_t w_strlen_max(void) { return SCM_STRLEN_MAX; } scm_int_t w_veclen_max(void) { return SCM_VECLEN_MAX; }
scm_int_t w_typecode_max(void) { return SCM_FUNCTYPE_MAND_MASK | SCM_FUNCTYPE_SYNTAX | SCM_FUNCTYPE_VARIADIC | SCM_FUNCTYPE_TAILREC | SCM_FUNCTYPE_ODDBALL; }
scm_int_t w_portflag_max(void) { return SCM_PORTFLAG_INPUT | SCM_PORTFLAG_OUTPUT | SCM_PORTFLAG_LIVE_INPUT | SCM_PORTFLAG_LIVE_OUTPUT; }
GET(int_value, scm_int_t, SCM_INT_VALUE) GET(char_value, scm_ichar_t, SCM_CHAR_VALUE)
GET(cons_car, O, SCM_CONS_CAR) GET(cons_cdr, O, SCM_CONS_CDR)
SETR(cons_car, O, SCM_CONS_SET_CAR) SETR(cons_cdr, O, SCM_CONS_SET_CDR)
GET(closure_exp, O, SCM_CLOSURE_EXP) GET(closure_env, O, SCM_CLOSURE_ENV)
SETR(closure_exp, O, SCM_CLOSURE_SET_EXP) SETR(closure_env, O, SCM_CLOSURE_SET_ENV)
GET(symbol_name, char *, SCM_SYMBOL_NAME) GET(symbol_vcell, O, SCM_SYMBOL_VCELL)
SETR(symbol_name, char *, SCM_SYMBOL_SET_NAME) SETR(symbol_vcell, O, SCM_SYMBOL_SET_VCELL)
GET(string_str, char *, SCM_STRING_STR) GET(string_len, scm_int_t, SCM_STRING_LEN)
SETR(string_str, char *, SCM_STRING_SET_STR) SETR(string_len, scm_int_t, SCM_STRING_SET_LEN)
GET(vector_vec, ScmObj *, SCM_VECTOR_VEC) GET(vector_len, scm_int_t, SCM_VECTOR_LEN)
SETR(vector_vec, ScmObj *, SCM_VECTOR_SET_VEC) SETR(vector_len, scm_int_t, SCM_VECTOR_SET_LEN)
GET(func_cfunc, ScmFuncType, SCM_FUNC_CFUNC) GET(func_typecode, int, SCM_FUNC_TYPECODE)
GET(port_impl, void *, SCM_PORT_IMPL) GET(port_flag, int, SCM_PORT_FLAG)
SETR(port_impl, ScmCharPort *, SCM_PORT_SET_IMPL) SETR(port_flag, int, SCM_PORT_SET_FLAG)
GET(cont_opaque, void *, SCM_CONTINUATION_OPAQUE) GET(cont_tag, scm_int_t, SCM_CONTINUATION_TAG)
SETR(cont_opaque, void *, SCM_CONTINUATION_SET_OPAQUE) SETR(cont_tag, scm_int_t, SCM_CONTINUATION_SET_TAG)
GET(cptr_value, void *, SCM_C_POINTER_VALUE) GET(cfptr_value, ScmCFunc, SCM_C_FUNCPOINTER_VALUE)
SETR(cptr_value, void *, SCM_C_POINTER_SET_VALUE) SETR(cfptr_value, ScmCFunc, SCM_C_FUNCPOINTER_SET_VALUE)
#if SCM_USE_HYGIENIC_MACRO
GET(hmacro_rules, O, SCM_HMACRO_RULES) GET(hmacro_env, scm_int_t, SCM_HMACRO_ENV)
GET(farsym_sym, O, SCM_FARSYMBOL_SYM) GET(farsym_env, scm_int_t, SCM_FARSYMBOL_ENV)
GET(subpat_obj, O, SCM_SUBPAT_OBJ) GET(subpat_meta, scm_int_t, SCM_SUBPAT_META)
#endif
#if SCM_USE_VALUECONS
GET(valuecons_car, O, SCM_VALUECONS_CAR) GET(valuecons_cdr, O, SCM_VALUECONS_CDR)
void w_mk_vpacket(O o) { SCM_ENTYPE(o, ScmValuePacket); }
O w_get_vpacket_values(O o) { return SCM_VALUEPACKET_VALUES(o); }
#else
GET(vpacket_values, O, SCM_VALUEPACKET_VALUES)
#endif
#if SCM_HAS_IMMUTABLE_CONS
GET(cons_mutablep, int, SCM_CONS_MUTABLEP)
void w_set_cons_mutable(O o) { SCM_CONS_SET_MUTABLE(o); } void w_set_cons_immutable(O o) { SCM_CONS_SET_IMMUTABLE(o); }
#endif
int w_get_string_mutablep(O o) { return SCM_STRING_MUTABLEP(o) ? 1 : 0; }
int w_get_vector_mutablep(O o) { return SCM_VECTOR_MUTABLEP(o) ? 1 : 0; }
void w_set_string_mutable(O o) { SCM_STRING_SET_MUTABLE(o); } void w_set_string_immutable(O o) { SCM_STRING_SET_IMMUTABLE(o); }
void w_set_vector_mutable(O o) { SCM_VECTOR_SET_MUTABLE(o); } void w_set_vector_immutable(O o) { SCM_VECTOR_SET_IMMUTABLE(o); }
void w_mark(O o) { SCM_MARK(o); } int w_markedp(O o) { return SCM_MARKEDP(o) ? 1 : 0; }
void w_cell_unmark(ScmCell *c) { SCM_CELL_UNMARK(c); } int w_cell_markedp(ScmCell *c) { return SCM_CELL_MARKEDP(c) ? 1 : 0; }
int w_cell_freecellp(ScmCell *c) { return SCM_CELL_FREECELLP(c) ? 1 : 0; }
O w_reclaim(ScmCell *c, O next) { return SCM_CELL_RECLAIM_CELL(c, next); }
O w_freecell_next(O o) { return SCM_FREECELL_NEXT(o); }
int w_sizeof_cell(void) { return sizeof(ScmCell); }
#if SCM_USE_STORAGE_COMPACT
int w_immp(O o) { return SCM_IMMP(o) ? 1 : 0; }
int w_tag_consistent(O o, ScmCell *c) { return SCM_TAG_CONSISTENTP(o, *c) ? 1 : 0; }
ScmCell *w_untag(O o) { return (ScmCell *)SCM_DROP_TAG(o); }
#endif
/* list references */
O w_ref_car(O o) { return SCM_DEREF(SCM_REF_CAR(o)); } O w_ref_cdr(O o) { return SCM_DEREF(SCM_REF_CDR(o)); }
void w_ref_set_car(O o, O v) { ScmRef r = SCM_REF_CAR(o); SCM_SET(r, v); } void w_ref_set_cdr(O o, O v) { ScmRef r = SCM_REF_CDR(o); SCM_SET(r, v); }
