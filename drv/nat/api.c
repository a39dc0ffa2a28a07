// class NApi: self-checking sweeps over families of native API functions (S02).  Prints "@BAD family detail" for each broken contract.
#include <stdint.h>
#include <inttypes.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "spvm_native.h"

static uint64_t S;
static uint32_t rnd(uint32_t n) { S ^= S << 13; S ^= S >> 7; S ^= S << 17; return (S >> 11) % n; }
static long nchecks;
#define OUT env->spvm_stdout(env, stack)
#define BAD(fam, ...) do { fprintf(OUT, "@BAD %s ", fam); fprintf(OUT, __VA_ARGS__); fprintf(OUT, "\n"); } while (0)
#define CHK(fam, c, ...) do { nchecks++; if (!(c)) BAD(fam, __VA_ARGS__); } while (0)
#define E &e, __func__, "api.c", __LINE__
#define RC(o) env->api->internal->get_ref_count(env, stack, o)
#define BLK env->get_memory_blocks_count(env, stack)
#define C "NApiT"

typedef struct { int8_t b; int16_t s; int32_t i; int64_t l; float f; double d; } VALS;
static void rvals(VALS* v) { int64_t x = (int64_t)S; rnd(2); x ^= (int64_t)(S << 21); v->b = x; v->s = x >> 3; v->i = x >> 5; v->l = x; v->f = (float)(x >> 30) / 3; v->d = (double)(x >> 9) / 7; }
static char* rbytes(int32_t* n) { static const int L[] = {0, 1, 2, 7, 8, 9, 31, 200}; static char b[2][256]; static int w; w ^= 1; *n = L[rnd(8)]; for (int32_t k = 0; k < *n; k++) b[w][k] = rnd(4) ? 'a' + rnd(26) : rnd(256); b[w][*n] = 0; return b[w]; }
static int seq(SPVM_ENV* env, SPVM_VALUE* stack, void* str, const char* b, int32_t n) { return str && env->length(env, stack, str) == n && !memcmp(env->get_chars(env, stack, str), b, n) && env->get_chars(env, stack, str)[n] == 0; }

// fields and class variables, by identifier and by name: each set value is read by both ways and no other field changes
static void vars(SPVM_ENV* env, SPVM_VALUE* stack) {
  int32_t e = 0;
  void* bt = env->get_basic_type(env, stack, C);
  void* o = env->new_object_by_name(env, stack, C, E);
  if (e || !o) { BAD("fields", "no object"); return; }
  void *fld[9], *cv[9]; static const char* fn[9] = {"b", "s", "i", "l", "f", "d", "st", "o", "p"}; static const char* cn[9] = {"$B", "$S", "$I", "$L", "$F", "$D", "$ST", "$O", "$P"};
  for (int k = 0; k < 9; k++) { fld[k] = env->get_field(env, stack, o, fn[k]); cv[k] = env->get_class_var(env, stack, C, cn[k]); CHK("fields", fld[k] && cv[k], "%s not found", fn[k]);
    CHK("fields", fld[k] == env->api->basic_type->get_field_by_name(env->runtime, bt, fn[k]) && cv[k] == env->api->basic_type->get_class_var_by_name(env->runtime, bt, cn[k]), "%s: two fields of one name", fn[k]); }
  VALS mo, mc; rvals(&mo); rvals(&mc);
#define ALL(X) X(byte, b, 0, int8_t) X(short, s, 1, int16_t) X(int, i, 2, int32_t) X(long, l, 3, int64_t) X(float, f, 4, float) X(double, d, 5, double)
#define SETF(T, m, k, CT) if (rnd(2)) env->set_field_##T(env, stack, o, fld[k], mo.m); else env->set_field_##T##_by_name(env, stack, o, fn[k], mo.m, E);
#define SETC(T, m, k, CT) if (rnd(2)) env->set_class_var_##T(env, stack, cv[k], mc.m); else env->set_class_var_##T##_by_name(env, stack, C, cn[k], mc.m, E);
#define GETF(T, m, k, CT) { CT a = env->get_field_##T(env, stack, o, fld[k]), b = env->get_field_##T##_by_name(env, stack, o, fn[k], E); CHK("fields", !e && a == mo.m && b == mo.m, "field " #T " has another value"); }
#define GETC(T, m, k, CT) { CT a = env->get_class_var_##T(env, stack, cv[k]), b = env->get_class_var_##T##_by_name(env, stack, C, cn[k], E); CHK("class variables", !e && a == mc.m && b == mc.m, "class variable " #T " has another value"); }
  ALL(SETF) ALL(SETC)
  void* st[2] = {0}; void* ob[2] = {0};
  for (int step = 0; step < 12; step++) {
    VALS n; rvals(&n);
    switch (rnd(10)) {
#define ONE(T, m, k, CT) case k: mo.m = n.m; SETF(T, m, k, CT) mc.m = ~0 == 0 ? 0 : n.m; SETC(T, m, k, CT) break;
      ALL(ONE)
      case 6: { int32_t len; char* b = rbytes(&len); void* v = rnd(4) ? env->new_string(env, stack, b, len) : NULL; st[0] = v;
        switch (rnd(4)) { case 0: env->set_field_string(env, stack, o, fld[6], v); break; case 1: env->set_field_string_by_name(env, stack, o, "st", v, E); break; case 2: env->set_field_object(env, stack, o, fld[6], v); break;
          default: { void** ref = env->get_field_object_ref_by_name(env, stack, o, "st", E); if (ref) env->assign_object(env, stack, ref, v); } }
        if (v) CHK("string fields", RC(v) == 2, "reference count %d of a string on the mortal stack and in a field", RC(v)); break; }
      case 7: { int32_t len; char* b = rbytes(&len); void* v = rnd(4) ? env->new_string(env, stack, b, len) : NULL; st[1] = v;
        switch (rnd(4)) { case 0: env->set_class_var_string(env, stack, cv[6], v); break; case 1: env->set_class_var_string_by_name(env, stack, C, "$ST", v, E); break; case 2: env->set_class_var_object(env, stack, cv[6], v); break;
          default: env->assign_object(env, stack, env->get_class_var_object_ref(env, stack, cv[6]), v); }
        if (v) CHK("string class variables", RC(v) == 2, "reference count %d of a string on the mortal stack and in a class variable", RC(v)); break; }
      case 8: { void* v = rnd(3) ? env->new_int_array(env, stack, 2) : NULL; ob[0] = v; if (rnd(2)) env->set_field_object(env, stack, o, fld[7], v); else env->set_field_object_by_name(env, stack, o, "o", v, E); if (v) CHK("object fields", RC(v) == 2, "reference count %d", RC(v)); break; }
      case 9: { void* v = rnd(3) ? env->new_long_array(env, stack, 1) : NULL; ob[1] = v; if (rnd(2)) env->set_class_var_object(env, stack, cv[7], v); else env->set_class_var_object_by_name(env, stack, C, "$O", v, E); if (v) CHK("object class variables", RC(v) == 2, "reference count %d", RC(v)); break; }
    }
    CHK("fields", !e, "error id %d", e);
    ALL(GETF) ALL(GETC)
    CHK("string fields", env->get_field_string(env, stack, o, fld[6]) == st[0] && env->get_field_string_by_name(env, stack, o, "st", E) == st[0] && env->get_field_object(env, stack, o, fld[6]) == st[0] && !e, "another string");
    CHK("string class variables", env->get_class_var_string(env, stack, cv[6]) == st[1] && env->get_class_var_string_by_name(env, stack, C, "$ST", E) == st[1] && env->get_class_var_object(env, stack, cv[6]) == st[1] && !e, "another string");
    CHK("object fields", env->get_field_object(env, stack, o, fld[7]) == ob[0] && env->get_field_object_by_name(env, stack, o, "o", E) == ob[0] && !e, "another object");
    CHK("object class variables", env->get_class_var_object(env, stack, cv[7]) == ob[1] && env->get_class_var_object_by_name(env, stack, C, "$O", E) == ob[1] && !e, "another object");
  }
  e = 0; env->get_field_string_by_name(env, stack, o, "zz", E); CHK("string fields", e, "an unknown field gives no error");
  e = 0; env->set_field_string_by_name(env, stack, o, "zz", NULL, E); CHK("string fields", e, "an unknown field gives no error");
  e = 0; env->get_class_var_string_by_name(env, stack, C, "$ZZ", E); CHK("string class variables", e, "an unknown class variable gives no error");
  e = 0; env->set_class_var_string_by_name(env, stack, C, "$ZZ", NULL, E); CHK("string class variables", e, "an unknown class variable gives no error");
  e = 0; void* rr = env->get_field_object_ref_by_name(env, stack, o, "zz", E); CHK("object fields", e && !rr, "an unknown field gives no error");
  // pointer objects
  static int target[4];
  e = 0; void* q = env->get_field_object_defined_and_has_pointer_by_name(env, stack, o, "p", E); CHK("pointers", e && !q, "an undefined field gives no error");
  void* pbt = env->get_basic_type(env, stack, "NApiP");
  void* p = rnd(2) ? env->new_pointer_object(env, stack, pbt, NULL) : env->new_pointer_object_by_name(env, stack, "NApiP", NULL, E);
  env->set_field_object(env, stack, o, fld[8], p);
  e = 0; env->get_field_object_defined_and_has_pointer_by_name(env, stack, o, "p", E); CHK("pointers", e, "a null pointer gives no error");
  int* t = &target[rnd(4)]; env->set_pointer(env, stack, p, t);
  CHK("pointers", env->get_pointer(env, stack, p) == t, "another pointer");
  e = 0; q = env->get_field_object_defined_and_has_pointer_by_name(env, stack, o, "p", E); CHK("pointers", !e && q == p, "the object is not returned");
  void* p2 = env->new_pointer_object(env, stack, pbt, t); CHK("pointers", env->get_pointer(env, stack, p2) == t && env->get_pointer(env, stack, p) == t && RC(p2) == 1, "another pointer");
  for (int k = 6; k < 9; k++) env->set_class_var_object(env, stack, cv[k], NULL);
}

// objects made without the mortal stack have no reference, belong to the caller, have the right type and length and are zero
static void makers(SPVM_ENV* env, SPVM_VALUE* stack) {
  int32_t e = 0; int32_t n = rnd(6), len; char* b = rbytes(&len);
  void* bt = env->get_basic_type(env, stack, C); void* mbt = env->get_basic_type(env, stack, "NApiT_3s"); void* ibt = env->get_basic_type(env, stack, "int"); void* pbt = env->get_basic_type(env, stack, "NApiP");
  void* s1 = env->new_string(env, stack, b, len); int32_t len2; char* b2 = rbytes(&len2); void* s2 = env->new_string(env, stack, b2, len2);
  void* ia = env->new_int_array(env, stack, n); for (int k = 0; k < n; k++) env->get_elems_int(env, stack, ia)[k] = rnd(99) - 50;
  void* oa = env->new_object_array(env, stack, bt, n);
  static const char* ty[] = {"byte[]", "short[]", "int[]", "long[]", "float[]", "double[]", "string[]", C "[]", "int[][][]", "NApiT_3s[]", "string", "string", C, "string", "int[]", "int[]", C "[]", "NApiP", "string", "string", "string", "string", C "[]"};
  static const int sz[] = {1, 2, 4, 8, 4, 8, 8, 8, 8, 6};
  for (int k = 0; k < 23; k++) for (int mortal = 0; mortal < 2; mortal++) {
    int32_t sc = env->enter_scope(env, stack); int32_t before = BLK; void* o = NULL; int32_t want = n;
#define M(x, ...) mortal ? env->x(env, stack, ##__VA_ARGS__) : env->x##_no_mortal(env, stack, ##__VA_ARGS__)
    switch (k) {
      case 0: o = M(new_byte_array, n); break; case 1: o = M(new_short_array, n); break; case 2: o = M(new_int_array, n); break; case 3: o = M(new_long_array, n); break;
      case 4: o = M(new_float_array, n); break; case 5: o = M(new_double_array, n); break; case 6: o = M(new_string_array, n); break; case 7: o = M(new_object_array, bt, n); break;
      case 8: o = M(new_muldim_array, ibt, 3, n); break; case 9: o = M(new_mulnum_array, mbt, n); break;
      case 10: o = M(new_string, b, len); want = len; CHK("new_string", seq(env, stack, o, b, len), "other bytes"); break;
      case 11: o = M(new_string_nolen, b); want = strlen(b); CHK("new_string_nolen", seq(env, stack, o, b, want), "other bytes"); break;
      case 12: o = M(new_object, bt); want = -1; break;
      case 13: o = M(concat, s1, s2); want = len + len2; CHK("concat", o && env->length(env, stack, o) == want && !memcmp(env->get_chars(env, stack, o), b, len) && !memcmp(env->get_chars(env, stack, o) + len, b2, len2) && !env->get_chars(env, stack, o)[want], "other bytes"); CHK("concat", seq(env, stack, s1, b, len) && seq(env, stack, s2, b2, len2), "an operand changed"); break;
      case 14: o = M(copy, ia); CHK("copy", o != ia && !memcmp(env->get_elems_int(env, stack, o), env->get_elems_int(env, stack, ia), 4 * n), "other elements"); break;
      case 15: o = M(new_array_proto, ia, n + 1); want = n + 1; break;
      case 16: { void* el = env->new_object(env, stack, bt); before = BLK; o = M(new_array_proto_element, el, n); break; }
      case 17: o = M(new_pointer_object, pbt, &S); want = -1; CHK("pointers", env->get_pointer(env, stack, o) == &S, "another pointer"); break;
      case 18: { static const char* tn[] = {"string", "int[]", C "[]", C, "NApiT_3s[]", "string[]", "int[][][]"}; void* x[] = {s1, ia, oa, env->new_object(env, stack, bt), env->new_mulnum_array(env, stack, mbt, 1), env->new_string_array(env, stack, 0), env->new_muldim_array(env, stack, ibt, 3, 1)}; int j = rnd(7); before = BLK;
        o = M(get_type_name, x[j]); want = strlen(tn[j]); CHK("get_type_name", seq(env, stack, o, tn[j], want), "%s instead of %s", env->get_chars(env, stack, o), tn[j]); break; }
      case 19: { static const struct { const char* b; int d, f; const char* w; } q[] = {{"int", 0, 0, "int"}, {"int", 1, 0, "int[]"}, {"int", 0, 1, "int*"}, {"string", 0, 2, "mutable string"}, {"string", 2, 0, "string[][]"}, {"Foo::Bar", 3, 0, "Foo::Bar[][][]"}, {"NApiT_3s", 0, 1, "NApiT_3s*"}, {"string", 0, 0, "string"}, {"object", 1, 0, "object[]"}}; int j = rnd(9);
        o = M(get_compile_type_name, q[j].b, q[j].d, q[j].f); want = strlen(q[j].w); CHK("get_compile_type_name", seq(env, stack, o, q[j].w, want), "%s instead of %s", env->get_chars(env, stack, o), q[j].w); break; }
      case 20: { o = M(dump, ia); want = env->length(env, stack, o); char t[400], * w = t; w += sprintf(w, "["); for (int j = 0; j < n; j++) w += sprintf(w, "\n  %d%s", env->get_elems_int(env, stack, ia)[j], j < n - 1 ? "," : ""); sprintf(w, "\n] : int[](%p)", ia); const char* g = env->get_chars(env, stack, o); CHK("dump", n == 0 || !strcmp(g, t), "%s instead of %s", g, t);
        if (mortal) { const char* dc = env->dumpc(env, stack, ia); CHK("dumpc", !strcmp(dc, g), "%s instead of %s", dc, g); before += 1; } break; }
      case 21: { void* ex = rnd(3) ? s1 : NULL; void* me = env->get_class_method(env, stack, C, "m"); int ln = rnd(100000); o = M(new_stack_trace, ex, me, ln); want = env->length(env, stack, o); char tl[100]; sprintf(tl, " line %d", ln); const char* g = env->get_chars(env, stack, o);
        int32_t el = ex ? len : 5; const char* eb = ex ? b : "Error"; char hd[40] = "\n  " C "->m at "; int32_t hl = strlen(hd);
        CHK("new_stack_trace", !memchr(b, 0, len) ? want > el + hl + (int)strlen(tl) && !memcmp(g, eb, el) && !memcmp(g + el, hd, hl) && !strcmp(g + want - strlen(tl), tl) && !g[want] : 1, "%s", g); break; }
      case 22: o = M(copy, NULL); if (o) BAD("copy", "a copy of undef"); o = M(new_array_proto, oa, n); break;
    }
    if (!o) { BAD("makers", "%s: undef", ty[k]); continue; }
    int rc = RC(o); CHK("makers", rc == mortal, "function %d (%s)%s: reference count %d", k, ty[k], mortal ? "" : " no_mortal", rc);
    CHK("makers", BLK > before, "function %d: no memory block is counted", k);
    if (want >= 0) CHK("makers", env->length(env, stack, o) == want, "function %d (%s): length %d instead of %d", k, ty[k], env->length(env, stack, o), want);
    void* tn = env->get_type_name(env, stack, o); CHK("makers", tn && !strcmp(env->get_chars(env, stack, tn), ty[k]), "function %d: type %s instead of %s", k, env->get_chars(env, stack, tn), ty[k]);
    if (k < 10) { CHK("get_elem_size", env->get_elem_size(env, stack, o) == sz[k], "%s: %d", ty[k], env->get_elem_size(env, stack, o)); char* d = env->get_elems_byte(env, stack, o); for (int j = 0; j < n * sz[k]; j++) if (d[j]) { BAD("makers", "%s: not zero", ty[k]); break; } }
    { int num = k < 6, ob = (k >= 6 && k <= 8) || k == 16 || k == 22, mul = k == 9; if (k == 14 || k == 15) num = 1; int str = !strcmp(ty[k], "string"), cls = k == 12 || k == 17;
      CHK("is_*", !env->is_numeric_array(env, stack, o) == !num && !env->is_object_array(env, stack, o) == !ob && !env->is_mulnum_array(env, stack, o) == !mul && !env->is_string(env, stack, o) == !str && !env->is_array(env, stack, o) == !(num || ob || mul) && !env->is_class(env, stack, o) == !cls, "function %d (%s): wrong kind", k, ty[k]);
      CHK("is_binary_compatible_object", (str || num) ? env->is_binary_compatible_object(env, stack, o) : 1, "%s", ty[k]); }
    if (!mortal) { void* hold = NULL; env->assign_object(env, stack, &hold, o); CHK("makers", RC(o) == 1, "reference count %d after an assignment", RC(o)); env->assign_object(env, stack, &hold, NULL); }
    env->leave_scope(env, stack, sc);
  }
}

// elements of string arrays, shorten, read-only strings, types of the runtime
static void rest(SPVM_ENV* env, SPVM_VALUE* stack) {
  int32_t e = 0; (void)e;
  int n = 1 + rnd(4); void* sa = env->new_string_array(env, stack, n); void* m[5] = {0};
  for (int k = 0; k < 8; k++) { int i = rnd(n), len; char* b = rbytes(&len); void* v = rnd(4) ? env->new_string(env, stack, b, len) : NULL; if (rnd(2)) env->set_elem_string(env, stack, sa, i, v); else env->set_elem_object(env, stack, sa, i, v); m[i] = v; if (v) CHK("string elements", RC(v) == 2, "reference count %d", RC(v));
    for (int j = 0; j < n; j++) CHK("string elements", env->get_elem_string(env, stack, sa, j) == m[j] && env->get_elem_object(env, stack, sa, j) == m[j], "another string at %d", j); }
  int32_t len; char* b = rbytes(&len); void* s = env->new_string(env, stack, b, len); int nl = (int)rnd(len + 4) - 1, ro = rnd(3) == 0;
  CHK("read-only", !env->is_read_only(env, stack, s), "a new string is read-only");
  if (ro) { env->make_read_only(env, stack, s); CHK("read-only", env->is_read_only(env, stack, s), "not read-only"); }
  env->shorten(env, stack, s, nl); env->shorten(env, stack, NULL, 0);
  int el = !ro && nl >= 0 && nl < len ? nl : len; CHK("shorten", seq(env, stack, s, b, el), "length %d to %d%s gives %d", len, nl, ro ? " (read-only)" : "", env->length(env, stack, s));
  if (el < len) { const char* c = env->get_chars(env, stack, s); for (int j = el; j <= len; j++) if (c[j]) { BAD("shorten", "the rest is not cleared"); break; } }
  for (int k = 0; k < 3; k++) { int en = rnd(140); char w[256] = ""; extern int __xpg_strerror_r(int, char*, size_t); if (__xpg_strerror_r(en, w, sizeof w)) continue; int L = rnd(2) ? 0 : 200;
    const char* g = env->strerror(env, stack, en, L); CHK("strerror", g && !strcmp(g, w), "%d: %s instead of %s", en, g, w); g = env->strerror_nolen(env, stack, en); CHK("strerror", g && !strcmp(g, w), "%d: %s instead of %s", en, g, w);
    void* o = rnd(2) ? env->strerror_string(env, stack, en, L) : env->strerror_string_nolen(env, stack, en); CHK("strerror", seq(env, stack, o, w, strlen(w)), "%d", en); }
  static const struct { const char* n; int d, num, cls, obj, aoa, oar, aoar, wid; } T[] = {
    {"int", 0, 1, 0, 0, 0, 0, 0, 1}, {"double", 0, 1, 0, 0, 0, 0, 0, 1}, {"byte", 1, 0, 0, 1, 0, 0, 0, 1}, {"int", 2, 0, 0, 1, 0, 1, 0, 1}, {"string", 0, 0, 0, 1, 0, 0, 0, 1}, {"string", 1, 0, 0, 1, 0, 1, 0, 1}, {"object", 0, 0, 0, 1, 1, 0, 0, 1}, {"object", 1, 0, 0, 1, 0, 1, 1, 1},
    {C, 0, 0, 1, 1, 0, 0, 0, 1}, {C, 1, 0, 0, 1, 0, 1, 0, 1}, {"NApiT_3s", 0, 0, 0, 0, 0, 0, 0, 3}, {"NApiT_3s", 1, 0, 0, 1, 0, 0, 0, 1}, {"NApiP", 0, 0, 1, 1, 0, 0, 0, 1}};
  for (int k = 0; k < 13; k++) { void* bt = env->get_basic_type(env, stack, T[k].n); SPVM_API_TYPE* a = env->api->type; int d = T[k].d; CHK("types", bt != NULL, "%s", T[k].n); if (!bt) continue;
#define TY(fun, f) CHK("types", !a->fun(env->runtime, bt, d, 0) == !T[k].f, #fun " of %s/%d", T[k].n, d);
    TY(is_numeric_type, num) TY(is_class_type, cls) TY(is_object_type, obj) TY(is_any_object_type, aoa) TY(is_object_array_type, oar) TY(is_any_object_array_type, aoar)
    CHK("types", a->get_type_width(env->runtime, bt, d, 0) == T[k].wid, "width %d of %s/%d", a->get_type_width(env->runtime, bt, d, 0), T[k].n, d); }
  void* bt = env->get_basic_type(env, stack, C); const char* vs = env->get_version_string(env, stack, bt); CHK("versions", vs && !strcmp(vs, "1.025") && env->get_version_number(env, stack, bt) == 1.025, "version");
  CHK("versions", env->get_version_string(env, stack, env->get_basic_type(env, stack, "NApiP")) == NULL, "version of a class without a version");
  CHK("versions", env->get_spvm_version_number(env, stack) > 0 && strtod(env->get_spvm_version_string(env, stack), NULL) == env->get_spvm_version_number(env, stack), "spvm version");
}

int32_t SPVM__NApi__sweep(SPVM_ENV* env, SPVM_VALUE* stack) {
  S = (uint32_t)stack[0].ival * 0x9E3779B97F4A7C15ull + 0x1234567; int32_t n = stack[1].ival; nchecks = 0;
  for (int k = 0; k < 5; k++) rnd(2);
  for (int k = 0; k < n; k++) {
    void (*f[])(SPVM_ENV*, SPVM_VALUE*) = {vars, makers, rest};
    for (int j = 0; j < 3; j++) {
      int32_t before = BLK; int32_t sc = env->enter_scope(env, stack);
      f[j](env, stack);
      env->leave_scope(env, stack, sc); env->set_exception(env, stack, NULL);
      int32_t d = BLK - before; CHK("blocks", d == 0, "%d memory blocks are left after workload %d", d, j);
    }
  }
  fprintf(OUT, "@OK %ld\n", nchecks);
  return 0;
}
