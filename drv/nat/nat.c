// class Nat: runs scripts of native API calls (S02).  One call per line; values go to registers, results to stdout.
#include <stdint.h>
#include <inttypes.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <assert.h>
#include "spvm_native.h"

#define NREG 32
static void outhex(FILE* f, const char* p, int32_t n) { for (int32_t i = 0; i < n; i++) fprintf(f, "%02x", (unsigned char)p[i]); if (!n) fprintf(f, "-"); }
static int32_t unhex(const char* s, char* out) { if (s[0] == '-') return 0; int32_t n = 0; for (; s[0] && s[1]; s += 2) { unsigned v; sscanf(s, "%2x", &v); out[n++] = v; } out[n] = 0; return n; }
static double bits_d(int64_t v) { double d; memcpy(&d, &v, 8); return d; }
static float bits_f(int64_t v) { int32_t w = v; float d; memcpy(&d, &w, 4); return d; }
static int64_t d_bits(double d) { int64_t v; memcpy(&v, &d, 8); return v; }
static int64_t f_bits(float d) { int32_t v; memcpy(&v, &d, 4); return v; }

static int32_t run(SPVM_ENV* env, SPVM_VALUE* stack, const char* script, void* arg, void** ret) {
  void* r[NREG] = {0}; int32_t scopes[64], nscopes = 0; int32_t line = 0, rc = 0;
  void* rawblock = NULL;
  FILE* o = env->spvm_stdout(env, stack);
  char* text = strdup(script); char* save = NULL; char buf[1 << 14];
  r[0] = arg; *ret = NULL;
  for (char* l = strtok_r(text, ";", &save); l && !rc; l = strtok_r(NULL, ";", &save)) {
    char* t[64]; int32_t n = 0; char* s2 = NULL; line++;
    for (char* w = strtok_r(l, " ", &s2); w && n < 64; w = strtok_r(NULL, " ", &s2)) t[n++] = w;
    if (!n) continue;
    int32_t e = 0; const char* op = t[0];
#define R(k) r[atoi(t[k])]
#define I(k) ((int64_t)strtoll(t[k], NULL, 10))
#define E &e, op, "S", line
    fprintf(o, "@N %s", op);
    if (!strcmp(op, "ns")) { int32_t k = unhex(t[2], buf); char* c = malloc(k ? k : 1); memcpy(c, buf, k); R(1) = env->new_string(env, stack, c, k); free(c); }
    else if (!strcmp(op, "nsm")) { int32_t k = unhex(t[2], buf); R(1) = env->new_string_no_mortal(env, stack, buf, k); }
    else if (!strcmp(op, "nsn")) { int32_t k = unhex(t[2], buf); buf[k] = 0; char* c = strdup(buf); R(1) = env->new_string_nolen(env, stack, c); free(c); }
    else if (!strcmp(op, "na")) { int32_t k = I(3);
      switch (t[2][0]) {
        case 'b': R(1) = env->new_byte_array(env, stack, k); break; case 's': R(1) = env->new_short_array(env, stack, k); break;
        case 'i': R(1) = env->new_int_array(env, stack, k); break; case 'l': R(1) = env->new_long_array(env, stack, k); break;
        case 'f': R(1) = env->new_float_array(env, stack, k); break; case 'd': R(1) = env->new_double_array(env, stack, k); break;
        case 'S': R(1) = env->new_string_array(env, stack, k); break; } }
    else if (!strcmp(op, "no")) { void* v = env->new_object_by_name(env, stack, t[2], E); if (!e) R(1) = v; }
    else if (!strcmp(op, "noi")) { void* b = env->get_basic_type(env, stack, t[2]); fprintf(o, " %d", !!b); if (b) R(1) = env->new_object(env, stack, b); }
    else if (!strcmp(op, "noa")) { void* v = env->new_object_array_by_name(env, stack, t[2], I(3), E); if (!e) R(1) = v; }
    else if (!strcmp(op, "nma")) { void* v = env->new_muldim_array_by_name(env, stack, t[2], I(3), I(4), E); if (!e) R(1) = v; }
    else if (!strcmp(op, "nmn")) { void* v = env->new_mulnum_array_by_name(env, stack, t[2], I(3), E); if (!e) R(1) = v; }
    else if (!strcmp(op, "nap")) { R(1) = env->new_array_proto(env, stack, R(2), I(3)); }
    else if (!strcmp(op, "nape")) { R(1) = env->new_array_proto_element(env, stack, R(2), I(3)); }
    else if (!strcmp(op, "np")) { void* v = env->new_pointer_object_by_name(env, stack, t[2], (void*)(intptr_t)I(3), E); if (!e) R(1) = v; }
    else if (!strcmp(op, "gp")) { fprintf(o, " %" PRId64, (int64_t)(intptr_t)env->get_pointer(env, stack, R(1))); }
    else if (!strcmp(op, "sp")) { env->set_pointer(env, stack, R(1), (void*)(intptr_t)I(2)); }
    else if (!strcmp(op, "nf")) { fprintf(o, " %d", !!env->no_free(env, stack, R(1))); }
    else if (!strcmp(op, "snf")) { env->set_no_free(env, stack, R(1), I(2)); }
    else if (!strcmp(op, "len")) { fprintf(o, " %d", env->length(env, stack, R(1))); }
    else if (!strcmp(op, "tn")) { void* s = env->get_type_name(env, stack, R(1)); fprintf(o, " %s %s %d %s", env->get_chars(env, stack, s), env->get_object_basic_type_name(env, stack, R(1)), env->get_object_type_dimension(env, stack, R(1)), env->get_object_basic_type_id(env, stack, R(1)) == env->get_basic_type_id(env, stack, env->get_object_basic_type_name(env, stack, R(1))) ? "same" : "differs"); }
    else if (!strcmp(op, "ctn")) { void* s = env->get_compile_type_name(env, stack, t[1], I(2), I(3)); fprintf(o, " %s", env->get_chars(env, stack, s)); }
    else if (!strcmp(op, "rc")) { fprintf(o, " %d", env->api->internal->get_ref_count(env, stack, R(1))); }
    else if (!strcmp(op, "gf")) { switch (t[1][0]) {
        case 'b': { int8_t v = env->get_field_byte_by_name(env, stack, R(2), t[3], E); if (!e) fprintf(o, " %d", v); break; }
        case 's': { int16_t v = env->get_field_short_by_name(env, stack, R(2), t[3], E); if (!e) fprintf(o, " %d", v); break; }
        case 'i': { int32_t v = env->get_field_int_by_name(env, stack, R(2), t[3], E); if (!e) fprintf(o, " %d", v); break; }
        case 'l': { int64_t v = env->get_field_long_by_name(env, stack, R(2), t[3], E); if (!e) fprintf(o, " %" PRId64, v); break; }
        case 'f': { float v = env->get_field_float_by_name(env, stack, R(2), t[3], E); if (!e) fprintf(o, " %" PRId64, f_bits(v)); break; }
        case 'd': { double v = env->get_field_double_by_name(env, stack, R(2), t[3], E); if (!e) fprintf(o, " %" PRId64, d_bits(v)); break; } } }
    else if (!strcmp(op, "sf")) { int64_t v = I(4); switch (t[1][0]) {
        case 'b': env->set_field_byte_by_name(env, stack, R(2), t[3], v, E); break; case 's': env->set_field_short_by_name(env, stack, R(2), t[3], v, E); break;
        case 'i': env->set_field_int_by_name(env, stack, R(2), t[3], v, E); break; case 'l': env->set_field_long_by_name(env, stack, R(2), t[3], v, E); break;
        case 'f': env->set_field_float_by_name(env, stack, R(2), t[3], bits_f(v), E); break; case 'd': env->set_field_double_by_name(env, stack, R(2), t[3], bits_d(v), E); break; } }
    else if (!strcmp(op, "gfx")) { // by field object
      void* f = env->get_field(env, stack, R(2), t[3]); fprintf(o, " %d", !!f); if (f) switch (t[1][0]) {
        case 'b': fprintf(o, " %d", env->get_field_byte(env, stack, R(2), f)); break; case 's': fprintf(o, " %d", env->get_field_short(env, stack, R(2), f)); break;
        case 'i': fprintf(o, " %d", env->get_field_int(env, stack, R(2), f)); break; case 'l': fprintf(o, " %" PRId64, env->get_field_long(env, stack, R(2), f)); break;
        case 'f': fprintf(o, " %" PRId64, f_bits(env->get_field_float(env, stack, R(2), f))); break; case 'd': fprintf(o, " %" PRId64, d_bits(env->get_field_double(env, stack, R(2), f))); break; } }
    else if (!strcmp(op, "gfo")) { void* v = env->get_field_object_by_name(env, stack, R(2), t[3], E); if (!e) { R(1) = v; fprintf(o, " %d", !!v); } }
    else if (!strcmp(op, "sfo")) { env->set_field_object_by_name(env, stack, R(1), t[2], R(3), E); }
    else if (!strcmp(op, "gsc")) { const char* c = env->get_field_string_chars_by_name(env, stack, R(1), t[2], E); if (!e) { fprintf(o, " "); if (c) outhex(o, c, strlen(c)); else fprintf(o, "undef"); } }
    else if (!strcmp(op, "gv")) { switch (t[1][0]) {
        case 'b': { int8_t v = env->get_class_var_byte_by_name(env, stack, t[2], t[3], E); if (!e) fprintf(o, " %d", v); break; }
        case 's': { int16_t v = env->get_class_var_short_by_name(env, stack, t[2], t[3], E); if (!e) fprintf(o, " %d", v); break; }
        case 'i': { int32_t v = env->get_class_var_int_by_name(env, stack, t[2], t[3], E); if (!e) fprintf(o, " %d", v); break; }
        case 'l': { int64_t v = env->get_class_var_long_by_name(env, stack, t[2], t[3], E); if (!e) fprintf(o, " %" PRId64, v); break; }
        case 'f': { float v = env->get_class_var_float_by_name(env, stack, t[2], t[3], E); if (!e) fprintf(o, " %" PRId64, f_bits(v)); break; }
        case 'd': { double v = env->get_class_var_double_by_name(env, stack, t[2], t[3], E); if (!e) fprintf(o, " %" PRId64, d_bits(v)); break; } } }
    else if (!strcmp(op, "sv")) { int64_t v = I(4); switch (t[1][0]) {
        case 'b': env->set_class_var_byte_by_name(env, stack, t[2], t[3], v, E); break; case 's': env->set_class_var_short_by_name(env, stack, t[2], t[3], v, E); break;
        case 'i': env->set_class_var_int_by_name(env, stack, t[2], t[3], v, E); break; case 'l': env->set_class_var_long_by_name(env, stack, t[2], t[3], v, E); break;
        case 'f': env->set_class_var_float_by_name(env, stack, t[2], t[3], bits_f(v), E); break; case 'd': env->set_class_var_double_by_name(env, stack, t[2], t[3], bits_d(v), E); break; } }
    else if (!strcmp(op, "gvo")) { void* v = env->get_class_var_object_by_name(env, stack, t[2], t[3], E); if (!e) { R(1) = v; fprintf(o, " %d", !!v); } }
    else if (!strcmp(op, "svo")) { env->set_class_var_object_by_name(env, stack, t[1], t[2], R(3), E); }
    else if (!strcmp(op, "ge")) { int64_t k = I(3); switch (t[1][0]) {
        case 'b': fprintf(o, " %d", env->get_elems_byte(env, stack, R(2))[k]); break; case 's': fprintf(o, " %d", env->get_elems_short(env, stack, R(2))[k]); break;
        case 'i': fprintf(o, " %d", env->get_elems_int(env, stack, R(2))[k]); break; case 'l': fprintf(o, " %" PRId64, env->get_elems_long(env, stack, R(2))[k]); break;
        case 'f': fprintf(o, " %" PRId64, f_bits(env->get_elems_float(env, stack, R(2))[k])); break; case 'd': fprintf(o, " %" PRId64, d_bits(env->get_elems_double(env, stack, R(2))[k])); break; } }
    else if (!strcmp(op, "se")) { int64_t k = I(3), v = I(4); switch (t[1][0]) {
        case 'b': env->get_elems_byte(env, stack, R(2))[k] = v; break; case 's': env->get_elems_short(env, stack, R(2))[k] = v; break;
        case 'i': env->get_elems_int(env, stack, R(2))[k] = v; break; case 'l': env->get_elems_long(env, stack, R(2))[k] = v; break;
        case 'f': env->get_elems_float(env, stack, R(2))[k] = bits_f(v); break; case 'd': env->get_elems_double(env, stack, R(2))[k] = bits_d(v); break; } }
    else if (!strcmp(op, "geo")) { R(1) = env->get_elem_object(env, stack, R(2), I(3)); fprintf(o, " %d", !!R(1)); }
    else if (!strcmp(op, "seo")) { env->set_elem_object(env, stack, R(1), I(2), R(3)); }
    else if (!strcmp(op, "chars")) { const char* c = env->get_chars(env, stack, R(1)); int32_t k = env->length(env, stack, R(1)); fprintf(o, " %d ", k); outhex(o, c, k + 1); }
    else if (!strcmp(op, "cat")) { R(1) = env->concat(env, stack, R(2), R(3)); }
    else if (!strcmp(op, "sh")) { env->shorten(env, stack, R(1), I(2)); }
    else if (!strcmp(op, "mro")) { env->make_read_only(env, stack, R(1)); }
    else if (!strcmp(op, "iro")) { fprintf(o, " %d", env->is_read_only(env, stack, R(1))); }
    else if (!strcmp(op, "cp")) { R(1) = env->copy(env, stack, R(2)); }
    else if (!strcmp(op, "q")) { void* v = R(1); fprintf(o, " %d%d%d%d%d%d%d", env->is_string(env, stack, v), env->is_class(env, stack, v), env->is_pointer_class(env, stack, v), env->is_array(env, stack, v), env->is_object_array(env, stack, v), env->is_numeric_array(env, stack, v), env->is_mulnum_array(env, stack, v)); if (v && env->is_array(env, stack, v)) fprintf(o, " %d", env->get_elem_size(env, stack, v)); }
    else if (!strcmp(op, "isa")) { fprintf(o, " %d", env->isa_by_name(env, stack, R(1), t[2], I(3))); }
    else if (!strcmp(op, "ist")) { fprintf(o, " %d", env->is_type_by_name(env, stack, R(1), t[2], I(3))); }
    else if (!strcmp(op, "eisa")) { fprintf(o, " %d", env->elem_isa(env, stack, R(1), R(2))); }
    else if (!strcmp(op, "fm")) { fprintf(o, " %d%d%d%d", !!env->get_method(env, stack, t[1], t[2]), !!env->get_class_method(env, stack, t[1], t[2]), !!env->get_instance_method_static(env, stack, t[1], t[2]), !!env->get_field_static(env, stack, t[1], t[2])); fprintf(o, "%d", env->get_basic_type_id(env, stack, t[1]) >= 0); int32_t id = env->get_basic_type_id_by_name(env, stack, t[1], E); if (!e) fprintf(o, " %d", id == env->get_basic_type_id(env, stack, t[1])); }
    else if (!strcmp(op, "fi")) { fprintf(o, " %d", !!env->get_instance_method(env, stack, R(1), t[2])); }
    else if (!strcmp(op, "cc") || !strcmp(op, "ci") || !strcmp(op, "cs")) { // op rettype reg class method args...
      int32_t w = 0; for (int32_t k = 5; k < n && t[k][0] != 33; k++) { char* v = t[k] + 2; int64_t i = strtoll(v, NULL, 10); switch (t[k][0]) {
          case 'b': stack[w++].bval = i; break; case 's': stack[w++].sval = i; break; case 'i': stack[w++].ival = i; break; case 'l': stack[w++].lval = i; break;
          case 'f': stack[w++].fval = bits_f(i); break; case 'd': stack[w++].dval = bits_d(i); break; case 'o': stack[w++].oval = v[0] == 'u' ? NULL : r[i]; break; } }
      if (op[1] == 'c') env->call_class_method_by_name(env, stack, t[3], t[4], w, E);
      else if (op[1] == 's') env->call_instance_method_static_by_name(env, stack, t[3], t[4], w, E);
      else env->call_instance_method_by_name(env, stack, t[4], w, E);
      if (!e) switch (t[1][0]) {
        case 'v': break; case 'b': fprintf(o, "@N = %d", stack[0].bval); break; case 's': fprintf(o, "@N = %d", stack[0].sval); break; case 'i': fprintf(o, "@N = %d", stack[0].ival); break;
        case 'l': fprintf(o, "@N = %" PRId64, stack[0].lval); break; case 'f': fprintf(o, "@N = %" PRId64, f_bits(stack[0].fval)); break; case 'd': fprintf(o, "@N = %" PRId64, d_bits(stack[0].dval)); break;
        case 'm': fprintf(o, "@N = %d %d", stack[0].ival, stack[1].ival); break;
        case 'o': R(2) = stack[0].oval; fprintf(o, "@N = %d", !!R(2)); break; } }
    else if (!strcmp(op, "en")) { scopes[nscopes++] = env->enter_scope(env, stack); }
    else if (!strcmp(op, "lv")) { fprintf(o, "\n"); env->leave_scope(env, stack, scopes[--nscopes]); fprintf(o, "@N end"); }
    else if (!strcmp(op, "pm")) { fprintf(o, " %d", env->push_mortal(env, stack, R(1))); }
    else if (!strcmp(op, "wk") || !strcmp(op, "uw") || !strcmp(op, "iw")) { void* f = env->get_field(env, stack, R(1), t[2]); void** ref = env->get_field_object_ref(env, stack, R(1), f);
      if (op[0] == 'w') env->weaken(env, stack, ref); else if (op[0] == 'u') env->unweaken(env, stack, ref); else fprintf(o, " %d", env->isweak(env, stack, ref)); }
    else if (!strcmp(op, "die")) { buf[unhex(t[1], buf)] = 0; rc = env->die(env, stack, "%s", buf, op, "S", line); }
    else if (!strcmp(op, "dief")) { rc = env->die(env, stack, "%s-%d-%c-%.3f-%ld", t[1], -5, 'x', 1.5, 1L << 40, op, "S", line); }
    else if (!strcmp(op, "exc")) { void* x = env->get_exception(env, stack); fprintf(o, " "); if (x) outhex(o, env->get_chars(env, stack, x), env->length(env, stack, x)); else fprintf(o, "undef"); }
    else if (!strcmp(op, "sexc")) { env->set_exception(env, stack, R(1)); }
    else if (!strcmp(op, "cex")) { env->set_exception(env, stack, NULL); }
    else if (!strcmp(op, "blk")) { fprintf(o, " %d", env->get_memory_blocks_count(env, stack)); }
    else if (!strcmp(op, "nb")) { rawblock = env->new_memory_block(env, stack, I(1)); int z = 1; for (int64_t k = 0; k < I(1); k++) z &= !((char*)rawblock)[k]; memset(rawblock, 'x', I(1)); fprintf(o, " %d", z); }
    else if (!strcmp(op, "fb")) { env->free_memory_block(env, stack, rawblock); rawblock = NULL; }
    else if (!strcmp(op, "sterr")) { void* s = env->strerror_string(env, stack, I(1), I(2)); const char* c = s ? env->get_chars(env, stack, s) : NULL; fprintf(o, " "); if (c) outhex(o, c, strlen(c)); else fprintf(o, "undef"); }
    else if (!strcmp(op, "bx")) { void* v = R(1); switch (t[2][0]) { case 'B': fprintf(o, " %d", env->get_bool_object_value(env, stack, v)); break; case 'b': fprintf(o, " %d", env->get_byte_object_value(env, stack, v)); break; case 's': fprintf(o, " %d", env->get_short_object_value(env, stack, v)); break;
        case 'i': fprintf(o, " %d", env->get_int_object_value(env, stack, v)); break; case 'l': fprintf(o, " %" PRId64, (int64_t)env->get_long_object_value(env, stack, v)); break; case 'f': fprintf(o, " %" PRId64, f_bits(env->get_float_object_value(env, stack, v))); break; case 'd': fprintf(o, " %" PRId64, d_bits(env->get_double_object_value(env, stack, v))); break; } }
    else if (!strcmp(op, "st")) { // a script on a new stack
      buf[unhex(t[1], buf)] = 0; fprintf(o, "\n"); SPVM_VALUE* st = env->new_stack(env); void* x = NULL; int32_t top = env->enter_scope(env, st);
      int32_t k = run(env, st, buf, NULL, &x); env->leave_scope(env, st, top); void* ex = env->get_exception(env, st); fprintf(o, "@N stack %d %d %d", k, !!ex, env->is_binary_compatible_stack(env, st)); env->free_stack(env, st); }
    else if (!strcmp(op, "und")) { R(1) = NULL; }
    else if (!strcmp(op, "mv")) { R(1) = R(2); }
    else if (!strcmp(op, "aw")) { fprintf(o, " %d", env->args_width(env, stack)); }
    else if (!strcmp(op, "cmi")) { fprintf(o, " %d", R(1) == R(2)); }
    else if (!strcmp(op, "tb")) { char* b = env->get_stack_tmp_buffer(env, stack); memset(b, 'q', SPVM_NATIVE_C_STACK_TMP_BUFFER_SIZE); b[SPVM_NATIVE_C_STACK_TMP_BUFFER_SIZE - 1] = 0; }
    else if (!strcmp(op, "ret")) { *ret = R(1); fprintf(o, "\n"); break; }
    else { fprintf(o, " ?\n"); abort(); }
    if (e) { void* x = env->get_exception(env, stack); fprintf(o, "\n@N error %d ", e); if (x) outhex(o, env->get_chars(env, stack, x), env->length(env, stack, x)); else fprintf(o, "undef"); }
    fprintf(o, "\n");
    if (e && t[n - 1][0] == '!') rc = e;
  }
  free(text);
  return rc;
}
int32_t SPVM__Nat__run(SPVM_ENV* env, SPVM_VALUE* stack) {
  void* s = stack[0].oval; void* arg = stack[1].oval; void* ret = NULL;
  int32_t e = run(env, stack, env->get_chars(env, stack, s), arg, &ret);
  stack[0].oval = ret;
  return e;
}
