// Standalone driver: embeds the SPVM core, all native standard classes, and the
// monitor class Mon.  Runs the t_* methods of a class, one after another, printing
// an event log that the Python oracles judge.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <inttypes.h>
#include <assert.h>
#include <dlfcn.h>
#include <pthread.h>
#include <signal.h>
#include <unistd.h>
#include <sys/stat.h>
#include "spvm_native.h"

static void cname(char* out, const char* in) {
  while (*in) {
    if (in[0] == ':' && in[1] == ':') { *out++ = '_'; *out++ = '_'; in += 2; }
    else { *out++ = *in++; }
  }
  *out = 0;
}

static const char* FILE_NAME = "driver.c";

/* ---------------- class Mon ---------------- */
int32_t SPVM__Mon__blocks(SPVM_ENV* env, SPVM_VALUE* stack) {
  stack[0].ival = env->get_memory_blocks_count(env, stack);
  return 0;
}
int32_t SPVM__Mon__refcnt(SPVM_ENV* env, SPVM_VALUE* stack) {
  void* o = stack[0].oval;
  stack[0].ival = o ? env->api->internal->get_ref_count(env, stack, o) : -1;
  return 0;
}
int32_t SPVM__Mon__addr(SPVM_ENV* env, SPVM_VALUE* stack) {
  stack[0].lval = (int64_t)(intptr_t)stack[0].oval;
  return 0;
}
int32_t SPVM__Mon__out(SPVM_ENV* env, SPVM_VALUE* stack) {
  fprintf(env->spvm_stdout(env, stack), "%d\n", stack[0].ival);
  return 0;
}
int32_t SPVM__Mon__flush(SPVM_ENV* env, SPVM_VALUE* stack) {
  fflush(env->spvm_stdout(env, stack));
  return 0;
}
int32_t SPVM__Mon__double_bits(SPVM_ENV* env, SPVM_VALUE* stack) {
  double d = stack[0].dval; int64_t l; memcpy(&l, &d, 8);
  if (d != d) l = 0x7ff8000000000000LL;
  stack[0].lval = l; return 0;
}
int32_t SPVM__Mon__float_bits(SPVM_ENV* env, SPVM_VALUE* stack) {
  float d = stack[0].fval; int32_t l; memcpy(&l, &d, 4);
  if (d != d) l = 0x7fc00000;
  stack[0].ival = l; return 0;
}
int32_t SPVM__Mon__bits_double(SPVM_ENV* env, SPVM_VALUE* stack) {
  int64_t l = stack[0].lval; double d; memcpy(&d, &l, 8); stack[0].dval = d; return 0;
}
int32_t SPVM__Mon__bits_float(SPVM_ENV* env, SPVM_VALUE* stack) {
  int32_t l = stack[0].ival; float d; memcpy(&d, &l, 4); stack[0].fval = d; return 0;
}
int32_t SPVM__Mon__nul_terminated(SPVM_ENV* env, SPVM_VALUE* stack) {
  void* o = stack[0].oval;
  if (!o) { stack[0].ival = -1; return 0; }
  stack[0].ival = env->get_chars(env, stack, o)[env->length(env, stack, o)] == 0;
  return 0;
}
/* split(sep, s): the parts between the separator's first byte, as Fn->split with limit -1, in linear time */
int32_t SPVM__Mon__split(SPVM_ENV* env, SPVM_VALUE* stack) {
  char sep = env->get_chars(env, stack, stack[0].oval)[0];
  void* o = stack[1].oval;
  int32_t n = env->length(env, stack, o), parts = 1, at = 0, k = 0;
  const char* c = env->get_chars(env, stack, o);
  for (int32_t i = 0; i < n; i++) if (c[i] == sep) parts++;
  void* a = env->new_string_array(env, stack, parts);
  for (int32_t i = 0; i <= n; i++) if (i == n || c[i] == sep) {
    void* e = env->new_string(env, stack, c + at, i - at);
    env->set_elem_object(env, stack, a, k++, e);
    at = i + 1;
  }
  stack[0].oval = a;
  return 0;
}
int32_t SPVM__Mon__hex(SPVM_ENV* env, SPVM_VALUE* stack) {
  void* o = stack[0].oval;
  if (!o) { stack[0].oval = env->new_string_nolen(env, stack, "UNDEF"); return 0; }
  int32_t n = env->length(env, stack, o);
  const char* c = env->get_chars(env, stack, o);
  char* b = malloc((size_t)n * 2 + 1);
  for (int32_t i = 0; i < n; i++) sprintf(b + 2 * i, "%02x", (unsigned char)c[i]);
  b[2 * (size_t)n] = 0;
  stack[0].oval = env->new_string(env, stack, b, n * 2);
  free(b);
  return 0;
}

/* arr_T("1 2 3"): arrays from decimal text (float and double as bit patterns) */
#define ARR(NAME, CT, NEW, GET, CONV) \
int32_t SPVM__Mon__arr_##NAME(SPVM_ENV* env, SPVM_VALUE* stack) { \
  const char* s = env->get_chars(env, stack, stack[0].oval); \
  int32_t n = 0; const char* p = s; \
  while (*p) { while (*p == ' ') p++; if (*p) { n++; while (*p && *p != ' ') p++; } } \
  void* a = env->NEW(env, stack, n); CT* e = env->GET(env, stack, a); p = s; \
  for (int32_t i = 0; i < n; i++) { char* q; int64_t v = (int64_t)strtoull(p, &q, 10); p = q; CONV } \
  stack[0].oval = a; return 0; }
ARR(byte, int8_t, new_byte_array, get_elems_byte, e[i] = (int8_t)v;)
ARR(short, int16_t, new_short_array, get_elems_short, e[i] = (int16_t)v;)
ARR(int, int32_t, new_int_array, get_elems_int, e[i] = (int32_t)v;)
ARR(long, int64_t, new_long_array, get_elems_long, e[i] = v;)
ARR(float, float, new_float_array, get_elems_float, { int32_t w = (int32_t)v; memcpy(&e[i], &w, 4); })
ARR(double, double, new_double_array, get_elems_double, memcpy(&e[i], &v, 8);)
/* inverse of hex */
int32_t SPVM__Mon__unhex(SPVM_ENV* env, SPVM_VALUE* stack) {
  const char* s = env->get_chars(env, stack, stack[0].oval);
  int32_t n = (int32_t)strlen(s) / 2;
  void* o = env->new_string(env, stack, NULL, n);
  char* c = (char*)env->get_chars(env, stack, o);
  for (int32_t i = 0; i < n; i++) { unsigned x; sscanf(s + 2 * i, "%2x", &x); c[i] = (char)x; }
  stack[0].oval = o; return 0;
}
/* deterministic schedule perturbation for thread workloads */
int32_t SPVM__Mon__yield(SPVM_ENV* env, SPVM_VALUE* stack) {
  int32_t n = stack[0].ival;
  if (n <= 0) sched_yield(); else usleep(n);
  return 0;
}

/* ---- threads: each runs instance method "run" of an object with its own stack ---- */
#include <sched.h>
typedef struct { SPVM_ENV* env; void* obj; int32_t err; char* msg; pthread_t th; pthread_barrier_t* bar; } TH;
static void* th_main(void* p) {
  TH* t = p;
  SPVM_VALUE* stack = t->env->new_stack(t->env);
  if (t->bar) pthread_barrier_wait(t->bar);
  stack[0].oval = t->obj;
  int32_t error_id = 0;
  int32_t top = t->env->enter_scope(t->env, stack);
  t->env->call_instance_method_by_name(t->env, stack, "run", 1, &error_id, __func__, FILE_NAME, __LINE__);
  t->env->leave_scope(t->env, stack, top);
  if (error_id) {
    t->err = error_id;
    void* e = t->env->get_exception(t->env, stack);
    t->msg = e ? strdup(t->env->get_chars(t->env, stack, e)) : strdup("");
    t->env->set_exception(t->env, stack, NULL);
  }
  t->env->free_stack(t->env, stack);
  return NULL;
}
/* Mon->run_threads($objs : object[]) : runs $objs->[i]->run in its own thread, all at once */
int32_t SPVM__Mon__run_threads(SPVM_ENV* env, SPVM_VALUE* stack) {
  void* arr = stack[0].oval;
  int32_t n = env->length(env, stack, arr);
  TH* ths = calloc(n, sizeof(TH));
  pthread_barrier_t bar;
  pthread_barrier_init(&bar, NULL, n);
  for (int32_t i = 0; i < n; i++) {
    ths[i].env = env; ths[i].bar = &bar;
    ths[i].obj = env->get_elem_object(env, stack, arr, i);
    if (pthread_create(&ths[i].th, NULL, th_main, &ths[i])) { fprintf(stderr, "pthread_create failed\n"); exit(99); }
  }
  for (int32_t i = 0; i < n; i++) pthread_join(ths[i].th, NULL);
  pthread_barrier_destroy(&bar);
  int32_t err = 0; char* msg = NULL;
  for (int32_t i = 0; i < n; i++) if (ths[i].err) { err = ths[i].err; if (!msg) msg = ths[i].msg; else free(ths[i].msg); }
  free(ths);
  if (err) { env->die(env, stack, "thread: %s", msg, __func__, FILE_NAME, __LINE__); free(msg); return err; }
  return 0;
}

#ifdef DRV_EXTRA
#include DRV_EXTRA
#endif

/* ---------------- main ---------------- */
static const char* incs[64]; static int n_incs;
static const char* pre_so; static const char* gen_dir; static const char* only;
static int do_session, only_check, print_methods; static int repeat = 1;
static const char* native_sos[64]; static int n_native_sos;

static void bind_addresses(SPVM_ENV* env, void* pre, void** nats, int n_nats) {
  void* rt = env->runtime;
  int32_t n = env->api->runtime->get_basic_types_length(rt);
  char sym[4096], cn[2048];
  for (int32_t i = 0; i < n; i++) {
    void* bt = env->api->runtime->get_basic_type_by_id(rt, i);
    if (!bt) continue;
    const char* name = env->api->basic_type->get_name(rt, bt);
    if (!name || strlen(name) > 1500) continue;
    cname(cn, name);
    int32_t m = env->api->basic_type->get_methods_length(rt, bt);
    for (int32_t j = 0; j < m; j++) {
      void* me = env->api->basic_type->get_method_by_index(rt, bt, j);
      const char* mn = env->api->method->get_name(rt, me);
      if (env->api->method->is_native(rt, me)) {
        snprintf(sym, sizeof sym, "SPVM__%s__%s", cn, mn);
        void* a = dlsym(RTLD_DEFAULT, sym);
        for (int k = 0; !a && k < n_nats; k++) a = dlsym(nats[k], sym);
        if (a) env->api->method->set_native_address(rt, me, a);
      }
      if (env->api->method->is_precompile(rt, me)) {
        void* a = NULL;
        if (pre) {
          snprintf(sym, sizeof sym, "SPVMPRECOMPILE__%s__%s", cn, mn);
          a = dlsym(pre, sym);
          if (a) env->api->method->set_precompile_address(rt, me, a);
          else if (!pre_so) {}
          else { fprintf(stderr, "@NOPRE %s\n", sym); }
        }
        if (!a) env->api->method->set_is_precompile_fallback(rt, me, 1);
      }
    }
  }
}

static void gen_precompile(SPVM_ENV* env, const char* dir) {
  void* rt = env->runtime;
  void* alloc = env->api->allocator->new_instance();
  int32_t n = env->api->runtime->get_basic_types_length(rt);
  for (int32_t i = 0; i < n; i++) {
    void* bt = env->api->runtime->get_basic_type_by_id(rt, i);
    if (!bt) continue;
    if (env->api->basic_type->is_anon(rt, bt) || strstr(env->api->basic_type->get_name(rt, bt), "::anon_method::")) continue;
    int32_t cat = env->api->basic_type->get_category(rt, bt);
    if (cat != SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_CLASS) continue;
    int32_t has = 0;
    int32_t m = env->api->basic_type->get_methods_length(rt, bt);
    for (int32_t j = 0; j < m; j++)
      if (env->api->method->is_precompile(rt, env->api->basic_type->get_method_by_index(rt, bt, j))) has = 1;
    int32_t an = env->api->basic_type->get_anon_basic_types_length(rt, bt);
    for (int32_t a = 0; a < an; a++) {
      void* abt = env->api->basic_type->get_anon_basic_type_by_index(rt, bt, a);
      int32_t am = env->api->basic_type->get_methods_length(rt, abt);
      for (int32_t j = 0; j < am; j++)
        if (env->api->method->is_precompile(rt, env->api->basic_type->get_method_by_index(rt, abt, j))) has = 1;
    }
    if (!has) continue;
    void* sb = env->api->string_buffer->new_instance(alloc, 0);
    env->api->runtime->build_precompile_class_source(rt, sb, bt);
    char cn[2048], path[4096];
    cname(cn, env->api->basic_type->get_name(rt, bt));
    snprintf(path, sizeof path, "%s/%s.precompile.c", dir, cn);
    FILE* f = fopen(path, "w");
    if (!f) { fprintf(stderr, "cannot write %s\n", path); exit(99); }
    fwrite(env->api->string_buffer->get_string(sb), 1, env->api->string_buffer->get_length(sb), f);
    fclose(f);
    env->api->string_buffer->free_instance(sb);
  }
  env->api->allocator->free_instance(alloc);
}

/* ---------------- session mode: a script of compiler operations from stdin ----------------
   N k            new compiler (include directories set)         X k Class     delete_class_file
   S k Class hex  class file with this content                    F k           free compiler and env
   C k Class      compile                                         A k hex       compile_anon_class
   R k Class m    run static method m                             D k Class     reflection dump
   I k Class      call init methods (done by R on demand)         V k           destroy class vars
   E k Class hex  source file with this content in the folder of the compiler (MON_DIR)
   W n            watchdog seconds for each following command                                     */
#define NS 64
static struct { void* comp; SPVM_ENV* env; SPVM_VALUE* stack; size_t bytes; char dir[1024]; } SS[NS];
size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
static size_t cur_bytes(void) { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }
static char* unhex_dup(const char* h, int32_t* len) {
  int32_t n = (int32_t)strlen(h) / 2; char* b = malloc(n + 1);
  for (int32_t i = 0; i < n; i++) { unsigned x = 0; sscanf(h + 2 * i, "%2x", &x); b[i] = (char)x; }
  b[n] = 0; *len = n; return b;
}
static void put_hex(const char* s) { if (!s) { printf("-"); return; } for (; *s; s++) printf("%02x", (unsigned char)*s); }
static void put_type(void* rt, SPVM_ENV* e, void* bt, int32_t dim, int32_t flag) {
  printf("%s%s%d/%d", bt ? e->api->basic_type->get_name(rt, bt) : "-", "^", dim, flag);
}
static void dump_class(SPVM_ENV* e, void* rt, const char* name) {
  void* bt = e->api->runtime->get_basic_type_by_name(rt, name);
  if (!bt) { printf("@D none\n"); return; }
  SPVM_API_BASIC_TYPE* B = e->api->basic_type;
  void* par = B->get_parent(rt, bt);
  printf("@D class %s id %d cat %d parent %s version %s file %s rel %s dir %s anon %d pointer %d\n", B->get_name(rt, bt), B->get_id(rt, bt), B->get_category(rt, bt),
    par ? B->get_name(rt, par) : "-", B->get_version_string(rt, bt) ? B->get_version_string(rt, bt) : "-", B->get_file(rt, bt) ? B->get_file(rt, bt) : "-",
    B->get_class_rel_file(rt, bt) ? B->get_class_rel_file(rt, bt) : "-", B->get_class_dir(rt, bt) ? B->get_class_dir(rt, bt) : "-", B->is_anon(rt, bt), B->is_pointer(rt, bt));
  printf("@D byid %d cur %d\n", e->api->runtime->get_basic_type_by_id(rt, B->get_id(rt, bt)) == bt, B->get_current_runtime(rt, bt) == rt);
  for (int32_t i = 0; i < B->get_class_vars_length(rt, bt); i++) {
    void* v = B->get_class_var_by_index(rt, bt, i); SPVM_API_CLASS_VAR* V = e->api->class_var;
    printf("@D var %d %s ", V->get_index(rt, v), V->get_name(rt, v)); put_type(rt, e, V->get_basic_type(rt, v), V->get_type_dimension(rt, v), V->get_type_flag(rt, v));
    printf(" byname %d cur %d\n", B->get_class_var_by_name(rt, bt, V->get_name(rt, v)) == v, V->get_current_basic_type(rt, v) == bt);
  }
  for (int32_t i = 0; i < B->get_fields_length(rt, bt); i++) {
    void* v = B->get_field_by_index(rt, bt, i); SPVM_API_FIELD* V = e->api->field;
    printf("@D field %d %s ", V->get_index(rt, v), V->get_name(rt, v)); put_type(rt, e, V->get_basic_type(rt, v), V->get_type_dimension(rt, v), V->get_type_flag(rt, v));
    printf(" offset %d byname %d cur %s\n", V->get_offset(rt, v), B->get_field_by_name(rt, bt, V->get_name(rt, v)) == v, B->get_name(rt, V->get_current_basic_type(rt, v)));
  }
  for (int32_t i = 0; i < B->get_methods_length(rt, bt); i++) {
    void* v = B->get_method_by_index(rt, bt, i); SPVM_API_METHOD* V = e->api->method;
    printf("@D method %d %s ", V->get_index(rt, v), V->get_name(rt, v)); put_type(rt, e, V->get_return_basic_type(rt, v), V->get_return_type_dimension(rt, v), V->get_return_type_flag(rt, v));
    printf(" args %d required %d class %d anon %d native %d precompile %d enum %d byname %d cur %d\n", V->get_args_length(rt, v), V->get_required_args_length(rt, v), V->is_class_method(rt, v), V->is_anon(rt, v), V->is_native(rt, v), V->is_precompile(rt, v), V->is_enum(rt, v),
      B->get_method_by_name(rt, bt, V->get_name(rt, v)) == v, V->get_current_basic_type(rt, v) == bt);
    for (int32_t j = 0; j < V->get_args_length(rt, v); j++) {
      void* a = V->get_arg_by_index(rt, v, j); SPVM_API_ARG* G = e->api->arg;
      SPVM_VALUE dv = G->get_default_value(rt, a);
      printf("@D arg %d %s ", G->get_index(rt, a), G->get_name(rt, a)); put_type(rt, e, G->get_basic_type(rt, a), G->get_type_dimension(rt, a), G->get_type_flag(rt, a));
      printf(" optional %d stack %d cur %d default %" PRId64 "\n", G->is_optional(rt, a), G->get_stack_index(rt, a), G->get_current_method(rt, a) == v, G->is_optional(rt, a) ? dv.lval : (int64_t)0);
    }
  }
  for (int32_t i = 0; i < B->get_anon_basic_types_length(rt, bt); i++) { void* a = B->get_anon_basic_type_by_index(rt, bt, i); printf("@D anon %d %s\n", i, B->get_name(rt, a)); }
  int32_t n = e->api->runtime->get_basic_types_length(rt);
  for (int32_t i = 0; i < n; i++) {
    void* o = e->api->runtime->get_basic_type_by_id(rt, i); if (!o) { printf("@D noid %d\n", i); continue; }
    if (B->get_id(rt, o) != i || e->api->runtime->get_basic_type_by_name(rt, B->get_name(rt, o)) != o) printf("@D badid %d %s\n", i, B->get_name(rt, o));
    if (B->has_interface(rt, bt, o)) printf("@D has_interface %s\n", B->get_name(rt, o));
    if (o != bt && B->is_super_class(rt, o, bt)) printf("@D super %s\n", B->get_name(rt, o));
  }
  static const char* bad[] = {"", "nosuch", "$nosuch", "$", "::", "new::", "\xff"};
  for (unsigned i = 0; i < sizeof bad / sizeof *bad; i++)
    if (B->get_class_var_by_name(rt, bt, bad[i]) || B->get_field_by_name(rt, bt, bad[i]) || B->get_method_by_name(rt, bt, bad[i]) || e->api->runtime->get_basic_type_by_name(rt, bad[i])) printf("@D found %s\n", bad[i]);
}
static void bind2(SPVM_ENV* env) { bind_addresses(env, NULL, NULL, 0); dlerror(); dlerror(); }
static int session(SPVM_ENV* boot) {
  size_t cap = 8 << 20; char* line = malloc(cap); ssize_t n; int idx = 0; unsigned wd = 0;
  while ((n = getline(&line, &cap, stdin)) > 0) {
    if (line[n - 1] == '\n') line[--n] = 0;
    if (!n) continue;
    char* f[4] = {0}; int nf = 0; char* sv = NULL;
    for (char* t = strtok_r(line, " ", &sv); t && nf < 4; t = strtok_r(NULL, " ", &sv)) f[nf++] = t;
    int k = nf > 1 ? atoi(f[1]) : 0; if (k < 0 || k >= NS) k = 0;
    printf("@S %d %s\n", idx++, f[0]); fflush(stdout);
    if (f[0][0] == 'W') { wd = k; continue; }
    alarm(wd);
    switch (f[0][0]) {
      case 'N':
        SS[k].bytes = cur_bytes();
        SS[k].comp = boot->api->compiler->new_instance();
        for (int i = 0; i < n_incs; i++) boot->api->compiler->add_include_dir(SS[k].comp, incs[i]);
        if (getenv("MON_DIR")) {
          static int dirs = 0;
          snprintf(SS[k].dir, sizeof SS[k].dir, "%s/mon%d_%d", getenv("MON_DIR"), (int)getpid(), dirs++); mkdir(SS[k].dir, 0700);
          boot->api->compiler->add_include_dir(SS[k].comp, SS[k].dir);
        }
        boot->api->compiler->set_start_file(SS[k].comp, "start.c"); boot->api->compiler->set_start_line(SS[k].comp, 77);
        break;
      case 'S': {
        int32_t len; char* b = unhex_dup(f[3] ? f[3] : "", &len); void* c = SS[k].comp;
        boot->api->compiler->add_class_file(c, f[2]);
        void* cf = boot->api->compiler->get_class_file(c, f[2]);
        char rel[2048]; snprintf(rel, sizeof rel, "%s.spvm", f[2]);
        boot->api->class_file->set_rel_file(c, cf, rel); boot->api->class_file->set_content(c, cf, b); boot->api->class_file->set_content_length(c, cf, len);
        free(b);
        break; }
      case 'E': {
        int32_t len; char* b = unhex_dup(f[3] ? f[3] : "", &len); char path[4096]; int p = snprintf(path, sizeof path, "%s/", SS[k].dir);
        for (char* s = f[2]; *s && p < 4000; s++) {
          if (s[0] == ':' && s[1] == ':') { path[p] = 0; mkdir(path, 0700); path[p++] = '/'; s++; }
          else path[p++] = *s;
        }
        strcpy(path + p, ".spvm");
        FILE* o = fopen(path, "wb"); if (!o || fwrite(b, 1, len, o) != (size_t)len || fclose(o)) { fprintf(stderr, "cannot write %s\n", path); exit(3); }
        free(b);
        break; }
      case 'X': boot->api->compiler->delete_class_file(SS[k].comp, f[2]); break;
      case 'C': case 'A': {
        int32_t e, len; const char* an = NULL;
        if (f[0][0] == 'C') e = boot->api->compiler->compile(SS[k].comp, f[2] && strcmp(f[2], "-") ? f[2] : NULL);
        else { char* b = unhex_dup(f[2] ? f[2] : "", &len); e = boot->api->compiler->compile_anon_class(SS[k].comp, b, &an); free(b); }
        int32_t m = boot->api->compiler->get_error_messages_length(SS[k].comp);
        printf("@R %d %d\n", e, m);
        for (int32_t i = 0; i < m; i++) { printf("@M "); put_hex(boot->api->compiler->get_error_message(SS[k].comp, i)); printf("\n"); }
        if (!e && an) printf("@A %s\n", an);
        break; }
      case 'R': case 'I': {
        if (!boot->api->runtime->get_basic_type_by_name(boot->api->compiler->get_runtime(SS[k].comp), "CommandInfo")) { printf("@X nothing compiled\n"); break; }
        if (!SS[k].env) {
          SPVM_ENV* env = SS[k].env = boot->new_env(); env->runtime = boot->api->compiler->get_runtime(SS[k].comp);
          bind2(env);
          SPVM_VALUE* st = SS[k].stack = env->new_stack(env);
          int32_t top = env->enter_scope(env, st);
          env->set_command_info_program_name(env, st, env->new_string_nolen(env, st, "drv"));
          env->set_command_info_argv(env, st, env->new_string_array(env, st, 0)); env->set_command_info_base_time(env, st, 1);
          env->leave_scope(env, st, top);
        }
        SPVM_ENV* env = SS[k].env; SPVM_VALUE* st = SS[k].stack;
        env->runtime = boot->api->compiler->get_runtime(SS[k].comp);
        bind2(env);
        int32_t e = env->call_init_methods(env, st);
        FILE* out = env->api->runtime->get_spvm_stdout(env->runtime);
        if (e) { void* x = env->get_exception(env, st); fprintf(out, "@I %d %s\n", e, x ? env->get_chars(env, st, x) : ""); env->set_exception(env, st, NULL); }
        if (f[0][0] == 'R') {
          void* bt = env->api->runtime->get_basic_type_by_name(env->runtime, f[2]);
          void* me = bt ? env->api->basic_type->get_method_by_name(env->runtime, bt, f[3]) : NULL;
          if (!me) fprintf(out, "@X nomethod\n");
          else {
            int32_t b0 = env->get_memory_blocks_count(env, st), top = env->enter_scope(env, st);
            e = env->call_method(env, st, me, 0);
            if (e) { void* x = env->get_exception(env, st); fprintf(out, "@X %d %s\n", e, x ? env->get_chars(env, st, x) : "(none)"); }
            env->leave_scope(env, st, top); env->set_exception(env, st, NULL);
            fprintf(out, "@K %d\n", env->get_memory_blocks_count(env, st) - b0);
          }
        }
        fflush(out);
        break; }
      case 'V': if (SS[k].env) { SS[k].env->destroy_class_vars(SS[k].env, SS[k].stack); printf("@V %d\n", SS[k].env->get_memory_blocks_count(SS[k].env, SS[k].stack)); } break;
      case 'D': dump_class(boot, boot->api->compiler->get_runtime(SS[k].comp), f[2]); break;
      case 'F':
        if (SS[k].env) { SS[k].env->destroy_class_vars(SS[k].env, SS[k].stack); SS[k].env->free_stack(SS[k].env, SS[k].stack); SS[k].env->free_env(SS[k].env); SS[k].env = NULL; }
        boot->api->compiler->free_instance(SS[k].comp); SS[k].comp = NULL;
        printf("@F %lld\n", (long long)cur_bytes() - (long long)SS[k].bytes);
        break;
    }
    alarm(0);
    fflush(stdout);
  }
  free(line);
  boot->free_env(boot);
  printf("@END\n");
  return 0;
}

int main(int argc, char** argv) {
  const char* classes[512]; int n_classes = 0;
  int progargs = argc;
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "-I")) incs[n_incs++] = argv[++i];
    else if (!strcmp(argv[i], "--pre")) pre_so = argv[++i];
    else if (!strcmp(argv[i], "--gen")) gen_dir = argv[++i];
    else if (!strcmp(argv[i], "--only")) only = argv[++i];
    else if (!strcmp(argv[i], "--native")) native_sos[n_native_sos++] = argv[++i];
    else if (!strcmp(argv[i], "--repeat")) repeat = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--check")) only_check = 1;
    else if (!strcmp(argv[i], "--session")) do_session = 1;
    else if (!strcmp(argv[i], "--")) { progargs = i + 1; break; }
    else classes[n_classes++] = argv[i];
  }
  if (do_session) return session(SPVM_NATIVE_new_env());
  if (!n_classes) { fprintf(stderr, "usage: drv [-I dir] [--pre so] [--gen dir] [--check] Class...\n"); return 99; }

  void* pre = NULL;
  if (pre_so) { pre = dlopen(pre_so, RTLD_NOW | RTLD_GLOBAL); if (!pre) { fprintf(stderr, "%s\n", dlerror()); return 99; } }
  void* nats[64];
  for (int i = 0; i < n_native_sos; i++) { nats[i] = dlopen(native_sos[i], RTLD_NOW | RTLD_GLOBAL); if (!nats[i]) { fprintf(stderr, "%s\n", dlerror()); return 99; } }

  SPVM_ENV* boot = SPVM_NATIVE_new_env();
  void* compiler = boot->api->compiler->new_instance();
  for (int i = 0; i < n_incs; i++) boot->api->compiler->add_include_dir(compiler, incs[i]);
  boot->api->compiler->set_start_file(compiler, "driver.c");
  boot->api->compiler->set_start_line(compiler, 1);
  int32_t bad = 0;
  for (int i = 0; i < n_classes; i++) {
    if (only_check) { printf("@C %s\n", classes[i]); fflush(stdout); }
    int32_t e = boot->api->compiler->compile(compiler, classes[i]);
    if (e) {
      bad++;
      int32_t n = boot->api->compiler->get_error_messages_length(compiler);
      for (int32_t k = 0; k < n; k++) printf("@CE %d %s\n", e, boot->api->compiler->get_error_message(compiler, k));
      if (!n) printf("@CE %d (no message)\n", e);
    }
    else if (only_check) printf("@CO\n");
    fflush(stdout);
  }
  if (only_check || bad) {
    boot->api->compiler->free_instance(compiler);
    boot->free_env(boot);
    printf("@END\n");
    return (bad && !only_check) ? 3 : 0;
  }
  void* runtime = boot->api->compiler->get_runtime(compiler);
  SPVM_ENV* env = boot->new_env();
  env->runtime = runtime;
  FILE* out = env->api->runtime->get_spvm_stdout(runtime);
  if (gen_dir) {
    gen_precompile(env, gen_dir);
    env->free_env(env);
    boot->api->compiler->free_instance(compiler);
    boot->free_env(boot);
    return 0;
  }
  bind_addresses(env, pre, nats, n_native_sos);
  SPVM_VALUE* stack = env->new_stack(env);
  int32_t base0 = env->get_memory_blocks_count(env, stack);
  {
    int32_t top = env->enter_scope(env, stack);
    env->set_command_info_program_name(env, stack, env->new_string_nolen(env, stack, "drv"));
    int na = argc - progargs;
    void* av = env->new_string_array(env, stack, na);
    for (int i = 0; i < na; i++) env->set_elem_object(env, stack, av, i, env->new_string_nolen(env, stack, argv[progargs + i]));
    env->set_command_info_argv(env, stack, av);
    env->set_command_info_base_time(env, stack, 1);
    env->leave_scope(env, stack, top);
  }
  int32_t error_id = env->call_init_methods(env, stack);
  if (error_id) {
    void* e = env->get_exception(env, stack);
    fprintf(out, "@INITERR %d %s\n", error_id, e ? env->get_chars(env, stack, e) : "");
    env->set_exception(env, stack, NULL);
  }
  fflush(out);
  for (int r = 0; r < repeat; r++)
  for (int c = 0; c < n_classes; c++) {
    void* bt = env->api->runtime->get_basic_type_by_name(env->runtime, classes[c]);
    if (!bt) { fprintf(out, "@NOCLASS %s\n", classes[c]); continue; }
    int32_t m = env->api->basic_type->get_methods_length(env->runtime, bt);
    for (int32_t j = 0; j < m; j++) {
      void* me = env->api->basic_type->get_method_by_index(env->runtime, bt, j);
      const char* mn = env->api->method->get_name(env->runtime, me);
      if (strncmp(mn, "t_", 2)) continue;
      if (only && strcmp(only, mn)) continue;
      fprintf(out, "@B %s %s\n", classes[c], mn); fflush(out);
      int32_t b0 = env->get_memory_blocks_count(env, stack);
      int32_t top = env->enter_scope(env, stack);
      error_id = env->call_method(env, stack, me, 0);
      if (error_id) {
        void* e = env->get_exception(env, stack);
        fprintf(out, "@E %d %s\n", error_id, e ? env->get_chars(env, stack, e) : "(none)");
      }
      env->leave_scope(env, stack, top);
      env->set_exception(env, stack, NULL);
      int32_t b1 = env->get_memory_blocks_count(env, stack);
      fprintf(out, "@K %d\n", b1 - b0); fflush(out);
    }
  }
  env->destroy_class_vars(env, stack);
  int32_t base1 = env->get_memory_blocks_count(env, stack);
  fprintf(out, "@END %d\n", base1 - base0); fflush(out);
  env->free_stack(env, stack);
  env->free_env(env);
  boot->api->compiler->free_instance(compiler);
  boot->free_env(boot);
  return 0;
}
