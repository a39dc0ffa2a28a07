// class Thr: monitors of the thread workloads (S01): exactly-once destruction, mutual exclusion, rendezvous, delay injection.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdint.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sched.h>
#include <time.h>
#include "spvm_native.h"

#define MAXID 4000000
static _Atomic unsigned char state[MAXID];   // 1 created, 2 destroyed
static _Atomic int next_id, n_destroyed, n_bad, maxr, inw[64], inr[64], cnt[256];
static void bad(const char* m, int a, int b) { n_bad++; fprintf(stdout, "@BAD %s %d %d\n", m, a, b); fflush(stdout); }

int32_t SPVM__Thr__created(SPVM_ENV* env, SPVM_VALUE* stack) { int id = next_id++; if (id >= MAXID) { fprintf(stderr, "too many objects\n"); exit(98); } state[id] = 1; stack[0].ival = id; return 0; }
int32_t SPVM__Thr__destroyed(SPVM_ENV* env, SPVM_VALUE* stack) {
  int id = stack[0].ival; if (id < 0 || id >= next_id) { bad("destroyed-unknown", id, 0); return 0; }
  unsigned char was = atomic_exchange(&state[id], 2); if (was != 1) bad("destroyed-twice", id, was); n_destroyed++; return 0; }
int32_t SPVM__Thr__is_alive(SPVM_ENV* env, SPVM_VALUE* stack) { int id = stack[0].ival; stack[0].ival = id >= 0 && id < next_id && state[id] == 1; return 0; }
int32_t SPVM__Thr__n_created(SPVM_ENV* env, SPVM_VALUE* stack) { stack[0].ival = next_id; return 0; }
int32_t SPVM__Thr__n_destroyed(SPVM_ENV* env, SPVM_VALUE* stack) { stack[0].ival = n_destroyed; return 0; }
int32_t SPVM__Thr__n_bad(SPVM_ENV* env, SPVM_VALUE* stack) { stack[0].ival = n_bad; return 0; }
int32_t SPVM__Thr__max_readers(SPVM_ENV* env, SPVM_VALUE* stack) { stack[0].ival = maxr; return 0; }
int32_t SPVM__Thr__bad(SPVM_ENV* env, SPVM_VALUE* stack) { bad(env->get_chars(env, stack, stack[0].oval), stack[1].ival, stack[2].ival); return 0; }
int32_t SPVM__Thr__add(SPVM_ENV* env, SPVM_VALUE* stack) { stack[0].ival = cnt[stack[0].ival & 255] += stack[1].ival; return 0; }
int32_t SPVM__Thr__zero(SPVM_ENV* env, SPVM_VALUE* stack) { cnt[stack[0].ival & 255] = 0; return 0; }
static _Thread_local int tid; static _Atomic int ntid; static _Atomic uint64_t order;
int32_t SPVM__Thr__order(SPVM_ENV* env, SPVM_VALUE* stack) { stack[0].lval = order; order = 0; ntid = 0; return 0; }
int32_t SPVM__Thr__enter_w(SPVM_ENV* env, SPVM_VALUE* stack) { if (!tid) tid = ++ntid; order = order * 1099511628211ULL + tid + 64 * (stack[0].ival & 63); int m = stack[0].ival & 63; int w = ++inw[m], r = inr[m]; if (w != 1 || r) bad("writer-not-alone", w, r); return 0; }
int32_t SPVM__Thr__leave_w(SPVM_ENV* env, SPVM_VALUE* stack) { int m = stack[0].ival & 63; int w = inw[m]--, r = inr[m]; if (w != 1 || r) bad("writer-not-alone-end", w, r); return 0; }
int32_t SPVM__Thr__enter_r(SPVM_ENV* env, SPVM_VALUE* stack) { int m = stack[0].ival & 63; int r = ++inr[m], w = inw[m]; if (w) bad("reader-with-writer", w, r); int o = maxr; while (r > o && !atomic_compare_exchange_weak(&maxr, &o, r)); return 0; }
int32_t SPVM__Thr__leave_r(SPVM_ENV* env, SPVM_VALUE* stack) { int m = stack[0].ival & 63; int w = inw[m], r = inr[m]--; if (w) bad("reader-with-writer-end", w, r); return 0; }
// waits until n threads have arrived at the counter k; 0 after 20 seconds
int32_t SPVM__Thr__meet(SPVM_ENV* env, SPVM_VALUE* stack) {
  int k = stack[0].ival & 255, n = stack[1].ival; cnt[k]++; time_t t0 = time(NULL);
  while (cnt[k] < n) { if (time(NULL) - t0 > 20) { stack[0].ival = 0; return 0; } usleep(50); }
  stack[0].ival = 1; return 0; }

// ---- delays at the runtime's own entry points
static void (*r_assign)(SPVM_ENV*, SPVM_VALUE*, void**, void*);
static void (*r_inc)(SPVM_ENV*, SPVM_VALUE*, void*), (*r_dec)(SPVM_ENV*, SPVM_VALUE*, void*);
static void (*r_leave)(SPVM_ENV*, SPVM_VALUE*, void**, int32_t*, int32_t*, int32_t);
static int32_t (*r_call)(SPVM_ENV*, SPVM_VALUE*, void*, int32_t);
static int32_t (*r_weaken)(SPVM_ENV*, SPVM_VALUE*, void**); static void (*r_unweaken)(SPVM_ENV*, SPVM_VALUE*, void**);
static _Thread_local uint32_t rs; static _Atomic uint32_t rseed; static int level;
static _Atomic int hold_on;     // the directed probe of the return window: 1 armed, 2 in the window, 3 go on
static void* _Atomic hold_obj;
static void delay(void) {
  if (!level) return;
  if (!rs) rs = (rseed += 0x9E3779B9u) | 1;
  rs ^= rs << 13; rs ^= rs >> 17; rs ^= rs << 5;
  uint32_t v = rs >> 8; int k = level;
  if (v % 4096 < (uint32_t)k) usleep(1 + (v >> 12) % 60); else if (v % 64 < (uint32_t)k) sched_yield();
}
static void w_assign(SPVM_ENV* e, SPVM_VALUE* s, void** r, void* o) { delay(); r_assign(e, s, r, o); }
static void w_inc(SPVM_ENV* e, SPVM_VALUE* s, void* o) { delay(); r_inc(e, s, o); }
static void w_dec(SPVM_ENV* e, SPVM_VALUE* s, void* o) { delay(); r_dec(e, s, o);
  int one = 1; if (o == hold_obj && o && atomic_compare_exchange_strong(&hold_on, &one, 2)) { for (int i = 0; i < 100000 && hold_on == 2; i++) usleep(50); } }
static void w_leave(SPVM_ENV* e, SPVM_VALUE* s, void** v, int32_t* a, int32_t* b, int32_t c) { delay(); r_leave(e, s, v, a, b, c); }
static int32_t w_call(SPVM_ENV* e, SPVM_VALUE* s, void* m, int32_t w) { delay(); int32_t r = r_call(e, s, m, w); delay(); return r; }
static int32_t w_weaken(SPVM_ENV* e, SPVM_VALUE* s, void** r) { delay(); return r_weaken(e, s, r); }
static void w_unweaken(SPVM_ENV* e, SPVM_VALUE* s, void** r) { delay(); r_unweaken(e, s, r); }
// the locks of the runtime (linked with --wrap)
#define WK __attribute__((weak))
WK void __real_SPVM_MUTEX_lock(void* m); WK void __real_SPVM_MUTEX_unlock(void* m); WK void __real_SPVM_MUTEX_reader_lock(void* m); WK void __real_SPVM_MUTEX_reader_unlock(void* m);
void __wrap_SPVM_MUTEX_lock(void* m) { delay(); __real_SPVM_MUTEX_lock(m); }
void __wrap_SPVM_MUTEX_unlock(void* m) { __real_SPVM_MUTEX_unlock(m); delay(); }
void __wrap_SPVM_MUTEX_reader_lock(void* m) { delay(); __real_SPVM_MUTEX_reader_lock(m); }
void __wrap_SPVM_MUTEX_reader_unlock(void* m) { __real_SPVM_MUTEX_reader_unlock(m); delay(); }
int32_t SPVM__Thr__perturb(SPVM_ENV* env, SPVM_VALUE* stack) {
  level = stack[0].ival; rseed = stack[1].ival;
  if (!r_assign) {
    r_assign = (void*)env->assign_object; env->assign_object = (void*)w_assign;
    r_inc = env->api->internal->inc_ref_count; env->api->internal->inc_ref_count = w_inc;
    r_dec = env->api->internal->dec_ref_count; env->api->internal->dec_ref_count = w_dec;
    r_leave = (void*)env->api->internal->leave_scope_local; env->api->internal->leave_scope_local = (void*)w_leave;
    r_call = (void*)env->call_method_no_mortal; env->call_method_no_mortal = (void*)w_call;
    r_weaken = (void*)env->weaken; env->weaken = (void*)w_weaken;
    r_unweaken = (void*)env->unweaken; env->unweaken = (void*)w_unweaken;
  }
  return 0;
}
int32_t SPVM__Thr__hold_return(SPVM_ENV* env, SPVM_VALUE* stack) { hold_obj = stack[0].oval; hold_on = 1; return 0; }
int32_t SPVM__Thr__wait_held(SPVM_ENV* env, SPVM_VALUE* stack) { int i; for (i = 0; i < 40000 && hold_on != 2; i++) usleep(50); stack[0].ival = hold_on == 2; return 0; }
int32_t SPVM__Thr__go_on(SPVM_ENV* env, SPVM_VALUE* stack) { hold_on = 3; hold_obj = NULL; return 0; }
