// Harness API. Under the symbolic executor these are built-ins; natively (rt/native.cpp) they read the
// solver's assignment back (replay), draw random values (self-test of a harness) or zeros.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint64_t sv_sym_u(const char* name, uint64_t lo, uint64_t hi);
int64_t sv_sym_i(const char* name, int64_t lo, int64_t hi);
void sv_assume(int c);
void sv_assert_(int c, const char* msg);
void sv_reach(const char* label);
uint64_t sv_concretize(uint64_t v);
uint64_t sv_choose(const char* name, uint64_t n);
void sv_merge_open();
void sv_merge_close();
void sv_automerge(int on);
void sv_known(const char* id, int cond);
uint64_t sv_ite(int c, uint64_t a, uint64_t b);
uint64_t sv_heap_live();
int sv_is_sym(uint64_t v);
void sv_print(const char* name, uint64_t v);
uint64_t sv_param(const char* name, uint64_t dflt);
// cooperative threads of control: a harness schedules them itself
uint64_t sv_thread_start(void (*fn)(void*), void* arg);
void sv_thread_switch(uint64_t t);
uint64_t sv_thread_self();
}
#define SV_STR2(x) #x
#define SV_STR(x) SV_STR2(x)
#define CHECK(c, msg) sv_assert_(!!(c), msg)
#define ENTRY extern "C" __attribute__((noinline, used)) void
#define KIND(c) sv_known
