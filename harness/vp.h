// Interface between the harnesses and (a) the symbolic executor irx, where every vp_* is an intrinsic, and
// (b) harness/vp_native.cpp, which gives the same functions a concrete meaning for replaying a model natively.
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t vp_sym(const char* name, int bits);      // any value of that width
int vp_choose(int n);                              // any value in [0,n), kept symbolic
int vp_pick(int n);                                // any value in [0,n), decided now (path fork)
int vp_param(const char* name);                    // bound given by the check, concrete
void vp_assume(bool c);
void vp_assert(bool c, const char* msg);
void vp_fail(const char* msg);
void vp_log(const char* what, uint64_t v);         // observable event
void vp_cover(const char* what);                   // reachability witness
void vp_stop(void);                                // end this path, no final checks
void vp_fault_arm(int mask, int budget);           // environment failures allowed from now on
int vp_faults(void);                               // failures that happened so far
int vp_may_throw(void);                            // user code may fail here (fault bit 128)
void vp_expect_terminate(int on);
void vp_allow_exit0(void);
void vp_sym_heap(size_t threshold);                // heap blocks of at least this size get a symbolic address
size_t vp_heap_live(void);
void vp_leak_ok(void);
void* vp_region(size_t mn, size_t mx, size_t align, size_t* size);   // stack memory: any size, any address
void* vp_region_concrete(size_t size);
void vp_region_free(void* base);
int vp_on_stack(const void* lo, const void* hi);   // is the caller executing on a machine stack inside [lo,hi)
int vp_on_root(void);
void* vp_stack_lo(void);                            // bounds of the machine stack created last
void* vp_stack_hi(void);
size_t vp_alloc_last_size(void);
size_t vp_alloc_count(void);
int vp_is_live(const void* p);
size_t vp_block_size(const void* p);
uint64_t vp_pages(uint64_t lo, uint64_t hi);
void vp_set_pagesize(uint64_t n);
void vp_set_minsig(uint64_t n);
void vp_set_rlimit(uint64_t cur, uint64_t max);
int vp_thread_new(void);
void vp_thread_run(int t, void (*f)(void*), void* a);
void vp_par(int t1, void (*f1)(void*), void* a1, int t2, void (*f2)(void*), void* a2, int switches);   // both at once, with up to that many changes before atomic operations
void vp_thread_exit(int t);
int vp_tid(void);
int vp_map_count(void);
void* vp_map_base(void);
size_t vp_map_len(void);
int vp_map_prot(void);
int vp_map_guards(void);
void* vp_guard_lo(void);
size_t vp_guard_len(void);
int vp_guard_prot(void);
void vp_asan_on(void); int vp_asan_fake_live(void); int vp_asan_switches(void);
void vp_shadow_on(void); int vp_shadow_live(void);
void vp_tsan_on(void); int vp_tsan_live(void);
void vp_split_on(void); int vp_split_live(void); int vp_split_blocked(void* segs); void* vp_split_base(void* segs); size_t vp_split_size(void* segs);
int vp_vg_live(void); void* vp_vg_lo(void); void* vp_vg_hi(void);
int vp_wf_live(void); size_t vp_wf_last_size(void); int vp_wf_thread_is_fiber(void); int vp_wf_is_fiber(int tid);
int vp_out_count(void); int vp_out_is_text(const char*); int vp_out_is_ptr(void); uint64_t vp_out_value(void);
int vp_caught_depth(void);
void vp_main(void);
#ifdef __cplusplus
}
#endif
enum { VPF_MALLOC = 1, VPF_NEW = 2, VPF_MMAP = 4, VPF_MPROTECT = 8, VPF_GETCONTEXT = 16, VPF_SPLIT = 32, VPF_WIN = 64, VPF_USER = 128 };
#if defined(__cplusplus) && !defined(VP_NATIVE_RUN)
// the part of libstdc++ behind std::call_once
namespace std { __thread void* __once_callable; __thread void (*__once_call)(); }
extern "C" inline __attribute__((used)) void __once_proxy(void) { std::__once_call(); }
#endif
#endif
