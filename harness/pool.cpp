// C22: pooled stacks: any history of taking, returning, copying and dropping allocators, any stack size and growth limits, allocation failures.
#include "vp.h"
#include <new>
#include <utility>
#include <boost/context/pooled_fixedsize_stack.hpp>
namespace ctx = boost::context;
typedef ctx::pooled_fixedsize_stack A;
struct One { ctx::stack_context c; bool live; uint64_t w0, w1; };
extern "C" void vp_main(void) {
    const int steps = vp_param("steps"), N = vp_param("n");
    size_t live0 = vp_heap_live();
    size_t sz;
    if (vp_param("minsize") == vp_param("maxsize")) sz = vp_param("minsize");
    else { sz = vp_sym("size", 64); vp_assume(sz >= (size_t)vp_param("minsize") && sz <= (size_t)vp_param("maxsize")); }
    size_t next = 1 + vp_pick(vp_param("maxnext"));
    size_t mx = vp_pick(vp_param("maxmax") + 1);
    alignas(A) char mem[3][sizeof(A)]; bool have[3] = {true, false, false};
    A* al[3] = {(A*)mem[0], (A*)mem[1], (A*)mem[2]};
    new (mem[0]) A(sz, next, mx);
    One o[4]; for (int i = 0; i < 4; ++i) o[i].live = false;
    vp_fault_arm(VPF_MALLOC | VPF_MMAP, 1);
    int copies = 1, out = 0;
    for (int s = 0; s < steps && copies; ++s) {
        int can[4], nc = 0;
        if (out < N) can[nc++] = 0;
        if (out) can[nc++] = 1;
        if (copies < (int)vp_param("copies")) can[nc++] = 2;
        if (copies > 1 || !out) can[nc++] = 3;          // the last allocator goes only when no stack is out
        int what = can[vp_pick(nc)];
        int k = 0; while (!have[k]) ++k;                // allocators are taken in turn
        if (what != 3 && (s & 1)) for (int j = 0; j < 3; ++j) if (have[j]) k = j;
        if (what == 3) for (int j = k + 1; j < 3; ++j) if (have[j] && vp_pick(2)) { k = j; break; }
        if (what == 0) {                             // take a stack
            int i = 0, faults = vp_faults(); while (o[i].live) ++i;
            try { o[i].c = al[k]->allocate(); o[i].live = true; } catch (std::bad_alloc const&) { vp_cover("bad_alloc"); }
            if (!o[i].live) vp_assert(vp_faults() > faults, "an allocation fails only if the system refuses");
            if (o[i].live) {
                ++out;
                vp_assert(o[i].c.size == sz, "a pooled stack has the configured size");
                char* lo = (char*)o[i].c.sp - sz;
                for (int j = 0; j < N; ++j) if (j != i && o[j].live) {
                    char* l2 = (char*)o[j].c.sp - sz;
                    vp_assert((char*)o[i].c.sp <= l2 || (char*)o[j].c.sp <= lo, "stacks in use never overlap");
                }
#if defined(BOOST_USE_VALGRIND)
                vp_assert(vp_vg_live() == out, "each stack is registered once");
                char* a = (char*)vp_vg_lo(); char* b = (char*)vp_vg_hi();
                vp_assert((a == lo && b == (char*)o[i].c.sp) || (b == lo && a == (char*)o[i].c.sp), "registered with the exact bounds of the stack");
#endif
                o[i].w0 = vp_sym("w0", 64); o[i].w1 = vp_sym("w1", 64);      // the whole stack can be used
                ((volatile uint64_t*)lo)[0] = o[i].w0; ((volatile uint64_t*)o[i].c.sp)[-1] = o[i].w1;
                vp_cover("taken");
            }
        } else if (what == 1) {                      // return one, through any allocator
            int i = -1; for (int j = 0; j < N; ++j) if (o[j].live && (i < 0 || vp_pick(2))) i = j;
            al[k]->deallocate(o[i].c); o[i].live = false; --out; vp_cover("returned");
#if defined(BOOST_USE_VALGRIND)
            vp_assert(vp_vg_live() == out, "each stack is deregistered once when it is returned");
#endif
        } else if (what == 2) {                      // copy, or move-construct from a copy
            int j = 0; while (have[j]) ++j;
            if (s & 1) new (mem[j]) A(*al[k]); else { A t(*al[k]); new (mem[j]) A(std::move(t)); }
            have[j] = true; ++copies; vp_cover("copied");
        } else {                                     // drop an allocator
            al[k]->~A(); have[k] = false; --copies; vp_cover("dropped");
        }
        for (int i = 0; i < N; ++i) if (o[i].live) {
            char* lo = (char*)o[i].c.sp - sz;
            vp_assert(((volatile uint64_t*)lo)[0] == o[i].w0 && ((volatile uint64_t*)o[i].c.sp)[-1] == o[i].w1, "a stack in use is not touched by the pool");
        }
        vp_assert(copies == 0 || vp_heap_live() > live0, "the pool lives as long as an allocator");
    }
    if (copies) {
        int k = 0; while (!have[k]) ++k;
        for (int i = 0; i < N; ++i) if (o[i].live) al[k]->deallocate(o[i].c);
        for (int j = 0; j < 3; ++j) if (have[j]) al[j]->~A();
    }
    vp_assert(vp_heap_live() == live0, "all memory of the pool is released, once");
    vp_cover("end");
}
