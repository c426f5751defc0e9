// C20, C21: fixed-size and protected stack allocators, any requested size, any page size, any failure of the system calls.
#include "vp.h"
#include <new>
#include <utility>
#include <sys/mman.h>
#if defined(VP_PROT)
# if defined(VP_WIN)
#  include <boost/context/windows/protected_fixedsize_stack.hpp>
# else
#  include <boost/context/posix/protected_fixedsize_stack.hpp>
# endif
namespace ctx = boost::context;
typedef ctx::protected_fixedsize_stack A;
#else
# include <boost/context/fixedsize_stack.hpp>
namespace ctx = boost::context;
typedef ctx::fixedsize_stack A;
#endif
#if defined(VP_PROT) || defined(BOOST_CONTEXT_USE_MAP_STACK)
# define MAPPED 1
#endif
static uint64_t page;
struct One { ctx::stack_context c; size_t want; char* lo; bool live; uint64_t w0, w1; };
static void check_block(One& o, size_t before) {
    char* top = (char*)o.c.sp;
#if defined(VP_PROT)
    vp_assert((size_t)vp_map_count() == before + 1, "one mapping per stack");
    o.lo = (char*)vp_map_base();
    size_t len = vp_map_len();
    vp_assert(o.c.size == len, "the descriptor covers the whole mapping");
    vp_assert(top == o.lo + len, "the top of the stack is the end of the mapping");
    vp_assert((len & (page - 1)) == 0, "the mapping is a whole number of pages");
    vp_assert(vp_map_guards() == 1, "one guard page");
    vp_assert((char*)vp_guard_lo() == o.lo, "the guard page is the lowest page");
    vp_assert(vp_guard_len() == page, "the guard is exactly one page");
# if defined(VP_WIN)
    vp_assert(vp_guard_prot() & (0x100 | 0x01), "the guard page is inaccessible");
    vp_assert(vp_map_prot() == 0x04, "the rest is readable and writable");
# else
    vp_assert(vp_guard_prot() == PROT_NONE, "the guard page is inaccessible");
    vp_assert(vp_map_prot() == (PROT_READ | PROT_WRITE), "the rest is readable and writable");
# endif
    vp_assert(len >= page && len - page >= o.want, "the requested size is usable above the guard page");
    vp_assert(len - page < o.want + page, "and no more than that, rounded up to pages");
#elif defined(MAPPED)
    vp_assert((size_t)vp_map_count() == before + 1, "one mapping per stack");
    o.lo = (char*)vp_map_base();
    vp_assert(o.c.size == o.want && vp_map_len() == o.want && top == o.lo + o.want, "one block of exactly the requested size");
    vp_assert(vp_map_prot() == (PROT_READ | PROT_WRITE) && vp_map_guards() == 0, "readable and writable");
#else
    o.lo = top - o.want;
    vp_assert(o.c.size == o.want, "the descriptor has the requested size");
    vp_assert(vp_heap_live() == before + 1, "one block per stack");
    vp_assert(vp_is_live(o.lo), "the stack is one block of memory");
    vp_assert(vp_block_size(o.lo) == o.want, "the block has exactly the requested size");
#endif
}
static int vgs;                         // stacks that must be known to valgrind
static void vg_taken(One& o) {
#if defined(BOOST_USE_VALGRIND)
    vp_assert(vp_vg_live() == ++vgs, "each stack is registered once");
    char* a = (char*)vp_vg_lo(); char* b = (char*)vp_vg_hi();
    vp_assert((a == o.lo && b == (char*)o.c.sp) || (b == o.lo && a == (char*)o.c.sp), "registered with the exact bounds of the stack");
#endif
}
static size_t count() {
#if defined(MAPPED)
    return vp_map_count();
#else
    return vp_heap_live();
#endif
}
// writing a word at both ends of the usable part: it must be there, and stays until the stack is given back
static void fill(One& o) {
    char* bottom = o.lo;
#if defined(VP_PROT)
    bottom += page;
#endif
    if ((size_t)((char*)o.c.sp - bottom) < 16) return;
    o.w0 = vp_sym("w0", 64); o.w1 = vp_sym("w1", 64);
    *(volatile uint64_t*)bottom = o.w0; ((volatile uint64_t*)o.c.sp)[-1] = o.w1;
    vp_cover("usable");
}
static void still(One& o) {
    char* bottom = o.lo;
#if defined(VP_PROT)
    bottom += page;
#endif
    if ((size_t)((char*)o.c.sp - bottom) < 16) return;
    vp_assert(*(volatile uint64_t*)bottom == o.w0 && ((volatile uint64_t*)o.c.sp)[-1] == o.w1, "stacks do not share memory");
}
static void give_back(One& o, A const& al) {
    size_t n = count();
    A a(al);                            // any copy of the allocator can release it
    a.deallocate(o.c);
    vp_assert(count() + 1 == n, "exactly the one block is released");
#if !defined(MAPPED)
    vp_assert(!vp_is_live(o.lo), "the block is released");
#endif
#if defined(BOOST_USE_VALGRIND)
    vp_assert(vp_vg_live() == --vgs, "each stack is deregistered when it is released");
#endif
    o.live = false;
}
extern "C" void vp_main(void) {
    vp_sym_heap(1);
    page = uint64_t(4096) << vp_pick(vp_param("pages"));      // 4 KiB .. 64 KiB (2 MiB)
    vp_set_pagesize(page);
#if defined(VP_PROT) || defined(VP_WIN)
    vp_assert(ctx::stack_traits::page_size() == page, "page size");
#endif
    vp_assert(count() == 0, "nothing yet");
    const int N = vp_param("n");
    One o[4]; for (int i = 0; i < 4; ++i) o[i].live = false;
    size_t sz = 0;
    bool deflt = vp_pick(2);
    if (deflt) sz = ctx::stack_traits::default_size(); else { sz = vp_sym("size", 64); if (vp_param("maxsize")) vp_assume(sz <= (size_t)vp_param("maxsize")); }
    A al = deflt ? A() : A(sz);
    vp_fault_arm(VPF_MALLOC | VPF_MMAP | VPF_MPROTECT | VPF_WIN, 1);
    for (int i = 0; i < N; ++i) {
        size_t before = count();
        o[i].want = sz; int faults = vp_faults();
        try {
            o[i].c = al.allocate(); o[i].live = true;
        } catch (std::bad_alloc const&) {
            vp_cover("bad_alloc");
        }
        if (!o[i].live) vp_assert(vp_faults() > faults || sz > (size_t(1) << 28) || sz == 0, "an allocation fails only if the system refuses");
        if (!o[i].live) vp_assert(count() == before, "a failing allocation leaves nothing behind");
        if (o[i].live) { check_block(o[i], before); vg_taken(o[i]); fill(o[i]); vp_cover("allocated"); }
    }
    int first = vp_pick(2);
    for (int k = 0; k < N; ++k) {
        int i = first ? N - 1 - k : k;
        if (!o[i].live) continue;
        still(o[i]);
        give_back(o[i], al);
    }
    vp_assert(count() == 0, "everything is released");
    vp_cover("end");
}
