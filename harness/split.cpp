// C23: the segmented allocator, any size, any failure of the runtime.
#include "vp.h"
#include <new>
#include <boost/context/segmented_stack.hpp>
namespace ctx = boost::context;
struct One { ctx::stack_context c; bool live; uint64_t w0, w1; char* lo; };
extern "C" void vp_main(void) {
    const int N = vp_param("n");
    bool deflt = vp_pick(2);
    size_t sz = deflt ? ctx::stack_traits::default_size() : vp_sym("size", 64);
    ctx::segmented_stack al = deflt ? ctx::segmented_stack() : ctx::segmented_stack(sz);
    vp_fault_arm(VPF_SPLIT, 1);
    One o[4]; for (int i = 0; i < 4; ++i) o[i].live = false;
    int up = 0;
    for (int i = 0; i < N; ++i) {
        int faults = vp_faults();
        try { o[i].c = al.allocate(); o[i].live = true; ++up; vp_cover("allocated"); }
        catch (std::bad_alloc const&) { vp_cover("bad_alloc"); }
        vp_assert(o[i].live || vp_faults() > faults || sz > (size_t(1) << 28), "an allocation fails only if the system refuses");
        vp_assert(vp_split_live() == up, "one segment context per stack, none after a failure");
        if (!o[i].live) continue;
        ctx::stack_context& c = o[i].c;
        o[i].lo = (char*)vp_split_base(c.segments_ctx);
        vp_assert((char*)c.sp == o[i].lo + vp_split_size(c.segments_ctx), "the top of the stack is the end of the segment the runtime made");
        vp_assert(c.size == vp_split_size(c.segments_ctx), "the size is the one the runtime reports");
        vp_assert(c.size >= sz, "the requested size is available");
        vp_assert(vp_split_blocked(c.segments_ctx), "the runtime is told how to treat signals for the new segments");
        if (c.size >= 16) { o[i].w0 = vp_sym("w0", 64); o[i].w1 = vp_sym("w1", 64); *(volatile uint64_t*)o[i].lo = o[i].w0; ((volatile uint64_t*)c.sp)[-1] = o[i].w1; vp_cover("usable"); }
    }
    int first = vp_pick(2);
    for (int k = 0; k < N; ++k) {
        int i = first ? N - 1 - k : k;
        if (!o[i].live) continue;
        if (o[i].c.size >= 16) vp_assert(*(volatile uint64_t*)o[i].lo == o[i].w0 && ((volatile uint64_t*)o[i].c.sp)[-1] == o[i].w1, "stacks do not share memory");
        ctx::segmented_stack a(al); a.deallocate(o[i].c);
        vp_assert(vp_split_live() == --up, "released exactly once");
    }
    vp_cover("end");
}
