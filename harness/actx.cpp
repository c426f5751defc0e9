// C20-C23, C28: the library's own allocators driven by contexts: any history of creating, resuming, finishing and destroying contexts,
// the user's allocator object going away at any point.
#include "common.hpp"
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/preallocated.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#if defined(BOOST_USE_SEGMENTED_STACKS)
# include <boost/context/segmented_stack.hpp>
#endif
typedef ctx::AL A;
struct S { H h; bool made, fin, started; uint64_t a, b; int live; };
static S* w;
static int up;                                       // contexts that own a stack
struct Fn {
    int i; Track t;
    Fn(int k) : i(k), t(&w[k].live) {}
    Fn(Fn const& o) : i(o.i), t(o.t) {}
    Fn(Fn&& o) noexcept : i(o.i), t(std::move(o.t)) {}
    H operator()(H c) {
        volatile uint64_t keep = w[i].a;             // lives on the context's own stack
        w[i].started = true;
        do { c = std::move(c).resume(); vp_assert(keep == w[i].a, "the context's stack is its own"); } while (!w[i].fin);
        return c;
    }
};
static void counts() {
#if defined(BOOST_USE_VALGRIND)
    vp_assert(vp_vg_live() == up, "every live stack, and only those, is registered with valgrind");
#endif
#if defined(VP_MAPPED)
    vp_assert(vp_map_count() == up, "every live context, and only those, has a mapping");
#endif
#if defined(BOOST_USE_SEGMENTED_STACKS)
    vp_assert(vp_split_live() == up, "every live context, and only those, has a segment context");
#endif
}
extern "C" void vp_main(void) {
    const int n = vp_param("n"), steps = vp_param("steps");
#if defined(BOOST_USE_SEGMENTED_STACKS)
    vp_split_on();
#endif
    {
        S ss[3]; w = ss; up = 0;
        for (int i = 0; i < n; ++i) { ss[i].made = ss[i].fin = ss[i].started = false; ss[i].live = 0; ss[i].a = vp_sym("a", 64); }
        alignas(A) char mem[sizeof(A)]; A* al = (A*)mem; bool have = true; new (mem) A(vp_param("size"));
        vp_fault_arm(vp_param("faults"), vp_param("budget"));
        for (int s = 0; s < steps; ++s) {
            int i = n > 1 ? vp_pick(n) : 0; S& x = ss[i];
            int can[4], nc = 0;
            if (!x.made && have) can[nc++] = 0;
            if (x.made) { can[nc++] = 1; can[nc++] = 2; }
            if (have && i == 0) can[nc++] = 3;
            if (!nc) { vp_cover("idle"); break; }
            switch (can[vp_pick(nc)]) {
            case 0: {
                int faults = vp_faults();
                try {
                    if (vp_param("pre")) {           // placed by the user in a stack of the library's allocator
                        ctx::stack_context sc = al->allocate(); size_t gap = vp_pick(2) ? 512 : 0;
                        ctx::preallocated p((char*)sc.sp - gap, sc.size - gap, sc);
#if VP_STARTS_AT_ONCE
                        x.h = ctx::callcc(std::allocator_arg, p, A(*al), Fn(i));
#else
                        x.h = H(std::allocator_arg, p, A(*al), Fn(i));
#endif
                    } else
#if VP_STARTS_AT_ONCE
                    x.h = vp_param("byref") ? ctx::callcc(std::allocator_arg, *al, Fn(i)) : ctx::callcc(std::allocator_arg, A(*al), Fn(i));
#else
                    x.h = vp_param("byref") ? H(std::allocator_arg, *al, Fn(i)) : H(std::allocator_arg, A(*al), Fn(i));
#endif
                    x.made = true; x.fin = false; ++up; vp_cover("made");
                } catch (std::exception const&) { vp_assert(vp_faults() > faults, "creation fails only if the system refuses"); vp_cover("failed"); }
                if (!x.made) counts();
                } break;
            case 1:
                x.fin = vp_pick(2); 
                x.h = std::move(x.h).resume();
                if (VP_STARTS_AT_ONCE ? x.fin : !x.h) { vp_assert(!x.h, "finished"); x.h = H(); x.made = false; --up; vp_cover("finished"); }
                break;
            case 2: x.h = H(); x.made = false; --up; vp_cover("destroyed"); break;
            default: al->~A(); have = false; vp_cover("allocator-gone"); break;
            }
            counts();
            if (!x.made) vp_assert(x.live == 0, "the function object is destroyed once");
        }
        if (have) al->~A();
    }
    vp_cover("end");
}
