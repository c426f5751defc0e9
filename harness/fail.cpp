// C17: every environment failure while a context is created or a switch is prepared.
#include "common.hpp"
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/preallocated.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#include <system_error>
#include <new>
struct Boom {};
static int fn_live, al_live, runs;
static Slot slot;
static int pre_alloc, pre_dealloc;
static void* pre_base;
static int boomed;
static void may_boom() { if (vp_may_throw()) { ++boomed; throw Boom(); } }
// the user's allocator: may fail in its own way, and so may copying it; one that was moved from is empty
struct MyAlloc {
    Slot* s; Track t;
    explicit MyAlloc(Slot* x) : s(x), t(&al_live) {}
    MyAlloc(MyAlloc const& o) : s(o.s), t((may_boom(), o.t)) {}
    MyAlloc(MyAlloc&& o) noexcept : s(o.s), t(std::move(o.t)) { o.s = nullptr; }
    ctx::stack_context allocate() {
        vp_assert(s, "an allocator that was moved from is used");
        may_boom();
        return SlotAlloc(s).allocate();
    }
    void deallocate(ctx::stack_context& c) noexcept { vp_assert(s, "an allocator that was moved from is used"); SlotAlloc(s).deallocate(c); }
};
struct PreAlloc {
    Track t; PreAlloc() : t(&al_live) {}
    ctx::stack_context allocate() { vp_fail("allocate() for preallocated memory"); return ctx::stack_context(); }
    void deallocate(ctx::stack_context& c) noexcept { ++pre_dealloc; vp_assert((char*)c.sp - c.size == pre_base, "descriptor unchanged"); vp_region_free(pre_base); }
};
struct Fn { Track t; Fn() : t(&fn_live) {} Fn(Fn const& o) : t((may_boom(), o.t)) {} Fn(Fn&& o) noexcept : t(std::move(o.t)) {} H operator()(H c) { ++runs; c = std::move(c).resume(); ++runs; return c; } };
// an on-top callable whose copies may fail
static int cb_live, cb_runs;
struct Callable {
    Callable() { ++cb_live; }
    Callable(Callable const&) { may_boom(); ++cb_live; }
    Callable(Callable&&) noexcept { ++cb_live; }
    ~Callable() { --cb_live; }
    H operator()(H c) const { ++cb_runs; return c; }
};
// like H's constructors, for both kinds of handle; the function is moved or copied into the context
static bool copy_fn;
#if VP_STARTS_AT_ONCE
# define NEW(...) (copy_fn ? ctx::callcc(__VA_ARGS__ fn) : ctx::callcc(__VA_ARGS__ std::move(fn)))
#else
# define NEW(...) (copy_fn ? H(__VA_ARGS__ fn) : H(__VA_ARGS__ std::move(fn)))
#endif
template< class A > static H make(A&& a) { Fn fn; return NEW(std::allocator_arg, std::forward<A>(a),); }
static H make_default() { Fn fn; return NEW(); }
static H make_pre() {
    ctx::stack_context sc; size_t n = 65536; pre_base = vp_region_concrete(n); sc.size = n; sc.sp = (char*)pre_base + n; ++pre_alloc;
    Fn fn; return NEW(std::allocator_arg, ctx::preallocated((char*)sc.sp - 64, n - 64, sc), PreAlloc(),);
}
static void use(H h) {   // the context works from start to end
    runs = 0;
#if !VP_STARTS_AT_ONCE
    h = std::move(h).resume();
#else
    runs = 1;
#endif
    vp_assert(static_cast<bool>(h) && runs == 1, "it runs");
    h = std::move(h).resume();
    vp_assert(!h && runs == 2, "it finishes");
}
static void clean(int heap0) {
    vp_assert(fn_live == 0, "the function object is destroyed exactly once");
    vp_assert(al_live == 0, "the allocator copies are destroyed exactly once");
    vp_assert(slot.allocated == slot.deallocated, "the stack is released exactly once");
    vp_assert(pre_alloc == pre_dealloc, "preallocated memory is given back exactly once");
#if BOOST_CONTEXT_SHADOW_STACK
    vp_assert(vp_shadow_live() == 0, "every shadow stack is unmapped");
#endif
    vp_assert((int)vp_heap_live() == heap0, "nothing is left behind");
}
#if BOOST_CONTEXT_SHADOW_STACK
# define ALWAYS_BAD_ALLOC 1     // the shadow stack may be missing
#else
# define ALWAYS_BAD_ALLOC 0
#endif
extern "C" void vp_main(void) {
    san_on();
    use(make(MyAlloc(&slot)));      // the thread's own bookkeeping exists from here on
    int heap0 = (int)vp_heap_live();
    int mask = vp_param("mask"), budget = vp_param("budget");
    int which = vp_pick(vp_param("op") ? 2 : 1);
    if (which == 0) {
        int how = vp_pick(6);
        copy_fn = vp_pick(2); boomed = 0;
        bool failed = false, known = false;
        ctx::pooled_fixedsize_stack* pool = how == 4 ? new ctx::pooled_fixedsize_stack(4096 * 4, 2) : nullptr;
        runs = 0;
        {
            H h;
            vp_fault_arm(mask, budget);
            int faults = vp_faults();
            try {
                switch (how) {
                case 0: h = make(MyAlloc(&slot)); break;
                case 1: h = make_default(); break;
                case 2: h = make(ctx::protected_fixedsize_stack(4096 * 4)); break;
                case 3: h = make_pre(); break;
                case 4: h = make(*pool); break;
                case 5: { MyAlloc a(&slot); h = make(a); } break;
                }
            }
            catch (Boom const&) { failed = true; known = boomed == 1; vp_cover(how == 0 || how == 5 ? "user-error" : "copy-failed"); }
            catch (std::bad_alloc const&) { failed = true; known = (how != 0 && how != 3 && how != 5) || ALWAYS_BAD_ALLOC; }
            catch (std::system_error const&) { failed = true; known = true; vp_cover("system-error"); }
            vp_fault_arm(0, 0);
            copy_fn = false;
            if (failed) {
                vp_cover("failed");
                vp_assert(vp_faults() > faults, "creation fails only for a reason");
                vp_assert(known, "the error reported is the one that happened");
                vp_assert(!h, "no handle after a failure");
                vp_assert(runs == 0, "the function was not run");
                delete pool; pool = nullptr;
                clean(heap0);
                use(make(MyAlloc(&slot)));
            } else {
                vp_cover("no-failure"); vp_assert(!boomed, "an error is reported");
                vp_assert(static_cast<bool>(h), "a valid handle");
                use(std::move(h));
            }
        }
        delete pool;
    } else {
        // a failure while an on-top function is prepared
        H h = make(MyAlloc(&slot));
#if !VP_STARTS_AT_ONCE
        h = std::move(h).resume();
#endif
        runs = 1;
        bool failed = false;
        int form = vp_pick(2);
        H n;
        {
            Callable cb;
            vp_fault_arm(mask & (VPF_USER | VPF_NEW | VPF_MALLOC), budget);
            try { if (form) n = std::move(h).resume_with(cb); else n = std::move(h).resume_with(std::move(cb)); }
            catch (Boom const&) { failed = true; }
            catch (std::bad_alloc const&) { failed = true; }
            vp_fault_arm(0, 0);
        }
        if (failed) {
            // preparing failed: control never left, the handle is still good
            vp_assert(runs == 1 && cb_runs == 0, "no switch happened");
            vp_assert(static_cast<bool>(h), "the handle is still valid");
            vp_cover("prepare-failed");
            vp_assert(cb_live == 0, "callables are destroyed exactly once");
            n = std::move(h).resume();
            vp_assert(!n && runs == 2, "the context still runs to its end");
        } else {
            vp_assert(!n && runs == 2 && cb_runs == 1, "the on-top function ran once and the context finished");
        }
        vp_assert(cb_live == 0, "callables are destroyed exactly once");
    }
    clean(heap0);
    vp_cover("end");
}
