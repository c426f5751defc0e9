// C17: failures while a thread uses contexts for the first time, when its own bookkeeping is set up.
#include "common.hpp"
#include <system_error>
#include <new>
static int fn_live, runs, ontops, cb_live;
static Slot slot[2];
struct Fn { Track t; Fn() : t(&fn_live) {} H operator()(H c) { for (;;) { ++runs; c = std::move(c).resume(); } } };
struct Cb { Cb() { ++cb_live; } Cb(Cb const&) { ++cb_live; } ~Cb() { --cb_live; } H operator()(H c) const { ++ontops; return c; } };
static H make(int s) {
#if VP_STARTS_AT_ONCE
    return ctx::callcc(std::allocator_arg, SlotAlloc(&slot[s]), Fn());
#else
    return H(std::allocator_arg, SlotAlloc(&slot[s]), Fn());
#endif
}
static H h; static int how; static bool started;
template< class F > static bool fails(F f) {
    bool failed = false; int faults = vp_faults();
    vp_fault_arm(VPF_NEW | VPF_GETCONTEXT | VPF_WIN, 1);
    try { f(); }
    catch (std::bad_alloc const&) { failed = true; }
    catch (std::system_error const&) { failed = true; vp_cover("system-error"); }
    vp_fault_arm(0, 0);
    if (failed) { vp_assert(vp_faults() > faults, "it fails only for a reason"); vp_cover("failed"); }
    return failed;
}
static void first(void*) {
    runs = 0;
    if (how == 0) {             // the first context this thread makes
        if (fails([] { h = make(0); })) {
            vp_assert(!h && runs == 0 && fn_live == 0, "nothing was made"); slot_done(slot[0]);
            h = make(0);
        } else vp_cover("no-failure");
        vp_assert(static_cast<bool>(h), "a valid handle");
        started = VP_STARTS_AT_ONCE;
    }
    bool with = how == 2 || (how == 0 && vp_pick(2)); int r = runs;
    if (fails([with] { if (with) h = std::move(h).resume_with(Cb()); else h = std::move(h).resume(); })) {
        vp_cover("switch-failed");
        vp_assert(static_cast<bool>(h) && runs == r && ontops == 0 && cb_live == 0 && fn_live == 1, "no switch happened and the handle is still valid");
        if (vp_pick(2)) { h = std::move(h).resume(); vp_assert(runs == r + 1 && ontops == 0, "the context can still be resumed, without the on-top function"); }
        else { h = std::move(h).resume_with(Cb()); vp_assert(runs == r + 1 && ontops == 1, "the context can still be resumed, with another on-top function"); }
    } else vp_assert(runs == r + 1 && ontops == with, "the switch happened");
    vp_assert(static_cast<bool>(h) && cb_live == 0, "control comes back");
    h = H();
    vp_assert(fn_live == 0, "everything is destroyed");
}
extern "C" void vp_main(void) {
    how = vp_pick(3);
    bool other = how || vp_pick(2);
    if (how) { h = make(0);             // made, and perhaps started, on another thread
#if !VP_STARTS_AT_ONCE
        if (vp_pick(2)) h = std::move(h).resume();
#endif
    }
    if (other) {
        int t = vp_thread_new(); vp_thread_run(t, first, nullptr); vp_thread_exit(t);
    } else first(nullptr);
    slot_done(slot[0]);
    vp_cover("end");
}
