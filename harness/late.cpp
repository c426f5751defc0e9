// C10/C19/C29: handles that live in objects with static or thread storage duration: what they hold is resumed, resumed on-top and destroyed
// while the thread ends, before and after the library has given up its own book-keeping for the thread.
#include "common.hpp"
#include <cstdlib>
static int fns, objs, ran, tops, closed; static Slot slot, in; static int thr;
enum State { FRESH, SUSPENDED, HOLDS, STATES };       // HOLDS: suspended and keeping another suspended context on its stack
enum Op { DESTROY, RESUME, WITH, MAKE, TWICE, OPS };
struct Obj { Obj() { ++objs; } ~Obj() { vp_assert(vp_tid() == thr, "unwound on the thread that destroys it"); --objs; } };
static bool again, exiting;
struct Inner {
    H operator()(H c) { Obj o; c = std::move(c).resume(); ++ran; return c; }
};
template< typename F > static H make(Slot* s, F f) {
#if VP_STARTS_AT_ONCE
    return ctx::callcc(std::allocator_arg, SlotAlloc(s), std::move(f));
#else
    return H(std::allocator_arg, SlotAlloc(s), std::move(f));
#endif
}
struct Fn {
    bool holds; Track t;
    explicit Fn(bool b) : holds(b), t(&fns) {}
    H operator()(H c) {
        Obj o; volatile uint64_t keep = 0x5a5a77;
        if (holds) {
            H k = make(&in, Inner());
            if (!VP_STARTS_AT_ONCE) k = std::move(k).resume();
            c = std::move(c).resume();
            vp_assert(static_cast<bool>(k), "the inner context waits");
            k = std::move(k).resume(); vp_assert(!k, "the inner context is finished");
        } else c = std::move(c).resume();
        for (;;) {
            vp_assert(keep == 0x5a5a77 && vp_tid() == thr, "stack and thread of the context"); ++ran;
            if (!again) break;
            c = std::move(c).resume();
        }
        return c;
    }
};
struct Late {
    H h; int op, state; bool used;
    Late() : op(0), state(0), used(false) { }
    void use(int o, int s) {
        op = o; state = s; used = true; again = false;
        if (op == MAKE) return;
        start();
    }
    void start() {
        h = make(&slot, Fn(state == HOLDS));
        if (!VP_STARTS_AT_ONCE && state != FRESH) h = std::move(h).resume();
        vp_assert(static_cast<bool>(h), "made");
    }
    ~Late() {
        if (!used) return;
        vp_assert(exiting || vp_on_root(), "on the thread's own stack");
        if (op == MAKE) { start(); vp_cover("made"); }
        bool begun = VP_STARTS_AT_ONCE || state != FRESH;
        if (op == RESUME || op == TWICE) {
            again = begun && op == TWICE;
            h = std::move(h).resume();
            vp_assert(static_cast<bool>(h) == (!begun || again), "resume() came back");
            vp_assert(ran >= (begun ? 1 : 0), "the context ran");
            if (op == TWICE && h) { again = false; h = std::move(h).resume(); vp_assert(!h, "finished"); }
            vp_cover(op == TWICE ? "twice" : "resumed");
        }
        if (op == WITH) {
            h = std::move(h).resume_with([](H x) -> H { ++tops; vp_assert(static_cast<bool>(x) && vp_tid() == thr, "the resumer's handle"); return x; });
            vp_assert(tops == 1, "the on-top function ran once");
            vp_assert(static_cast<bool>(h) == !begun, "resume_with() came back");
            vp_cover("on-top");
        }
        h = H();
        vp_assert(objs == 0, "everything on the stack is destroyed");
        vp_assert(fns == 0, "the context-function is destroyed");
        vp_assert(slot.allocated == 1, "one stack"); slot_done(slot);
        slot_done(in);
        ++closed; vp_cover("closed");
    }
};
static thread_local Late early;      // constructed first: destroyed after the library's book-keeping
static thread_local Late last;       // constructed after it: destroyed before
enum Where { TLS_FIRST, TLS_LAST, STATIC_FIRST, STATIC_LAST, WHERES };
static int o_, s_, where_;
static Late& early_static() { static Late l; return l; }
static Slot own; static void use_library() { H h = make(&own, Inner()); if (!VP_STARTS_AT_ONCE) h = std::move(h).resume(); }
static void work(void*) {
    thr = vp_tid();
    switch (where_) {
    case TLS_FIRST: early.use(o_, s_); break;
    case TLS_LAST: use_library(); last.use(o_, s_); break;
    case STATIC_FIRST: early_static().use(o_, s_); break;
    default: use_library(); early_static().use(o_, s_); break;
    }
}
static void before(void*) { int k = thr; thr = vp_tid(); use_library(); slot_done(own); thr = k; }
struct Fin { bool on; ~Fin() { if (on) { vp_assert(closed == 1, "the object is destroyed once"); vp_cover("end"); } } };
static Slot ex1, ex2;
struct Exits {     // ends the process from inside a context, or from a context resumed by a context
    int depth;
    H operator()(H c) {
        if (depth) { H k = make(&ex2, Exits{depth - 1}); if (!VP_STARTS_AT_ONCE) k = std::move(k).resume(); }
        exiting = true; vp_leak_ok();
        std::exit(0);
        return c;
    }
};
extern "C" void vp_main(void) {
    static Fin fin{false};
    san_on();
    o_ = vp_pick(OPS); s_ = vp_pick(STATES); where_ = vp_pick(WHERES);
    fin.on = true;
    // another thread uses contexts before: it ends before or after this one starts to, or (a second one besides main: main itself) lives on
    int other = vp_param("others") ? vp_pick(3) : 0, ot = 0;
    if (other) { ot = vp_thread_new(); vp_thread_run(ot, before, nullptr); if (other == 1) vp_thread_exit(ot); vp_cover("others"); }
    if (where_ >= STATIC_FIRST) vp_leak_ok();      // what the library keeps for the main thread may outlive it; contexts, stacks and objects are counted in ~Late
    if (where_ < STATIC_FIRST && vp_pick(2)) {
        int t = vp_thread_new();
        vp_thread_run(t, work, nullptr);
        if (other == 2) { before(nullptr); vp_thread_exit(ot); }
        vp_thread_exit(t);
        vp_assert(closed == 1, "the object with thread storage duration is destroyed");
        vp_cover("thread");
    } else {
        work(nullptr); vp_cover("main");
        if (other == 2) vp_thread_exit(ot);
        int x = vp_pick(3);
        if (x) {
            vp_cover("exit");
            H h = make(&ex1, Exits{x - 1});
            if (!VP_STARTS_AT_ONCE) h = std::move(h).resume();
            vp_fail("exit() came back");
        }
    }
}
