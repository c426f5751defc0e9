// C29: what the Windows-fiber implementation leaves of the threads that use contexts: a thread that was a fiber stays one, any other ends as an ordinary thread.
#include "common.hpp"
extern "C" { void* ConvertThreadToFiber(void*); int ConvertFiberToThread(void); void* CreateFiber(size_t, void (*)(void*), void*); void DeleteFiber(void*); void SwitchToFiber(void*); }
enum Start { PLAIN, FIBER, INFIBER };
struct W {
    int start, use, tid; H theirs; Slot slot[3]; int live, objs, ran; void *self, *own; bool done; uint64_t keep;
};
static W* w;
struct Obj { Obj() { ++w->objs; } ~Obj() { --w->objs; } };
struct Fn {
    Track t; bool finish; Fn(int* n, bool f) : t(n), finish(f) {}
    H operator()(H c) { Obj o; volatile uint64_t mine = w->keep; for (;;) { ++w->ran; vp_assert(vp_tid() == w->tid && mine == w->keep, "a context runs on the thread that resumed it"); c = std::move(c).resume(); if (finish) return c; } }
};
static H start(int s, bool finish) {
#if VP_STARTS_AT_ONCE
    return ctx::callcc(std::allocator_arg, SlotAlloc(&w->slot[s]), Fn(&w->live, finish));
#else
    H h(std::allocator_arg, SlotAlloc(&w->slot[s]), Fn(&w->live, finish));
    return std::move(h).resume();
#endif
}
static void body() {
    w->tid = vp_tid();
    int r = w->ran;
    switch (w->use) {
    case 0: break;
    case 1: { H h = start(1, true); vp_assert(w->ran == r + 1 && h, "started"); h = std::move(h).resume(); vp_assert(!h, "finished"); vp_cover("finished"); break; }
    case 2: { H h = start(1, false); vp_assert(w->ran == r + 1 && h, "started"); vp_cover("destroyed"); break; }
    case 3: w->theirs = std::move(w->theirs).resume(); vp_assert(w->ran == r + 1 && w->theirs, "a context of another thread runs here"); vp_cover("resumed"); break;
    case 4: { H h = start(1, true); h = std::move(h).resume_with([](H c) { vp_assert(vp_tid() == w->tid, "on-top function"); return c; }); vp_assert(!h, "finished"); break; }
    case 5: w->theirs = start(1, false); vp_cover("left-behind"); break;      // outlives this thread
    }
}
static void in_fiber(void*) { body(); w->done = true; SwitchToFiber(w->self); vp_fail("the fiber goes on"); }
static void run(void*) {
    if (w->start) { w->self = ConvertThreadToFiber(nullptr); vp_assert(w->self, "converted by the user"); }
    if (w->start == INFIBER) {
        w->own = CreateFiber(65536, in_fiber, nullptr); SwitchToFiber(w->own);
        vp_assert(w->done, "control comes back to the user's own fiber"); DeleteFiber(w->own); vp_cover("own-fiber");
    } else body();
}
extern "C" void vp_main(void) {
    W ww{}; w = &ww; w->keep = vp_sym("keep", 64);
    w->start = vp_pick(3); w->use = vp_pick(6);
    if (w->use == 3) { w->tid = 0; w->theirs = start(0, false); }
    bool theirs = w->use == 3;
    int t = vp_thread_new();
    vp_thread_run(t, run, nullptr);
    if (w->use == 2) vp_assert(w->objs == 0 && w->live == 0, "unwound");
    if (w->start != INFIBER && vp_pick(2)) { w->tid = t; vp_thread_run(t, [](void*) { int u = w->use; if (u == 5 || u == 3) { w->theirs = std::move(w->theirs).resume(); vp_assert(static_cast<bool>(w->theirs), "again"); } }, nullptr); vp_cover("twice"); }
    vp_thread_exit(t);
    vp_assert(vp_wf_is_fiber(t) == (w->start != PLAIN), "a thread ends as what it was before it used contexts");
    w->tid = 0;
    if (w->use == 5 || theirs) {
        vp_assert(static_cast<bool>(w->theirs) && w->objs == 1, "the context outlives the thread");
        int r = w->ran;
        if (vp_pick(2)) { w->theirs = std::move(w->theirs).resume(); vp_assert(w->ran == r + 1, "and runs on another one"); }
        w->theirs = H();
    }
    vp_assert(w->objs == 0 && w->live == 0, "everything is destroyed");
    for (int i = 0; i < 2; ++i) slot_done(w->slot[i]);
    vp_cover("end");
}
