// C19: contexts that are created, resumed, resumed on-top, unwound and finished on different threads, in any order, threads ending in between.
#include "common.hpp"
enum { MAXC = 3, MAXT = 3 };
enum Cmd { YIELD, FINISH, INNER, INNER_FINISH, INNER_NEW };
struct C { H h; bool made; int cmd, inner; Slot s; int live, objs; uint64_t keep, seen; bool started; };
struct World { C c[MAXC]; int n, tid, ontops, thr[MAXT]; bool up[MAXT]; uint64_t tag; };
static World* w;
struct Err { uint64_t v; };
static void here(const char*) { vp_assert(vp_tid() == w->tid, "code of a context runs on the thread that resumed it"); }
struct Obj {
    int i; explicit Obj(int k) : i(k) { ++w->c[i].objs; }
    ~Obj() { vp_assert(vp_tid() == w->tid, "a context is unwound on the thread that destroys it"); --w->c[i].objs; }
};
static H step(H h, int j);
struct Fn {
    int i; Track t;
    explicit Fn(int k) : i(k), t(&w->c[k].live) {}
    Fn(Fn const& o) : i(o.i), t(o.t) {}
    Fn(Fn&& o) noexcept : i(o.i), t(std::move(o.t)) {}
    H operator()(H c) {
        C& x = w->c[i];
        here("enter"); x.started = true;
        Obj ob(i);
        volatile uint64_t mine = x.keep;
        if (VP_STARTS_AT_ONCE) c = out(std::move(c));
        for (;;) {
            here("run");
            vp_assert(mine == x.keep, "what a context keeps on its stack survives a change of threads");
            switch (x.cmd) {
            case FINISH: return c;
            case INNER: case INNER_FINISH: {
                int j = x.inner; C& y = w->c[j];
                y.cmd = x.cmd == INNER ? YIELD : FINISH; bool fin = y.cmd == FINISH;
                y.h = std::move(y.h).resume();                       // a context resumed here, maybe made on another thread, comes back here
                here("inner");
                vp_assert(static_cast<bool>(y.h) == !fin, "the resumer gets control and the handle back");
                if (fin) { y.h = H(); y.made = false; }
                vp_cover("inner");
            } break;
            default: break;
            }
            c = out(std::move(c));
        }
    }
    H out(H c) {
        vp_assert(static_cast<bool>(c), "the resumer's handle is valid");
        try { c = std::move(c).resume(); } catch (Err const& e) { here("catch"); vp_assert(e.v == w->tag, "exception value"); c = H(); vp_cover("caught");
            // the resumer's handle went with the exception: it was kept aside by the on-top function
            c = std::move(*back); }
        here("back");
        return c;
    }
    static H* back;
};
H* Fn::back;
struct Arg { int what, i, j; };
static void op(void* p) {
    Arg* a = (Arg*)p; C& x = w->c[a->i];
    int t = vp_tid();
    vp_assert(t == w->tid, "thread");
    switch (a->what) {
    case 0:
#if VP_STARTS_AT_ONCE
        x.h = ctx::callcc(std::allocator_arg, SlotAlloc(&x.s), Fn(a->i));
#else
        x.h = H(std::allocator_arg, SlotAlloc(&x.s), Fn(a->i));
#endif
        x.made = true; vp_cover("made"); if (!VP_STARTS_AT_ONCE) x.started = false; break;
    case 1: case 2: case 3: case 4:
        x.cmd = a->what == 1 ? YIELD : a->what == 2 ? FINISH : a->what == 3 ? INNER : INNER_FINISH; x.inner = a->j;
        x.h = std::move(x.h).resume();
        vp_assert(static_cast<bool>(x.h) == (a->what != 2), "the resumer on this thread gets control back with the handle of the context");
        if (a->what == 2) { x.h = H(); x.made = false; vp_cover("finished"); }
        break;
    case 5: case 6: {
        int n = w->ontops; bool thr = a->what == 6; H kept; Fn::back = &kept; x.cmd = YIELD;
        x.h = std::move(x.h).resume_with([thr](H c) { vp_assert(vp_tid() == w->tid, "an on-top function runs on the thread that resumes"); ++w->ontops;
            vp_assert(static_cast<bool>(c), "the on-top function gets the resumer's handle");
            if (thr) { *Fn::back = std::move(c); throw Err{w->tag}; } return c; });
        vp_assert(w->ontops == n + 1 && static_cast<bool>(x.h), "the on-top function ran once and control came back");
        vp_cover("ontop");
    } break;
    case 7: x.h = H(); x.made = false; vp_assert(x.objs == 0, "unwound"); vp_cover("destroyed"); break;
    }
    vp_assert(vp_tid() == t, "a thread gets back its own control");
#if defined(BOOST_USE_ASAN)
    vp_assert(vp_asan_fake_live() == 0, "a context that will never run again gives up its fake stack");
#endif
#if defined(BOOST_USE_TSAN)
    int up = 0;
    for (int k = 0; k < w->n; ++k) up += w->c[k].made;
    vp_assert(vp_tsan_live() == up, "every live context has one sanitizer fiber, ended ones have none");
#endif
    for (int k = 0; k < w->n; ++k) if (!w->c[k].made) { vp_assert(w->c[k].live == 0 && w->c[k].objs == 0, "everything of an ended context is destroyed"); slot_done(w->c[k].s); }
}
static void on(int t, Arg& a) { w->tid = t ? w->thr[t] : 0; if (t) vp_thread_run(w->thr[t], op, &a); else op(&a); }
extern "C" void vp_main(void) {
    World ww{}; w = &ww; w->n = vp_param("n");
    const int T = vp_param("threads"), steps = vp_param("steps");
    w->tag = vp_sym("tag", 64);
    for (int i = 0; i < w->n; ++i) w->c[i].keep = vp_sym("keep", 64);
    int last = -1;
    san_on();
    w->up[0] = true;
    for (int s = 0; s < steps; ++s) {
        int t = vp_pick(T);
        if (t && !w->up[t]) { if (w->thr[t]) break; w->thr[t] = vp_thread_new(); w->up[t] = true; }
        int i = w->n > 1 ? vp_pick(w->n) : 0; C& x = w->c[i];
        Arg a{0, i, 0};
        if (x.made) {
            int can[8], nc = 0;
            can[nc++] = 1; can[nc++] = 2; can[nc++] = 7;
            if (x.started) { can[nc++] = 5; can[nc++] = 6; }
            for (int j = 0; j < w->n; ++j) if (j != i && w->c[j].made) { a.j = j; can[nc++] = 3; if (VP_STARTS_AT_ONCE || w->c[j].started) can[nc++] = 4; break; }
            a.what = can[vp_pick(nc)];
            if (last >= 0 && last != t) vp_cover("migrated");
        }
        on(t, a); last = t;
        if (t && vp_param("exits") && vp_pick(2)) { w->tid = w->thr[t]; vp_thread_exit(w->thr[t]); w->up[t] = false; vp_cover("thread-ended"); }
    }
    bool before = vp_pick(2);
    for (int k = 0; k < 2; ++k) {
        if ((k == 0) == before) { for (int i = 0; i < w->n; ++i) if (w->c[i].made) { Arg a{7, i, 0}; on(0, a); } }
        else for (int t = 1; t < T; ++t) if (w->up[t]) { w->tid = w->thr[t]; vp_thread_exit(w->thr[t]); w->up[t] = false; }
    }
    vp_cover("end");
}
