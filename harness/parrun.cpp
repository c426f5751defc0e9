// C19: two threads that create, resume, suspend, unwind and finish contexts at the same time do not disturb each other.
#include "common.hpp"
#include <boost/context/fixedsize_stack.hpp>
struct Tr { int live, ran; uint64_t v, seen; };
struct Ob { int* n; explicit Ob(int* p) : n(p) { ++*n; } ~Ob() { --*n; } };
struct T { int what; Slot s; Tr r; H given; int tid; };
static H fn(T* t, H c) {
    Ob o(&t->r.live); ++t->r.ran; vp_assert(vp_tid() == t->tid, "a context runs on the thread that resumes it");
    t->r.seen = t->r.v;
    c = std::move(c).resume();
    vp_assert(t->r.seen == t->r.v && vp_tid() == t->tid, "a context runs on the thread that resumes it");
    ++t->r.ran;
    return c;
}
struct Fn { T* t; H operator()(H c) { return fn(t, std::move(c)); } };
static void body(void* p) {
    T* t = (T*)p; t->tid = vp_tid();
    {
#if defined(VP_CONT)
        H h = t->given ? std::move(t->given) : ctx::callcc(std::allocator_arg, SlotAlloc(&t->s), Fn{t});
#else
        H h = t->given ? std::move(t->given) : H(std::allocator_arg, SlotAlloc(&t->s), Fn{t}).resume();
#endif
        vp_assert(static_cast<bool>(h), "control comes back with the handle of the context");
        if (t->what & 1) h = std::move(h).resume();
        else if (t->what & 2) h = std::move(h).resume_with([t](H c) { ++t->r.ran; return c; });
        vp_assert(static_cast<bool>(h) == !(t->what & 3), "finished");
    }
    vp_assert(vp_tid() == t->tid && t->r.live == 0 && t->r.seen == t->r.v, "this thread's own control and objects");
}
static void start(void* p) {
    T* t = (T*)p; t->tid = vp_tid();
#if defined(VP_CONT)
    t->given = ctx::callcc(std::allocator_arg, SlotAlloc(&t->s), Fn{t});
#else
    t->given = H(std::allocator_arg, SlotAlloc(&t->s), Fn{t}).resume();
#endif
}
extern "C" void vp_main(void) {
    san_on();
    static T x, y; new (&x) T{}; new (&y) T{};
    int t1 = vp_thread_new(), t2 = vp_thread_new();
    x.r.v = vp_sym("x", 64); y.r.v = vp_sym("y", 64); x.what = vp_pick(3); y.what = vp_pick(3);
    int made = vp_pick(3);                       // contexts first used by this thread, then handed over
    if (made >= 1) start(&x);
    if (made >= 2) start(&y);
    vp_par(t1, body, &x, t2, body, &y, vp_param("switches"));
    slot_done(x.s); slot_done(y.s);
    vp_assert(x.r.ran == (x.what == 0 ? 1 : x.what == 1 ? 2 : 3) && y.r.ran == (y.what == 0 ? 1 : y.what == 1 ? 2 : 3), "each ran as its own thread told it");
    vp_thread_exit(t1); vp_thread_exit(t2);
    vp_cover("end");
}
