// C18: value categories of the function object, the stack allocator and on-top callables.
#include "common.hpp"
#include <boost/context/preallocated.hpp>
#include <functional>
enum { FORM_LVALUE, FORM_CLVALUE, FORM_RVALUE, FORM_MOVEONLY, FORM_FNPTR, FORM_FNREF, FORM_REFWRAP, FORM_LAMBDA };
struct Ghost { int live, copies, moves, calls; bool original_called; };
static uint64_t seen;
// a payload that knows which instance it is
template< bool Copy > struct Box {
    Ghost* g; uint64_t v; int gen; bool moved;
    Box(Ghost* gg, uint64_t x) : g(gg), v(x), gen(0), moved(false) { ++g->live; }
    Box(Box const& o) : g(o.g), v(o.v), gen(o.gen + 1), moved(false) { static_assert(Copy, "copied"); vp_assert(!o.moved, "a moved-from object is not copied"); ++g->copies; ++g->live; }
    Box(Box&& o) noexcept : g(o.g), v(o.v), gen(o.gen + 1), moved(false) { vp_assert(!o.moved, "a moved-from object is not moved again"); o.moved = true; o.v = 0; ++g->moves; ++g->live; }
    Box& operator=(Box const&) = delete;
    ~Box() { vp_assert(g->live > 0, "each instance is destroyed once"); --g->live; *const_cast<volatile bool*>(&moved) = true; *const_cast<volatile uint64_t*>(&v) = 0xdead; }
};
template<> Box<false>::Box(Box const& o) : g(o.g), v(0), gen(0), moved(false) { vp_fail("a move-only object was copied"); }

struct Fn : Box<true> {
    Fn(Ghost* g, uint64_t x) : Box<true>(g, x) {}
    Fn(Fn const&) = default; Fn(Fn&&) = default;
    H operator()(H c) {
        vp_assert(!moved, "the context's own function object is intact and alive"); vp_assert(gen > 0, "the context uses its own instance");
        ++g->calls; seen = v; v += 1; c = std::move(c).resume(); vp_assert(v == seen + 1, "the context's own instance keeps its state"); return c;
    }
};
struct FnMO {
    Box<true> b; FnMO(Ghost* g, uint64_t x) : b(g, x) {}
    FnMO(FnMO const&) = delete; FnMO(FnMO&&) = default;
    H operator()(H c) { vp_assert(!b.moved && b.gen > 0, "the context uses its own instance"); ++b.g->calls; seen = b.v; b.v += 1; c = std::move(c).resume(); vp_assert(b.v == seen + 1, "the context's own instance keeps its state"); return c; }
};
static Ghost gf, ga, go; static uint64_t plain_v;
static H plain(H c) { ++gf.calls; seen = plain_v; c = std::move(c).resume(); return c; }
struct Al : Box<true> {
    Slot* s;
    Al(Ghost* g, Slot* x, uint64_t v) : Box<true>(g, v), s(x) {}
    Al(Al const&) = default; Al(Al&&) = default;
    ctx::stack_context allocate() const { vp_assert(!moved, "a moved-from or destroyed allocator is not used"); return SlotAlloc(s).allocate(); }
    void deallocate(ctx::stack_context& c) noexcept { vp_assert(!moved, "a moved-from or destroyed allocator is not used"); vp_assert(gen > 0, "the context uses its own allocator instance"); ++g->calls; seen = v; SlotAlloc(s).deallocate(c); }
};
struct AlMO {
    Box<true> b; Slot* s;
    AlMO(Ghost* g, Slot* x, uint64_t v) : b(g, v), s(x) {}
    AlMO(AlMO const&) = delete; AlMO(AlMO&&) = default;
    ctx::stack_context allocate() const { vp_assert(!b.moved, "a moved-from or destroyed allocator is not used"); return SlotAlloc(s).allocate(); }
    void deallocate(ctx::stack_context& c) noexcept { vp_assert(!b.moved && b.gen > 0, "the context uses its own allocator instance"); ++b.g->calls; seen = b.v; SlotAlloc(s).deallocate(c); }
};
static Slot slot; static int pre;
template< class A, class F > static H make(A&& a, F&& f) {
    if (pre) {
        ctx::stack_context sc = a.allocate(); ctx::preallocated p((char*)sc.sp - 128, sc.size - 128, sc);
#if VP_STARTS_AT_ONCE
        return ctx::callcc(std::allocator_arg, p, std::forward<A>(a), std::forward<F>(f));
#else
        return H(std::allocator_arg, p, std::forward<A>(a), std::forward<F>(f));
#endif
    }
#if VP_STARTS_AT_ONCE
    return ctx::callcc(std::allocator_arg, std::forward<A>(a), std::forward<F>(f));
#else
    return H(std::allocator_arg, std::forward<A>(a), std::forward<F>(f));
#endif
}
// runs the context made with a function object / allocator to its end
static uint64_t start(H& h) {
    seen = 0;
#if !VP_STARTS_AT_ONCE
    h = std::move(h).resume();
#endif
    vp_assert(static_cast<bool>(h), "the context runs"); return seen;
}
static uint64_t started;   // continuations start inside make()
static void finish(H& h) { h = std::move(h).resume(); vp_assert(!h, "the context ends"); h = H(); }

template< class A > static void with_fn(A&& a, int form, uint64_t v) {
    gf = Ghost(); seen = 0;
    H h;
    uint64_t got = 0;
    if (form == FORM_LVALUE) {
        Fn f(&gf, v); h = make(std::forward<A>(a), f); got = seen; 
        vp_assert(f.v == v && !f.moved, "the caller's function object is left unchanged"); vp_assert(gf.copies == 1 && gf.live == 2, "an lvalue is copied once");
        if (!VP_STARTS_AT_ONCE) got = start(h);
        vp_assert(f.v == v && !f.moved && gf.live == 2, "the caller's function object is left unchanged"); finish(h);
        vp_assert(f.v == v && !f.moved && gf.live == 1, "the context's instance is destroyed with it");
    } else if (form == FORM_CLVALUE) {
        const Fn f(&gf, v); h = make(std::forward<A>(a), f); got = seen; vp_assert(gf.copies == 1, "a const lvalue is copied once");
        if (!VP_STARTS_AT_ONCE) got = start(h);
        finish(h); vp_assert(f.v == v && gf.live == 1, "the context's instance is destroyed with it");
    } else if (form == FORM_RVALUE) {
        Fn f(&gf, v); h = make(std::forward<A>(a), std::move(f)); got = seen; vp_assert(gf.copies == 0 && f.moved, "an rvalue is moved, not copied");
        if (!VP_STARTS_AT_ONCE) got = start(h);
        finish(h); vp_assert(gf.live == 1, "the context's instance is destroyed with it");
    } else if (form == FORM_MOVEONLY) {
        h = make(std::forward<A>(a), FnMO(&gf, v)); got = seen; vp_assert(gf.copies == 0 && gf.live == 1, "a move-only function object is moved");
        if (!VP_STARTS_AT_ONCE) got = start(h);
        finish(h);
    } else if (form == FORM_FNPTR) { plain_v = v; h = make(std::forward<A>(a), &plain); got = seen; if (!VP_STARTS_AT_ONCE) got = start(h); finish(h); }
    else if (form == FORM_FNREF) { plain_v = v; h = make(std::forward<A>(a), plain); got = seen; if (!VP_STARTS_AT_ONCE) got = start(h); finish(h); }
    else if (form == FORM_LAMBDA) {
        Box<true> b(&gf, v);
        { auto l = [b](H c) mutable { ++gf.calls; seen = b.v; b.v = 77; return std::move(c).resume(); };
          int k = gf.copies + gf.moves; h = make(std::forward<A>(a), l); got = seen; vp_assert(gf.copies + gf.moves == k + 1, "a capturing lambda is copied once"); }
        if (!VP_STARTS_AT_ONCE) got = start(h);
        finish(h); vp_assert(b.v == v && gf.live == 1, "captured copies are the context's own");
    } else {
        struct Big { uint64_t v; H operator()(H c) { ++gf.calls; seen = v; v = 1; return std::move(c).resume(); } } big = { v };
        h = make(std::forward<A>(a), std::ref(big)); got = seen; if (!VP_STARTS_AT_ONCE) got = start(h); finish(h);
        vp_assert(big.v == 1, "a reference wrapper refers to the caller's object");
    }
    vp_assert(got == v, "the function object arrives with its value"); vp_assert(gf.calls == 1, "it is called once"); vp_assert(gf.live == 0, "every function object is destroyed exactly once");
}
struct On {
    Box<true> b; uint64_t* out;
    On(Ghost* g, uint64_t v, uint64_t* o) : b(g, v), out(o) {}
    H operator()(H c) const { vp_assert(!b.moved, "the on-top instance is intact"); vp_assert(b.gen > 0, "the target uses its own instance of the on-top callable"); ++b.g->calls; *out = b.v; return c; }
};
static uint64_t on_seen;
static H on_plain(H c) { ++go.calls; on_seen = plain_v; return c; }
static void with_ontop(int form, uint64_t v) {
    struct Loop { H operator()(H c) { while (c) c = std::move(c).resume(); return c; } };
    struct Twice { int* n; H operator()(H c) { ++*n; c = std::move(c).resume(); ++*n; c = std::move(c).resume(); ++*n; return c; } };
    int n = 0; slot = Slot(); Ghost gx = Ghost();
    H h = make(Al(&gx, &slot, 1), Twice{ &n });
    int expect = 1;
#if !VP_STARTS_AT_ONCE
    if (vp_pick(2)) h = std::move(h).resume(); 
#endif
    if (n == 0) { expect = 0; if (VP_STARTS_AT_ONCE) vp_fail("started"); }
    go = Ghost(); on_seen = 0;
    if (form == FORM_LVALUE) { On o(&go, v, &on_seen); h = std::move(h).resume_with(o); vp_assert(o.b.v == v && !o.b.moved && go.live == 1, "the caller's on-top callable is left unchanged"); vp_assert(go.copies >= 1, "an lvalue is copied"); }
    else if (form == FORM_CLVALUE) { const On o(&go, v, &on_seen); h = std::move(h).resume_with(o); vp_assert(o.b.v == v && !o.b.moved && go.live == 1, "the caller's on-top callable is left unchanged"); }
    else if (form == FORM_RVALUE) { On o(&go, v, &on_seen); h = std::move(h).resume_with(std::move(o)); vp_assert(go.copies == 0 && o.b.moved && go.live == 1, "an rvalue is moved, not copied"); }
    else if (form == FORM_MOVEONLY) {
#if !defined(BOOST_USE_UCONTEXT) && !defined(BOOST_USE_WINFIB)      // these keep the callable in a std::function
        struct MO : On { MO(Ghost* g, uint64_t v, uint64_t* o) : On(g, v, o) {} MO(MO const&) = delete; MO(MO&&) = default; };
        h = std::move(h).resume_with(MO(&go, v, &on_seen)); vp_assert(go.copies == 0, "a move-only on-top callable is moved");
#else
        h = std::move(h).resume_with(On(&go, v, &on_seen)); vp_assert(go.copies == 0, "a temporary on-top callable is moved");
#endif
    }
    else if (form == FORM_FNPTR) { plain_v = v; h = std::move(h).resume_with(&on_plain); }
    else if (form == FORM_FNREF) { plain_v = v; h = std::move(h).resume_with(on_plain); }
    else { Box<true> b(&go, v); h = std::move(h).resume_with([b](H c) { ++go.calls; on_seen = b.v; return c; }); vp_assert(b.v == v && !b.moved, "captured copies are the target's own"); }
    vp_assert(on_seen == v, "the on-top callable arrives with its value"); vp_assert(go.calls == 1, "it is called once");
    vp_assert(go.live == 0, "every on-top callable is destroyed exactly once");
    vp_assert(n == expect + 1, "the target continues");
    h = H();
    vp_assert(gx.live == 0, "every allocator instance is destroyed exactly once"); slot_done(slot);
    vp_cover("ontop-form");
}
extern "C" void vp_main(void) {
    uint64_t v = vp_sym("payload", 64); vp_assume(v != 0);
    pre = vp_pick(2);
    int what = vp_pick(3);
    if (what == 0) { int f = vp_pick(8); Ghost g = Ghost(); slot = Slot(); with_fn(Al(&g, &slot, 1), f, v); vp_assert(g.live == 0, "every allocator instance is destroyed exactly once"); vp_cover("fn-form"); }
    else if (what == 1) {
        int form = vp_pick(4); ga = Ghost(); slot = Slot();
        if (form == FORM_LVALUE) { Al a(&ga, &slot, v); with_fn(a, FORM_LVALUE, 5); vp_assert(a.v == v && !a.moved && ga.live == 1 && ga.calls == 1, "the caller's allocator is left unchanged"); vp_assert(ga.copies == 1, "an lvalue allocator is copied once"); }
        else if (form == FORM_CLVALUE) { const Al a(&ga, &slot, v); with_fn(a, FORM_LVALUE, 5); vp_assert(a.v == v && !a.moved && ga.live == 1 && ga.calls == 1 && ga.copies == 1, "the caller's allocator is left unchanged"); }
        else if (form == FORM_RVALUE) { Al a(&ga, &slot, v); with_fn(std::move(a), FORM_RVALUE, 5); vp_assert(ga.copies == 0 && a.moved && ga.live == 1, "an rvalue allocator is moved"); }
        else with_fn(AlMO(&ga, &slot, v), FORM_MOVEONLY, 5);
        vp_assert(ga.live == 0, "every allocator instance is destroyed exactly once"); vp_assert(ga.calls == 1, "the stack is released through the context's allocator"); vp_assert(seen == v, "the allocator arrives with its value");
        vp_cover("alloc-form");
    } else { int f = vp_pick(7); with_ontop(f == 6 ? FORM_LAMBDA : f, v); }
    vp_cover("end");
}
