// "World": main plus up to MAXC contexts.  Whatever is running keeps choosing what to do next; every choice is symbolic.
// A ghost state says, for every switch, who has to be running afterwards and what it has to receive.
#include "common.hpp"
#include <stdexcept>

enum { OP_RESUME = 1, OP_RETURN = 2, OP_DESTROY = 4, OP_WITH = 8, OP_WITH_EMPTY = 16, OP_WITH_THROW = 32, OP_WITH_SWITCH = 64,
       OP_WITH_OTHER = 128, OP_NEST = 256, OP_CREATE = 512, OP_ASSIGN = 1024, OP_UNNEST = 2048, OP_WITH_LVALUE = 4096, OP_ESCAPE = 8192,
       OP_ASSIGN_LIVE = 16384 };
enum { MAXC = 4, MAXDEPTH = 3 };

struct World {
    H h[MAXC + 1];
    bool created[MAXC + 1], started[MAXC + 1], gone[MAXC + 1];
    int depth[MAXC + 1];
    int fn_live[MAXC + 1], alloc_live[MAXC + 1], allocated[MAXC + 1], deallocated[MAXC + 1];
    void* base[MAXC + 1]; size_t size[MAXC + 1]; void* sp[MAXC + 1];
    int n, ops, steps, depthmax, symregion;
    int cur;            // running
    int expect;         // who must run next
    int src;            // whose handle must arrive (-1: an empty one)
    int dying, destroyer;
    int ontop_runs, ontop_calls;
    uint64_t xval;
    int ran[MAXC + 1];
};
static World* W;

struct Err { uint64_t v; int* n; Err(uint64_t a, int* c) : v(a), n(c) { ++*n; } Err(Err const& o) : v(o.v), n(o.n) { ++*n; } ~Err() { --*n; } };
static int errs;

static void enter(int me) {
    vp_assert(W->expect == me, "control continues in the context that was resumed");
    if (me == 0) vp_assert(vp_on_root(), "main runs on its own stack");
#ifndef BOOST_USE_WINFIB
    else vp_assert(vp_on_stack(W->base[me], (char*)W->base[me] + W->size[me]), "the context runs on its own stack");
#endif
    W->cur = me; W->expect = -1;
    vp_log("enter", me);
}
static void check_gone(int k) {
    vp_assert(W->fn_live[k] == 0, "function object of an ended context is destroyed exactly once");
    vp_assert(W->alloc_live[k] == 0, "allocator copies of an ended context are destroyed exactly once");
    vp_assert(W->deallocated[k] == 1, "stack of an ended context is released exactly once");
    vp_assert(W->depth[k] == 0, "every object on the stack of an ended context is destroyed");
}
// the handle that arrived with control
static void arrive(int me, H c) {
    enter(me);
    int s = W->src; W->src = -2;
    vp_assert(s > -16, "an on-top function runs before its target continues");
    if (s == -1) { vp_assert(!c, "handle of an ended context is empty"); vp_assert(!static_cast<bool>(c), "an empty handle tests false"); }
    else {
        vp_assert(static_cast<bool>(c), "handle of a suspended context is valid");
        vp_assert(!W->h[s], "at most one handle per context");
        W->h[s] = std::move(c);
        vp_assert(!c && static_cast<bool>(W->h[s]), "moving a handle transfers ownership");
    }
}
static void settle() {
#if defined(BOOST_USE_ASAN)
    vp_assert(vp_asan_fake_live() == 0, "a context that will never run again gives up its fake stack");
#endif
#if defined(BOOST_USE_TSAN)
    int up = 0;
    for (int k = 1; k <= W->n; ++k) if (W->created[k] && W->alloc_live[k]) ++up;
    vp_assert(vp_tsan_live() == up, "every live context has one sanitizer fiber, ended ones have none");
#endif
#if BOOST_CONTEXT_SHADOW_STACK
    int with = 0;
    for (int k = 1; k <= W->n; ++k) with += W->allocated[k] - W->deallocated[k];
    vp_assert(vp_shadow_live() == with, "every live context has one shadow stack, ended ones have none");
#endif
    for (int k = 1; k <= W->n; ++k) if (W->gone[k] && W->dying != k) check_gone(k); }

struct Guard {
    int me, at;
    explicit Guard(int m) : me(m), at(W->depth[m]++) {}
    ~Guard() {
        vp_assert(W->depth[me] == at + 1, "objects on a context's stack are destroyed in reverse order");
        W->depth[me] = at;
        if (W->dying == me) { vp_assert(W->expect == -3, "unwinding happens while the destroyer waits"); vp_log("unwind", me * 16 + at); }
    }
};

struct Alloc {
    int k; Track t;
    explicit Alloc(int i) : k(i), t(&W->alloc_live[i]) {}
    ctx::stack_context allocate() {
        t.use();
        ctx::stack_context s;
        if (W->symregion) { W->base[k] = vp_region(W->symregion, 1 << 20, 1, &W->size[k]); s.size = W->size[k]; s.sp = (char*)W->base[k] + s.size; }
        else { s = take_stack(65536); W->size[k] = s.size; W->base[k] = (char*)s.sp - s.size; }
        W->sp[k] = s.sp; ++W->allocated[k];
        return s;
    }
    void deallocate(ctx::stack_context& s) noexcept {
        t.use();
        vp_assert(s.sp == W->sp[k] && s.size == W->size[k], "stack released with the descriptor it was created with");
        vp_assert(W->deallocated[k] == 0, "stack released once");
        ++W->deallocated[k];
        vp_log("dealloc", k);
        if (W->symregion) vp_region_free((char*)s.sp - s.size); else drop_stack(s);
    }
};

static H body(int me);
struct Fn {
    int k; Track t;
    explicit Fn(int i) : k(i), t(&W->fn_live[i]) {}
    H operator()(H c) {
        t.use();
        vp_assert(++W->ran[k] == 1, "a context function is entered once");
        vp_assert(!W->started[k] || W->src == -4, "entered when first resumed");
        W->started[k] = true;
        if (W->src == -4) W->src = -2;
        arrive(k, std::move(c));
        settle();
        Guard g(k);
        return body(k);
    }
};

// a call that gives control away; what it returns or throws is judged when control is back
template< class F > static void give(int me, F f) {
    H r;
    try { r = f(); }
    catch (Err const& e) {
        enter(me);
        vp_assert(W->src == -5, "an exception arrives only where an on-top function threw it");
        W->src = -2;
        vp_assert(e.v == W->xval, "the exception arrives with its value");
        return;
    }
    arrive(me, std::move(r));
}
static void create(int me, int k) {
    W->created[k] = true;
    vp_log("create", me * 16 + k);
#if VP_STARTS_AT_ONCE
    W->expect = k; W->src = me;
    give(me, [=] { return ctx::callcc(std::allocator_arg, Alloc(k), Fn(k)); });
#else
    W->h[k] = H(std::allocator_arg, Alloc(k), Fn(k));
    vp_assert(static_cast<bool>(W->h[k]), "a new fiber is valid");
    vp_assert(!W->started[k], "a new fiber does not run before it is resumed");
    vp_assert(W->fn_live[k] == 1 && W->alloc_live[k] == 1, "a context owns one instance of its function and allocator");
#endif
    vp_assert(W->allocated[k] == 1, "one stack per context");
    (void)me;
}
#if defined(VP_CONT)        // continuations can be resumed through an lvalue, too: every other switch does it
static bool as_lvalue() { static int n; return n++ & 1; }
static H go(H& x) { return as_lvalue() ? x.resume() : std::move(x).resume(); }
template<class F> static H go_with(H& x, F&& f) { return as_lvalue() ? x.resume_with(std::forward<F>(f)) : std::move(x).resume_with(std::forward<F>(f)); }
#else
static H go(H& x) { return std::move(x).resume(); }
template<class F> static H go_with(H& x, F&& f) { return std::move(x).resume_with(std::forward<F>(f)); }
#endif
static void resume(int me, int k) {
    vp_log("resume", me * 16 + k);
    W->expect = k; W->src = me;
    H x = std::move(W->h[k]);
    vp_assert(!W->h[k], "a handle moved from is empty");
    give(me, [&] { return go(x); });
    vp_assert(!x, "resuming consumes the handle");
}
enum { V_PLAIN, V_EMPTY, V_THROW, V_SWITCH, V_OTHER, V_LVALUE };
// an on-top function running in context k, called by `from`
struct Ontop {
    int from, k, v, m; Track t;
    Ontop(int f, int kk, int vv, int mm) : from(f), k(kk), v(vv), m(mm), t(&W->ontop_runs) {}
    H operator()(H c) const {
        t.use();
        ++W->ontop_calls;
        int called = W->src;
        vp_assert(W->ontop_calls == 1, "an on-top function runs exactly once");
        enter(k);
        vp_assert(called == -16 - from, "an on-top function runs before the target continues");
        vp_assert(static_cast<bool>(c), "an on-top function receives the handle of the resumer");
        vp_log("ontop", k);
        W->src = -2;
        int f = from, kk = k, vv = v, mm = m;
        Guard g(kk);
        // the switch it interrupts resumes here afterwards: hand over what it must receive
        if (vv == V_PLAIN || vv == V_LVALUE) { W->expect = kk; W->src = f; return c; }
        W->h[f] = std::move(c);
        if (vv == V_EMPTY) { W->expect = kk; W->src = -1; return H(); }
        if (vv == V_THROW) { W->expect = kk; W->src = -5; W->xval = vp_sym("exception", 64); throw Err(W->xval, &errs); }
        if (vv == V_OTHER) { W->expect = kk; W->src = mm; return std::move(W->h[mm]); }
        // switch to another context from inside the on-top function
        resume(kk, mm);
        t.use();      // the library's copy lives as long as it runs, even when the resumer went on
        vp_assert(from == f && k == kk && v == vv && m == mm, "an on-top function keeps its own values while other contexts run");
        if (W->ops > 0) { vp_cover("ontop-switched"); }
        W->expect = kk;
        int other = f;
        if (W->h[other]) { W->src = other; return std::move(W->h[other]); }
        W->src = -1; return H();
    }
};
static void resume_with(int me, int k, int v, int m) {
    vp_log("resume_with", (v * 16 + me) * 16 + k);
    W->ontop_calls = 0;
    W->expect = k; W->src = -16 - me;          // until the on-top function runs
    H x = std::move(W->h[k]);
    give(me, [&]() -> H {
        if (v != V_LVALUE) return go_with(x, Ontop(me, k, v, m));
        Ontop o(me, k, v, m);
        H r = go_with(x, o);
        vp_assert(o.k == k && o.from == me && o.v == v, "an on-top lvalue is left unchanged");
        return r;
    });
    vp_assert(!x, "resuming consumes the handle");
}
static void destroy(int me, int k, int how) {
    vp_log("destroy", me * 16 + k);
    bool st = W->started[k]; int ran = W->ran[k];
    W->dying = k; W->destroyer = me; W->expect = -3;
    if (how == 0) { H x(std::move(W->h[k])); }
    else { W->h[k] = H(); }
    W->expect = me;
    enter(me);
    vp_assert(W->ran[k] == ran && (st || ran == 0), "destroying a context does not run its function");
    W->dying = -1; W->gone[k] = true;
    vp_assert(!W->h[k], "destroyed handle is empty");
    check_gone(k);
}

struct Choice { int op, k, v, m; };
// one symbolic step of context me; returns 1 to leave the body, 2 to leave the nesting level
static int step(int me, int level, int& ret) {
    if (W->ops >= W->steps) {
        if (me == 0) return 1;
        resume(me, 0);      // out of budget: hand control to main, which ends the rest
        return 0;
    }
    ++W->ops;
    Choice c[80]; int n = 0;
    const int S = vp_param("ops");
    for (int k = 0; k <= W->n; ++k) {
        if (k == me || !W->h[k]) continue;
        if (S & OP_RESUME) c[n++] = Choice{OP_RESUME, k, 0, 0};
        if (me != 0 && (S & OP_RETURN)) c[n++] = Choice{OP_RETURN, k, 0, 0};
        if (k != 0 && (S & OP_DESTROY)) c[n++] = Choice{OP_DESTROY, k, 0, 0};
        if (k != 0 && (S & OP_ASSIGN)) c[n++] = Choice{OP_DESTROY, k, 1, 0};
        if (S & OP_WITH) c[n++] = Choice{OP_WITH, k, V_PLAIN, 0};
        if (S & OP_WITH_EMPTY) c[n++] = Choice{OP_WITH, k, V_EMPTY, 0};
        if (S & OP_WITH_LVALUE) c[n++] = Choice{OP_WITH, k, V_LVALUE, 0};
        if ((S & OP_WITH_THROW) && (k == 0 || W->started[k])) c[n++] = Choice{OP_WITH, k, V_THROW, 0};
        if (S & OP_WITH_SWITCH) c[n++] = Choice{OP_WITH, k, V_SWITCH, me};
        for (int m = 0; m <= W->n; ++m) if (m != k && m != me && W->h[m]) {
            if (S & OP_WITH_SWITCH) c[n++] = Choice{OP_WITH, k, V_SWITCH, m};
            if (S & OP_WITH_OTHER) c[n++] = Choice{OP_WITH, k, V_OTHER, m};
        }
    }
    if (me != 0 && (S & OP_NEST) && level < W->depthmax) c[n++] = Choice{OP_NEST, 0, 0, 0};
    if (level > 0 && (S & OP_NEST)) c[n++] = Choice{OP_UNNEST, 0, 0, 0};
    if (me != 0 && (S & OP_ESCAPE)) c[n++] = Choice{OP_ESCAPE, 0, 0, 0};
    for (int k = 1; k <= W->n; ++k) if (!W->created[k]) { c[n++] = Choice{OP_CREATE, k, 0, 0}; break; }
    if (n == 0) { W->ops = W->steps; return 0; }
    Choice x = c[vp_pick(n)];
    switch (x.op) {
    case OP_RESUME: resume(me, x.k); vp_cover("resume"); break;
    case OP_RETURN: ret = x.k; vp_cover("return"); return 1;
    case OP_DESTROY: vp_cover(W->started[x.k] ? "destroy-started" : "destroy-fresh"); destroy(me, x.k, x.v); break;
    case OP_WITH: resume_with(me, x.k, x.v, x.m); vp_cover("ontop"); break;
    case OP_CREATE: create(me, x.k); break;
    case OP_UNNEST: return 2;
    case OP_NEST: return 3;
    case OP_ESCAPE: vp_expect_terminate(1); vp_cover("escape");
        switch (vp_pick(4)) { case 0: throw 42; case 1: throw std::bad_alloc(); case 2: throw std::runtime_error("x"); default: throw Err(1, &errs); }
    }
    settle();
    return 0;
}
static int level_run(int me, int level, int& ret) {
    Guard g(me);
    for (;;) {
        int r = step(me, level, ret);
        if (r == 3) { r = level_run(me, level + 1, ret); if (r == 2) r = 0; }
        if (r) return r;
    }
}
static H body(int me) {
    int ret = 0;
    for (;;) {
        int r = step(me, 0, ret);
        if (r == 3) { r = level_run(me, 1, ret); if (r == 2) r = 0; }
        if (r == 1) break;
    }
    // leave: control must continue in the context whose handle is returned, which receives an empty handle
    vp_log("return", me * 16 + ret);
    W->expect = ret; W->src = -1; W->gone[me] = true;
    if (ret != 0 && !W->started[ret]) W->src = -1;
    return std::move(W->h[ret]);
}

extern "C" void vp_main(void) {
    World w{}; W = &w;
    w.n = vp_param("n"); w.steps = vp_param("steps"); w.depthmax = vp_param("depth"); w.symregion = vp_param("symregion");
    san_on();
    w.expect = -1; w.src = -2; w.cur = 0; w.dying = -1;
    {
        if (vp_param("precreate")) create(0, 1);
        int ret = 0;
        while (step(0, 0, ret) != 1) {}
        for (int k = 1; k <= w.n; ++k)
            if (w.h[k]) destroy(0, k, 0);
    }
    for (int k = 0; k <= w.n; ++k) {
        vp_assert(!w.h[k], "no handle is left");
        if (k && w.created[k]) { vp_assert(w.gone[k], "every context has ended"); check_gone(k); }
    }
    vp_assert(errs == 0, "exception objects are destroyed");
    vp_assert(w.ontop_runs == 0, "on-top function objects are destroyed exactly once");
    vp_cover("end");
}
