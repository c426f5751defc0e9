// C10: unwinding a suspended context whose objects use contexts themselves while they are destroyed.
#include "common.hpp"
enum { MAXO = 12 };
struct St {
    Slot dying, aux, fresh[16], child[4]; int nfresh, nchild;
    H a;                       // helper context, suspended or not yet started
    int aux_runs, aux_dead;
    int live[MAXO]; int nlive; // objects alive on the dying context's stack, in order of construction
    bool unwinding; int acts, maxacts, resumed_after; int fn_live, wayd, rethrown;
    bool done;
};
static St* S;
struct AuxFn { Track t; explicit AuxFn(int* n) : t(n) {} H operator()(H c) { for (;;) { ++S->aux_runs; c = std::move(c).resume(); } } };
static int aux_fn;
static void use_aux() {
    int r = S->aux_runs;
    H c = std::move(S->a).resume();
    vp_assert(S->aux_runs == r + 1 && static_cast<bool>(c), "a destructor can resume another context during unwinding");
    S->a = std::move(c);
}
struct Mark { int* p; explicit Mark(int* x) : p(x) { ++*p; } ~Mark() { --*p; } };
static int marks;
struct TmpFn { bool finish; H operator()(H c) { Mark m(&marks); c = std::move(c).resume(); if (!finish) { c = std::move(c).resume(); } return c; } };
// creates a context, runs it, and either lets it finish or unwinds it
static void use_fresh(bool finish) {
    vp_assert(S->nfresh < 16, "bound");
    Slot& sl = S->fresh[S->nfresh++]; int m = marks;
    {
#if VP_STARTS_AT_ONCE
        H c = ctx::callcc(std::allocator_arg, SlotAlloc(&sl), TmpFn{finish});
#else
        H c(std::allocator_arg, SlotAlloc(&sl), TmpFn{finish});
        c = std::move(c).resume();
#endif
        vp_assert(static_cast<bool>(c) && marks == m + 1, "a context can be created during unwinding");
        c = std::move(c).resume();   // a finished context may live until this handle goes
        if (finish) vp_assert(!c, "it finished");
        else vp_assert(static_cast<bool>(c), "it is suspended");
    }
    vp_assert(marks == m, "unwinding inside unwinding destroys that context's objects");
    slot_done(sl);
}
static void act() {
    if (S->acts >= S->maxacts) return;
    ++S->acts;
    switch (vp_pick(6)) {
    case 0: break;
    case 1: use_aux(); vp_cover("resume-in-dtor"); break;
    case 2: use_fresh(true); vp_cover("finish-in-dtor"); break;
    case 3: use_fresh(false); vp_cover("unwind-in-dtor"); break;
    case 4: { int r = 0; S->a = std::move(S->a).resume_with([&r](H c) { ++r; return c; }); vp_assert(r == 1, "an on-top function runs once during unwinding"); vp_cover("ontop-in-dtor"); break; }
    case 5: { bool caught = false; try { throw 7; } catch (int i) { caught = i == 7; } vp_assert(caught, "exceptions inside destructors work"); use_aux(); break; }
    }
}
struct Obj {
    int at;
    Obj() : at(S->nlive++) { vp_assert(at < MAXO, "bound"); S->live[at] = 1; }
    ~Obj() {
        vp_assert(S->nlive == at + 1 && S->live[at], "objects are destroyed in reverse order of construction, once");
        act();
        vp_assert(S->nlive == at + 1, "nothing else was destroyed meanwhile");
        S->live[at] = 0; --S->nlive;
        vp_log("dtor", at);
    }
};
struct ChildFn { H operator()(H c) { Obj o; c = std::move(c).resume(); vp_fail("a destroyed context runs on"); return c; } };
static void level(int n, H& c) {
    Obj o;
    if (n > 0) {
        if (S->nchild < 2 && vp_pick(2)) {      // a context owned by an object on this context's stack
            Slot& sl = S->child[S->nchild++];
#if VP_STARTS_AT_ONCE
            H ch = ctx::callcc(std::allocator_arg, SlotAlloc(&sl), ChildFn{});
#else
            H ch(std::allocator_arg, SlotAlloc(&sl), ChildFn{});
            ch = std::move(ch).resume();
#endif
            Obj o2;
            level(n - 1, c);
            vp_cover("nested-context");
        } else level(n - 1, c);
        return;
    }
    // suspended in either of the two ways
    if (S->wayd == 1) { vp_cover("dies-in-resume-with"); c = std::move(c).resume_with([](H x) { return x; }); }
    else c = std::move(c).resume();
    ++S->resumed_after;
}
struct Dying {
    Track t;
    explicit Dying(int* n) : t(n) {}
    H operator()(H c) {
        int d = vp_param("depth");
        try {
            if (S->wayd == 2) {      // a handler that cleans up and rethrows, as the documentation asks for
                try { try { Obj o; level(d, c); } catch (ctx::detail::forced_unwind const&) { ++S->rethrown; throw; } }
                catch (...) { ++S->rethrown; vp_cover("rethrown"); throw; }
            } else level(d, c);
        }
        catch (int) { vp_fail("unwinding is not visible to handlers of other types"); }
        return c;
    }
};
struct Destroyer {      // destroys from inside another context
    H* h;
    H operator()(H c) { Mark m(&marks); { H x(std::move(*h)); } S->done = true; return c; }
};
extern "C" void vp_main(void) {
    san_on();
    St st{}; S = &st; S->maxacts = vp_param("acts"); st.wayd = vp_pick(3);
    {
#if VP_STARTS_AT_ONCE
        st.a = ctx::callcc(std::allocator_arg, SlotAlloc(&st.aux), AuxFn(&aux_fn));
        H d = ctx::callcc(std::allocator_arg, SlotAlloc(&st.dying), Dying(&st.fn_live));
#else
        st.a = H(std::allocator_arg, SlotAlloc(&st.aux), AuxFn(&aux_fn));
        H d(std::allocator_arg, SlotAlloc(&st.dying), Dying(&st.fn_live));
        d = std::move(d).resume();
#endif
        vp_assert(static_cast<bool>(d) && st.nlive > 0, "the context is suspended with objects on its stack");
        st.unwinding = true;
        switch (vp_pick(4)) {
        case 0: { H x(std::move(d)); } break;
        case 1: d = H(); break;
        case 2: { Slot sl{}; {
#if VP_STARTS_AT_ONCE
            H k = ctx::callcc(std::allocator_arg, SlotAlloc(&sl), Destroyer{&d});
#else
            H k(std::allocator_arg, SlotAlloc(&sl), Destroyer{&d}); k = std::move(k).resume();
#endif
            vp_assert(!k && st.done, "control returns to the destroyer"); } slot_done(sl); vp_cover("destroyed-by-context"); break; }
        case 3: { try { H x(std::move(d)); throw 5; } catch (int i) { vp_assert(i == 5, "destroying during an exception"); } break; }
        }
        vp_assert(!d, "the handle is empty");
        vp_assert(st.nlive == 0, "every object on the suspended stack was destroyed");
        vp_assert(st.resumed_after == 0, "a destroyed context does not run on");
        vp_assert(st.rethrown == (st.wayd == 2 ? 2 : 0), "handlers on the way are run");
        slot_done(st.dying); vp_assert(st.fn_live == 0, "function object destroyed once");
        for (int i = 0; i < st.nchild; ++i) { vp_assert(st.child[i].allocated == 1, "child was created"); slot_done(st.child[i]); }
        // and everything still works afterwards
        use_aux();
        st.a = H();
        slot_done(st.aux); vp_assert(aux_fn == 0 && marks == 0, "nothing left");
    }
    vp_cover("end");
}
