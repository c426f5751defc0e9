// C14: an exception of any kind that leaves a context function, from anywhere, ends the process.
#include "common.hpp"
#include <stdexcept>
#include <system_error>
#include <exception>
struct Own { int v; };
struct Derived : std::exception { };
static int fns; static Slot slot, other;
static bool entered, left;
static void boom() {
    vp_expect_terminate(1); vp_log("boom", 0);
    switch (vp_pick(9)) {
    case 0: throw 42;
    case 1: throw "text";
    case 2: throw std::bad_alloc();
    case 3: throw std::runtime_error("x");
    case 4: throw std::logic_error("x");
    case 5: throw std::system_error(std::error_code(5, std::system_category()), "x");
    case 6: throw Own{3};
    case 7: throw Derived();
    default: throw nullptr;
    }
}
enum { AT_ONCE, AFTER_RESUME, NESTED, WHILE_UNWINDING, REPLACED, ONTOP, ONTOP_FRESH, IN_HANDLER, WHERES };
struct Fn {
    int where; Track t;
    explicit Fn(int w) : where(w), t(&fns) {}
    H operator()(H c) {
        entered = true; vp_log("in", where);
        struct Leave { ~Leave() { left = true; } } leave;
        switch (where) {
        case AT_ONCE: boom(); break;
        case NESTED: try { try { boom(); } catch (long) { vp_fail("caught as another type"); } } catch (...) { throw; } break;
        case IN_HANDLER: try { throw 1; } catch (int) { boom(); } break;
        case WHILE_UNWINDING: try { c = std::move(c).resume(); } catch (...) { boom(); } break;      // destroyed: its cleanup fails
        case REPLACED: { struct D { ~D() noexcept(false) { } } d; try { c = std::move(c).resume(); } catch (std::exception const&) { vp_fail("unwinding is no std::exception"); }
                         boom(); break; }
        default: c = std::move(c).resume(); if (where == AFTER_RESUME) boom(); break;                   // ONTOP: thrown out of resume()
        }
        return c;
    }
};
static H make(int w) {
#if VP_STARTS_AT_ONCE
    return ctx::callcc(std::allocator_arg, SlotAlloc(&slot), Fn(w));
#else
    H h(std::allocator_arg, SlotAlloc(&slot), Fn(w));
    if (w != ONTOP_FRESH) h = std::move(h).resume();
    return h;
#endif
}
struct Runner {      // the same from inside another context
    int w;
    H operator()(H c) {
        try {
            H h = make(w);
            if (w == AFTER_RESUME || w == REPLACED) h = std::move(h).resume();
            if (w == ONTOP || w == ONTOP_FRESH) h = std::move(h).resume_with([](H x) -> H { boom(); return x; });
            if (w == WHILE_UNWINDING) h = H();
        } catch (...) { vp_fail("the exception reached the resumer"); }
        vp_fail("the context ended silently");
        return c;
    }
};
extern "C" void vp_main(void) {
    san_on();
    int w = vp_pick(WHERES);
    vp_log("where", w);
    if (VP_STARTS_AT_ONCE && w == ONTOP_FRESH) vp_stop();
    vp_cover(w == ONTOP || w == ONTOP_FRESH ? "on-top" : w == WHILE_UNWINDING ? "unwinding" : "function");
    try {
        if (vp_pick(2)) {
            vp_cover("inner");
#if VP_STARTS_AT_ONCE
            H k = ctx::callcc(std::allocator_arg, SlotAlloc(&other), Runner{w});
#else
            H k(std::allocator_arg, SlotAlloc(&other), Runner{w}); k = std::move(k).resume();
#endif
        } else {
            Runner r{w}; r(H());
        }
    } catch (...) { vp_fail("the exception reached the resumer"); }
    vp_fail("the context ended silently");
}
