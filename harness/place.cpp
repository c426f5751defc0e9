// C15/C16: where the control record and the stack go, for any stack memory (symbolic address and size).
#include "common.hpp"
#include <boost/context/preallocated.hpp>
#ifndef PAYLOAD
#define PAYLOAD 8
#endif
#ifndef ALIGN
#define ALIGN 8
#endif
struct R { char* base; size_t size; char* sp; int dealloc; int used; bool pre; char* psp; size_t psize; int fn_live, al_live; char* fn_at; };
static R* r;
struct Alloc {
    Track t; alignas(ALIGN) char pad[PAYLOAD];
    Alloc() : t(&r->al_live) {}
    Alloc(Alloc const& o) : t(o.t) {}
    Alloc(Alloc&& o) noexcept : t(std::move(o.t)) {}
    ctx::stack_context allocate() {
        vp_assert(!r->pre, "allocate() is not called for preallocated memory");
        ctx::stack_context c; c.size = r->size; c.sp = r->sp; ++r->used; return c;
    }
    void deallocate(ctx::stack_context& c) noexcept {
        vp_assert(c.sp == r->sp && c.size == r->size, "the allocator receives the descriptor it supplied, unchanged");
        vp_assert(((uintptr_t)this & (alignof(Alloc) - 1)) == 0, "alignment");
        vp_assert(r->dealloc == 0, "released once"); ++r->dealloc;
        vp_region_free((char*)c.sp - c.size);
    }
};
struct Fn {
    Track t; alignas(ALIGN) unsigned char pad[PAYLOAD];
    Fn() : t(&r->fn_live) { for (unsigned i = 0; i < PAYLOAD; i += PAYLOAD - 1) pad[i] = (unsigned char)(i * 7 + 1); }
    Fn(Fn const& o) : t(o.t) { for (unsigned i = 0; i < PAYLOAD; i += PAYLOAD - 1) pad[i] = o.pad[i]; }
    Fn(Fn&& o) noexcept : t(std::move(o.t)) { for (unsigned i = 0; i < PAYLOAD; i += PAYLOAD - 1) pad[i] = o.pad[i]; }
    void check(int add) { for (unsigned i = 0; i < PAYLOAD; i += PAYLOAD - 1) vp_assert(pad[i] == (unsigned char)(i * 7 + 1 + add), "the function object is intact"); }
    H operator()(H c) {
        char* me = (char*)this; char* top = r->pre ? r->psp : r->sp;
        r->fn_at = me;
        vp_assert(((uintptr_t)me & (alignof(Fn) - 1)) == 0, "the control record is aligned for its type");
        vp_assert(me >= r->base && me + sizeof(Fn) <= top, "the control record lies inside the memory it may use");
#if !defined(BOOST_USE_WINFIB) && !defined(VP_NATIVE_RUN)
        char* lo = (char*)vp_stack_lo(); char* hi = (char*)vp_stack_hi();
        vp_assert(lo == r->base, "the usable stack reaches down to the bottom of the memory");
        vp_assert(hi <= me && hi >= lo, "the stack and the control record do not overlap");
        vp_assert((size_t)(top - hi) <= sizeof(Fn) + sizeof(Alloc) + 2048, "nearly all of the memory is usable as stack");
#endif
#ifndef BOOST_USE_WINFIB
        vp_assert(vp_on_stack(r->base, top), "the context runs inside the memory it was given");
#endif
        check(0);
        for (unsigned i = 0; i < PAYLOAD; i += PAYLOAD - 1) ++pad[i];
        c = std::move(c).resume();
        check(1);
        return c;
    }
};
extern "C" void vp_main(void) {
    san_on();
    R rr{}; r = &rr; r->pre = vp_param("pre");
    r->base = (char*)vp_region(vp_param("min"), vp_param("max"), vp_param("align"), &r->size);
    r->sp = r->base + r->size;
    uint64_t* user[2] = {nullptr, nullptr}; uint64_t val[2] = {0, 0};
    if (r->pre) {
        size_t k = vp_sym("user_bytes", 64);
        vp_assume(k <= (size_t)vp_param("maxuser"));
        r->psp = r->sp - k; r->psize = r->size - k;
        // what the user keeps above the stack pointer: a word right at it and a word anywhere above
        if (k >= 8) {
            val[0] = vp_sym("user_word0", 64); user[0] = (uint64_t*)r->psp; *user[0] = val[0];
            size_t off = vp_sym("user_off", 64); if (k >= 16) { vp_assume(off >= 8 && off <= k - 8); val[1] = vp_sym("user_word1", 64); user[1] = (uint64_t*)(r->psp + off); *user[1] = val[1]; }
            vp_cover("user-data");
        } else vp_cover("no-user-data");
    }
    int how = vp_pick(3);     // finish, unwind while suspended, never run again
    {
        ctx::stack_context sc; sc.sp = r->sp; sc.size = r->size;
#if VP_STARTS_AT_ONCE
        H c = r->pre ? ctx::callcc(std::allocator_arg, ctx::preallocated(r->psp, r->psize, sc), Alloc(), Fn())
                     : ctx::callcc(std::allocator_arg, Alloc(), Fn());
#else
        H c = r->pre ? H(std::allocator_arg, ctx::preallocated(r->psp, r->psize, sc), Alloc(), Fn())
                     : H(std::allocator_arg, Alloc(), Fn());
        if (how != 2) c = std::move(c).resume();
#endif
#if defined(BOOST_USE_WINFIB)
        vp_assert(vp_wf_last_size() == r->size, "the system fiber gets the size of the stack");
#endif
        vp_assert(r->used == (r->pre ? 0 : 1), "one stack is obtained");
        vp_assert(static_cast<bool>(c), "suspended");
#if BOOST_CONTEXT_SHADOW_STACK
        vp_assert(vp_shadow_live() == 1, "one shadow stack");
#endif
        if (how == 0) { c = std::move(c).resume(); vp_assert(!c, "finished"); }
        if (how != 0) vp_assert(r->dealloc == 0, "not released while it may still run");
        for (int i = 0; i < 2; ++i) if (user[i] && how != 0) vp_assert(*user[i] == val[i], "the user's objects in the memory are intact");
    }
#if BOOST_CONTEXT_SHADOW_STACK
    vp_assert(vp_shadow_live() == 0, "the shadow stack is unmapped");
#endif
    vp_assert(r->dealloc == 1 && r->fn_live == 0 && r->al_live == 0, "released once");
    vp_cover("end");
}
