#ifndef VP_COMMON_HPP
#define VP_COMMON_HPP
#include "vp.h"
#include <utility>
#include <new>
#ifdef VP_CONT
# include <boost/context/continuation.hpp>
namespace ctx = boost::context;
typedef ctx::continuation H;
#else
# include <boost/context/fiber.hpp>
namespace ctx = boost::context;
typedef ctx::fiber H;
#endif
#if defined(VP_CONT)
# define VP_STARTS_AT_ONCE 1          // creating a continuation enters it
#else
# define VP_STARTS_AT_ONCE 0
#endif

#if defined(BOOST_USE_SEGMENTED_STACKS)
# include <boost/context/segmented_stack.hpp>
#endif
// a stack of concrete size: plain memory, or what the library's segmented allocator gives
static inline ctx::stack_context take_stack(size_t size) {
#if defined(BOOST_USE_SEGMENTED_STACKS)
    return ctx::segmented_stack(size).allocate();
#else
    ctx::stack_context c; c.size = size; c.sp = (char*)vp_region_concrete(size) + size;
    return c;
#endif
}
static inline void drop_stack(ctx::stack_context& c) {
#if defined(BOOST_USE_SEGMENTED_STACKS)
    vp_assert((char*)vp_split_base(c.segments_ctx) + vp_split_size(c.segments_ctx) == (char*)c.sp, "released with the segment context of this stack");
    int n = vp_split_live();
    ctx::segmented_stack(0).deallocate(c);
    vp_assert(vp_split_live() == n - 1, "the segments are released");
#else
    vp_region_free((char*)c.sp - c.size);
#endif
}
static inline void san_on() {
#if defined(BOOST_USE_SEGMENTED_STACKS)
    vp_split_on();
#endif
#if defined(BOOST_USE_ASAN)
    vp_asan_on();
#endif
#if defined(BOOST_USE_TSAN)
    vp_tsan_on();
#endif
#if BOOST_CONTEXT_SHADOW_STACK
    vp_shadow_on();
#endif
}

// counts the live instances the library makes of the objects handed to it (the original does not count)
struct Track {
    int* n; bool counted; volatile bool dead;
    explicit Track(int* p) : n(p), counted(false), dead(false) {}
    Track(Track const& o) : n(o.n), counted(true), dead(false) { o.use(); ++*n; }
    Track(Track&& o) noexcept : n(o.n), counted(true), dead(false) { o.use(); ++*n; }
    Track& operator=(Track const&) = delete;
    ~Track() { use(); dead = true; if (counted) --*n; }
    void use() const { vp_assert(!dead, "a destroyed object is not used"); }
};
// stack allocator that remembers what it handed out, one slot per context
struct Slot { void* base; size_t size; void* sp; int allocated, deallocated, copies; };
struct SlotAlloc {
    Slot* s; Track t;
    explicit SlotAlloc(Slot* x) : s(x), t(&x->copies) {}
    ctx::stack_context allocate() {
        t.use();
        ctx::stack_context c = take_stack(65536);
        s->size = c.size; s->base = (char*)c.sp - c.size; s->sp = c.sp; ++s->allocated;
        return c;
    }
    void deallocate(ctx::stack_context& c) noexcept {
        t.use();
        vp_assert(c.sp == s->sp && c.size == s->size, "stack released with the descriptor it was created with");
        vp_assert(s->deallocated < s->allocated, "stack released once");
        ++s->deallocated;
        drop_stack(c);
    }
};
static inline void slot_done(Slot const& s) {
    vp_assert(s.allocated == s.deallocated, "stack of an ended context is released exactly once");
    vp_assert(s.copies == 0, "allocator copies of an ended context are destroyed exactly once");
}
#endif
