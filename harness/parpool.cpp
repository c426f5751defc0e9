// C22: copies of a pooled allocator used, copied and dropped by two threads at once: the last one releases the pool, once.
#include "common.hpp"
#include <new>
#include <utility>
#include <boost/context/pooled_fixedsize_stack.hpp>
typedef ctx::pooled_fixedsize_stack A;
struct T { A* a; int what; ctx::stack_context s; H* f; };
static void body(void* p) {
    T* t = (T*)p;
    switch (t->what) {
    case 0: t->a->~A(); break;                                   // drop
    case 1: { A b(*t->a); t->a->~A(); } break;                   // copy, drop both
    case 2: { A b(std::move(*t->a)); A c(b); t->a->~A(); } break;
    default: { A b(*t->a); A c(*t->a); b = c; } t->a->~A(); break;
    }
}
static void fbody(void* p) { T* t = (T*)p; if (t->what & 1) *t->f = std::move(*t->f).resume(); *t->f = H(); t->f->~H(); }
extern "C" void vp_main(void) {
    size_t live0 = vp_heap_live();
    int t1 = vp_thread_new(), t2 = vp_thread_new();
    alignas(A) static char mem[3][sizeof(A)]; alignas(H) static char hm[1][sizeof(H)];
    A* a[3] = {(A*)mem[0], (A*)mem[1], (A*)mem[2]};
    new (mem[0]) A(65536, 1 + vp_pick(2));
    bool keep = vp_pick(2);
    T x{a[0], 0, {}, 0}, y{a[1], 0, {}, 0};
    if (vp_param("fibers")) {                                    // one allocator held by a context that ends on one thread, the last other one dropped on the other (pools do not serialise allocation)
        H* h = (H*)hm[0];
#if defined(VP_CONT)
        new (h) H(ctx::callcc(std::allocator_arg, *a[0], [](H c) { return std::move(c).resume(); }));
#else
        new (h) H(std::allocator_arg, *a[0], [](H c) { return c; });
#endif
        if (keep) new (mem[2]) A(*a[0]);
        x.f = h; x.what = vp_pick(2); y.a = a[0]; y.what = vp_pick(4);
        vp_par(t1, fbody, &x, t2, body, &y, vp_param("switches"));
        if (keep) { vp_assert(vp_heap_live() > live0, "the pool lives as long as an allocator"); a[2]->~A(); }
    } else {
        new (mem[1]) A(*a[0]);
        x.what = vp_pick(4); y.what = vp_pick(4);
        ctx::stack_context s;
        if (keep) { new (mem[2]) A(*a[1]); s = a[2]->allocate(); }
        vp_par(t1, body, &x, t2, body, &y, vp_param("switches"));
        if (keep) { vp_assert(vp_heap_live() > live0, "the pool lives as long as an allocator"); a[2]->deallocate(s); a[2]->~A(); }
    }
    if (!vp_param("fibers")) vp_assert(vp_heap_live() == live0, "all memory of the pool is released, once");       // (else: nothing may be left when the program ends)
    vp_thread_exit(t1); vp_thread_exit(t2);
    vp_cover("end");
}
