// C24: two threads asking at once, as the first, get the system's values
#include "vp.h"
#include <boost/context/stack_traits.hpp>
typedef boost::context::stack_traits T;
struct R { bool unb; size_t max, page, def, min; };
static void ask(void* p) {
    R* r = (R*)p; r->page = T::page_size(); r->unb = T::is_unbounded(); r->max = r->unb ? 0 : T::maximum_size(); r->def = T::default_size(); r->min = T::minimum_size();
}
extern "C" void vp_main(void) {
    uint64_t lim = vp_sym("limit", 64), soft = vp_sym("soft", 64); vp_assume(soft <= lim); vp_set_rlimit(soft, lim);
    uint64_t page = 1ull << (12 + vp_pick(3)); vp_set_pagesize(page);
    int t1 = vp_thread_new(), t2 = vp_thread_new();
    static R a, b;
    vp_par(t1, ask, &a, t2, ask, &b, vp_param("switches"));
    R* r[2] = {&a, &b};
    for (int k = 0; k < 2; ++k) {
        vp_assert(r[k]->page == page, "the page size is the system's");
        vp_assert(r[k]->unb == (lim == ~0ull) && (r[k]->unb || r[k]->max == lim), "the maximum is the hard limit");
        vp_assert(r[k]->def >= 128 * 1024 && r[k]->def >= r[k]->min, "default size");
    }
    vp_thread_exit(t1); vp_thread_exit(t2);
    vp_cover("end");
}
