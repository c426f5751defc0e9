// C24: stack size queries, for any page size, any stack limits, any order of the queries, limits changing in between.
#include "vp.h"
#include <boost/context/stack_traits.hpp>
#include <limits>
#if !defined(VP_WIN)
# include <sys/resource.h>
#endif
typedef boost::context::stack_traits T;
extern "C" void vp_main(void) {
    uint64_t page = vp_pages(1024, 1 << 21);
    uint64_t cur = vp_sym("soft_limit", 64), mx = vp_sym("hard_limit", 64), msig = vp_sym("minsigstksz", 64);
    vp_assume(cur <= mx);
    vp_assume(msig >= 2048 && msig <= 128 * 1024);
    vp_set_rlimit(cur, mx); vp_set_minsig(msig);
    bool kp = false, ku = false, kd = false, kmin = false, km = false; size_t vp = 0, vd = 0, vmin = 0, vm = 0; bool vu = false;
    const int n = vp_param("queries");
    for (int k = 0; k < n; ++k) {
        switch (vp_pick(5)) {
        case 0: { size_t p = T::page_size(); vp_assert(p == page, "the page size is the system's"); vp_assert(!kp || p == vp, "repeated queries agree (page size)"); kp = true; vp = p; vp_cover("page"); } break;
        case 1: { bool u = T::is_unbounded();
#if defined(VP_WIN)
            vp_assert(u, "stacks are unbounded on Windows");
#else
            if (!ku && !km) vp_assert(u == (mx == RLIM_INFINITY), "unbounded exactly when the hard limit is infinite");
            vp_cover(u ? "unbounded" : "bounded");
#endif
            vp_assert(!ku || u == vu, "repeated queries agree (unbounded)"); ku = true; vu = u; } break;
        case 2: { size_t d = T::default_size(); vp_assert(d >= 128 * 1024, "the default size is at least 128 KiB");
            vp_assert(d >= T::minimum_size(), "the default size is at least the minimum size"); vp_assert(!kd || d == vd, "repeated queries agree (default)"); kd = true; vd = d; } break;
        case 3: { size_t m = T::minimum_size(); vp_assert(m > 0, "minimum"); vp_assert(!kmin || m == vmin, "repeated queries agree (minimum)"); kmin = true; vmin = m; vp_assert(m <= T::default_size(), "minimum <= default"); } break;
        default:
#if !defined(VP_WIN)
            { bool u = T::is_unbounded(); if (!ku) { vp_assert(u == (mx == RLIM_INFINITY), "unbounded exactly when the hard limit is infinite"); ku = true; vu = u; }
              vp_assert(u == vu, "repeated queries agree (unbounded)");
              if (!u) { size_t m = T::maximum_size(); vp_assert(m == mx, "the maximum size is the hard limit"); vp_assert(!km || m == vm, "repeated queries agree (maximum)"); km = true; vm = m; vp_cover("maximum"); } }
#endif
            break;
        }
#if !defined(VP_WIN)
        if (ku && vp_param("change") && vp_pick(2)) {      // the process changes its limits: what was reported stays
            uint64_t c2 = vp_sym("soft_limit2", 64), m2 = vp_sym("hard_limit2", 64); vp_assume(c2 <= m2 && m2 <= mx);
            vp_set_rlimit(c2, m2); vp_cover("changed");
        }
#endif
    }
    vp_cover("end");
}
