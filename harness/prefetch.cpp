// C32: prefetch_range() over every address and length: hints inside the range only, one in every stride of it, and an end
#include "vp.h"
#include <boost/context/detail/config.hpp>
namespace boost { namespace context { namespace detail { } } }
using namespace boost::context;
using namespace boost::context::detail;                // wherever the constants are
static void hint(const volatile void* p);
#define __builtin_prefetch(p, ...) hint(p)
#define _mm_prefetch(p, h) hint(p)
#include <boost/context/detail/prefetch.hpp>
namespace bd = boost::context::detail;
static uint64_t at[24], a, len; static int n, most;
static void hint(const volatile void* p) {
    if (n == most) { vp_cover("long"); vp_stop(); }     // a longer range: its first strides were right
    at[n] = (uint64_t)(uintptr_t)p;
    if (most > 1) {
        vp_assert(at[n] >= a && at[n] - a < len, "hints lie in the range");
        vp_assert((uint64_t)n < (len + prefetch_stride - 1) / prefetch_stride, "no more hints than strides");
    }
    ++n;
}
extern "C" void vp_main(void) {
    uint64_t stride = prefetch_stride;
    vp_assert(stride > 0, "a stride");
    a = vp_sym("address", 64); len = vp_sym("length", 64);
    vp_assume(a < (1ull << 63) && len < (1ull << 63)); // user space
    most = vp_pick(2) ? 1 : vp_param("strides");
    if (most == 1) {
        bd::prefetch((void*)(uintptr_t)a);
        vp_assert(n == 1 && at[0] == a, "prefetch() hints at its argument");
        vp_cover("one"); return;
    }
    bd::prefetch_range((void*)(uintptr_t)a, len);
    vp_assert((uint64_t)n <= (len + stride - 1) / stride, "no more hints than strides");
    if (len) {                                         // any byte of the range lies within a stride behind a hint
        uint64_t b = vp_sym("byte", 64); vp_assume(b < len);
        bool near = false;
        for (int i = 0; i < n; ++i) near = near | ((a + b >= at[i]) & (a + b - at[i] < stride));
        vp_assert(near, "every stride of the range is hinted");
        vp_cover("range");
    }
    else vp_cover("empty");
    vp_log("hints", n);
    vp_cover("end");
}
