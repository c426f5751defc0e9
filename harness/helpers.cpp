// C25: the library's own invoke / apply / exchange / tuple head and tail against the standard ones: same result, same copies and moves,
// same exceptions, for every value, value category and place at which a copy throws.
#include "vp.h"
#include <functional>
#include <tuple>
#include <array>
#include <memory>
#include <utility>
#include <type_traits>
#include <boost/context/detail/invoke.hpp>
#include <boost/context/detail/apply.hpp>
#include <boost/context/detail/exchange.hpp>
#include <boost/context/detail/tuple.hpp>
namespace bd = boost::context::detail;
#if __cplusplus >= 201703L
namespace ref {
template<class F, class... A> decltype(auto) invoke(F&& f, A&&... a) { return std::invoke(std::forward<F>(f), std::forward<A>(a)...); }
template<class F, class T> decltype(auto) apply(F&& f, T&& t) { return std::apply(std::forward<F>(f), std::forward<T>(t)); }
using std::exchange;
}
#else
namespace ref {
template<class F, class... A> auto invoke(F&& f, A&&... a) -> decltype(std::__invoke(std::forward<F>(f), std::forward<A>(a)...)) { return std::__invoke(std::forward<F>(f), std::forward<A>(a)...); }
template<class F, class T> auto ap(F&& f, T&& t, std::integral_constant<size_t, 0>) -> decltype(std::__invoke(std::forward<F>(f))) { return std::__invoke(std::forward<F>(f)); }
template<class F, class T> auto ap(F&& f, T&& t, std::integral_constant<size_t, 2>) -> decltype(std::__invoke(std::forward<F>(f), std::get<0>(std::forward<T>(t)), std::get<1>(std::forward<T>(t))))
{ return std::__invoke(std::forward<F>(f), std::get<0>(std::forward<T>(t)), std::get<1>(std::forward<T>(t))); }
template<class F, class T> auto ap(F&& f, T&& t, std::integral_constant<size_t, 3>) -> decltype(std::__invoke(std::forward<F>(f), std::get<0>(std::forward<T>(t)), std::get<1>(std::forward<T>(t)), std::get<2>(std::forward<T>(t))))
{ return std::__invoke(std::forward<F>(f), std::get<0>(std::forward<T>(t)), std::get<1>(std::forward<T>(t)), std::get<2>(std::forward<T>(t))); }
template<class F, class T> auto apply(F&& f, T&& t) -> decltype(ap(std::forward<F>(f), std::forward<T>(t), std::integral_constant<size_t, std::tuple_size<typename std::decay<T>::type>::value>()))
{ return ap(std::forward<F>(f), std::forward<T>(t), std::integral_constant<size_t, std::tuple_size<typename std::decay<T>::type>::value>()); }
template<class T, class U = T> T exchange(T& t, U&& u) { T old = std::move(t); t = std::forward<U>(u); return old; }
}
#endif
#if defined(NO_MOVE_ONLY)       // a tree in which move-only types do not compile is still checked for the rest
# define MO(...)
#else
# define MO(...) __VA_ARGS__
#endif
// ------------------------------------------------------------------ what happened
struct Log { int n; int k[96]; uint64_t v[96]; bool threw; };
static Log* L; static int countdown;
static void rec(int k, uint64_t v = 0) { vp_assert(L->n < 96, "log"); L->k[L->n] = k; L->v[L->n] = v; ++L->n; }
struct Err { int at; };
static void may_throw() { if (countdown > 0 && --countdown == 0) throw Err{1}; }
enum { CC = 1, MC, CA, MA, DT, CV, CALL };
struct V {
    uint64_t v;
    explicit V(uint64_t x) : v(x) {}
    V() : v(7) {}
    V(V const& o) : v(o.v) { rec(CC, v); may_throw(); }
    V(V&& o) : v(o.v) { rec(MC, v); may_throw(); o.v = 1; }
    V& operator=(V const& o) { rec(CA, o.v); may_throw(); v = o.v; return *this; }
    V& operator=(V&& o) { rec(MA, o.v); may_throw(); v = o.v; if (&o != this) o.v = 2; return *this; }
    V& operator=(unsigned o) { rec(CV, o); may_throw(); v = o; return *this; }
    ~V() { rec(DT, v); }
};
struct M {      // move only
    uint64_t v;
    explicit M(uint64_t x) : v(x) {}
    M(M&& o) : v(o.v) { rec(MC, v); may_throw(); o.v = 3; }
    M& operator=(M&& o) { rec(MA, o.v); may_throw(); v = o.v; o.v = 4; return *this; }
    ~M() { rec(DT, v); }
};
template<class T> static int cat() { return std::is_lvalue_reference<T>::value ? (std::is_const<typename std::remove_reference<T>::type>::value ? 2 : 1) : std::is_const<typename std::remove_reference<T>::type>::value ? 4 : 3; }
struct F {      // a callable that records how it and its arguments arrive, and what happens to it
    uint64_t id;
    explicit F(uint64_t x) : id(x) {}
    F(F const& o) : id(o.id) { rec(CC + 200, id); may_throw(); }
    F(F&& o) : id(o.id) { rec(MC + 200, id); may_throw(); o.id = 3; }
    ~F() { rec(DT + 200, id); }
    template<class... A> uint64_t go(int q, A&&... a) const { rec(CALL + 10 * q, id); int x[] = {0, (rec(100 + cat<A&&>(), a.v), 0)...}; (void)x; may_throw(); return id + q; }
    template<class... A> uint64_t operator()(A&&... a) & { return go(1, std::forward<A>(a)...); }
    template<class... A> uint64_t operator()(A&&... a) const & { return go(2, std::forward<A>(a)...); }
    template<class... A> uint64_t operator()(A&&... a) && { return go(3, std::forward<A>(a)...); }
    template<class... A> uint64_t operator()(A&&... a) const && { return go(4, std::forward<A>(a)...); }
};
struct ByVal { uint64_t operator()(V a, V b) const { rec(CALL, a.v); may_throw(); return a.v ^ b.v; } };
struct Ret { V& operator()(V& a, V) const { rec(CALL, a.v); return a; } };
struct RetM { M operator()(M a, M b) const { rec(CALL, b.v); return a; } };
static V* gv;
static void plain(V a, V const& b) { rec(CALL, a.v); gv->v = b.v; may_throw(); }
struct O {
    V m;
    explicit O(uint64_t x) : m(x) {}
    uint64_t f(V a) { rec(CALL + 1, a.v); may_throw(); return m.v + a.v; }
    uint64_t c(V const& a) const { rec(CALL + 2, a.v); return m.v - a.v; }
    V const& r() const { rec(CALL + 3, m.v); return m; }
    void l(V&& a) & { rec(CALL + 4, a.v); m = std::move(a); }
    M g(M a) { rec(CALL + 5, a.v); return a; }
};
struct D : O { using O::O; explicit D(uint64_t x) : O(x) {} };
struct P { O* p; O& operator*() const { rec(50, p->m.v); return *p; } };     // pointer-like
// ------------------------------------------------------------------ the two sides
struct Boost {
    template<class F, class... A> static auto invoke(F&& f, A&&... a) -> decltype(bd::invoke(std::forward<F>(f), std::forward<A>(a)...)) { return bd::invoke(std::forward<F>(f), std::forward<A>(a)...); }
    template<class F, class T> static auto apply(F&& f, T&& t) -> decltype(bd::apply(std::forward<F>(f), std::forward<T>(t))) { return bd::apply(std::forward<F>(f), std::forward<T>(t)); }
    template<class T, class U = T> static auto exchange(T& t, U&& u) -> decltype(bd::exchange(t, std::forward<U>(u))) { return bd::exchange(t, std::forward<U>(u)); }
    template<class T, class S> static void head(T& t, S&& s) { bd::head(t) = std::forward<S>(s); }
    template<class T, class S> static void tail(T& t, S&& s) { bd::tail(t) = std::forward<S>(s); }
};
struct Std {
    template<class F, class... A> static auto invoke(F&& f, A&&... a) -> decltype(ref::invoke(std::forward<F>(f), std::forward<A>(a)...)) { return ref::invoke(std::forward<F>(f), std::forward<A>(a)...); }
    template<class F, class T> static auto apply(F&& f, T&& t) -> decltype(ref::apply(std::forward<F>(f), std::forward<T>(t))) { return ref::apply(std::forward<F>(f), std::forward<T>(t)); }
    template<class T, class U = T> static auto exchange(T& t, U&& u) -> decltype(ref::exchange(t, std::forward<U>(u))) { return ref::exchange(t, std::forward<U>(u)); }
};
template<class T> static uint64_t val(T const& x) { return x.v; }
static uint64_t val(uint64_t x) { return x; }
template<class T> static void out(T&& x) { rec(200 + cat<T&&>(), val(x)); }
static uint64_t s0, s1, s2;
// one scenario, run with either side
template<class X> static void scenario(int n) {
    V a(s0), b(s1), c(s2); V const ca(s0), cb(s1); gv = &c;
    F f{s2}; F const cf{s2};
    O o(s1); O const co(s1); D d(s2); P p{&o};
    switch (n) {
    case 0: out(X::invoke(f, a, cb)); break;
    case 1: out(X::invoke(cf, std::move(a), b)); break;
    case 2: out(X::invoke(std::move(f), ca, std::move(b))); break;
    case 3: out(X::invoke(std::move(cf), std::move(ca), V(s2))); break;
    case 4: out(X::invoke(f)); break;
    case 5: out(X::invoke(ByVal(), a, std::move(b))); break;
    case 6: { auto&& r = X::invoke(Ret(), a, b); out(std::forward<decltype(r)>(r)); rec(60, &r == &a); } break;
MO(case 7: out(X::invoke(RetM(), M(s0), M(s1))); break;)
    case 8: X::invoke(plain, a, std::move(b)); break;
    case 9: X::invoke(&plain, std::move(a), cb); break;
    case 10: out(X::invoke(&O::f, o, a)); break;
    case 11: out(X::invoke(&O::f, &o, std::move(a))); break;
    case 12: out(X::invoke(&O::f, std::ref(o), ca)); break;
    case 13: out(X::invoke(&O::f, p, a)); break;
    case 14: out(X::invoke(&O::f, d, std::move(a))); break;
    case 15: out(X::invoke(&O::f, O(s2), a)); break;
    case 16: out(X::invoke(&O::c, co, a)); break;
    case 17: out(X::invoke(&O::c, &co, V(s0))); break;
    case 18: { auto&& r = X::invoke(&O::r, co); out(r); rec(60, &r == &co.m); } break;
    case 19: X::invoke(&O::l, o, std::move(a)); break;
    case 20: { auto&& r = X::invoke(&O::m, o); out(std::forward<decltype(r)>(r)); rec(60, &r == &o.m); } break;
    case 21: { auto&& r = X::invoke(&O::m, co); out(std::forward<decltype(r)>(r)); rec(60, &r == &co.m); } break;
    case 22: { auto&& r = X::invoke(&O::m, std::move(o)); out(std::forward<decltype(r)>(r)); rec(60, &r == &o.m); } break;
    case 23: { auto&& r = X::invoke(&O::m, &d); out(std::forward<decltype(r)>(r)); rec(60, &r == &d.m); } break;
    case 24: { V t(X::invoke(&O::m, std::move(d))); out(t); } break;
    case 25: { uint64_t (O::*pm)(V) = &O::f; out(X::invoke(pm, o, b)); } break;
MO(case 26: out(X::invoke(&O::g, o, M(s0))); break;)
    case 27: { std::function<uint64_t(V&, V)> g = ByVal(); out(X::invoke(g, a, std::move(b))); } break;
    // apply
    case 30: { std::tuple<V, V> t(a, b); rec(70); out(X::apply(f, t)); out(X::apply(cf, std::move(t))); } break;
    case 31: { std::tuple<V, V> const t(a, b); rec(70); out(X::apply(std::move(f), t)); out(X::apply(f, std::move(t))); } break;
    case 32: { std::tuple<V&, V const&> t(a, b); rec(70); out(X::apply(f, t)); out(X::apply(f, std::move(t))); } break;
    case 33: { std::tuple<V&&, V> t(std::move(a), b); rec(70); out(X::apply(f, std::move(t))); } break;
    case 34: out(X::apply(f, std::tuple<>())); break;
    case 35: { std::pair<V, V> t(a, b); rec(70); out(X::apply(ByVal(), t)); out(X::apply(ByVal(), std::move(t))); } break;
    case 36: { std::array<V, 3> t{{a, b, c}}; rec(70); out(X::apply(f, t)); out(X::apply(f, std::move(t))); } break;
MO(case 37: out(X::apply(RetM(), std::tuple<M, M>(M(s0), M(s1)))); break;)
    case 38: { auto&& r = X::apply(Ret(), std::tuple<V&, V>(a, b)); out(r); rec(60, &r == &a); } break;
    case 39: X::apply(&O::l, std::tuple<O&, V>(o, a)); break;
    case 40: out(X::apply(&O::f, std::make_tuple(&o, std::ref(a)))); break;
    case 41: out(X::apply(f, std::tuple<V, V, V>(a, b, c))); break;
    case 42: { std::tuple<V, V> t(a, b); rec(70); X::apply(plain, t); } break;
    // exchange
    case 50: out(X::exchange(a, b)); break;
    case 51: out(X::exchange(a, std::move(b))); break;
    case 52: out(X::exchange(a, cb)); break;
    case 53: out(X::exchange(a, (unsigned)s1)); break;
MO(case 54: { M m(s0); out(X::exchange(m, M(s1))); out(m); } break;)
    case 55: out(X::exchange(a, {})); break;
    case 56: out(X::exchange(a, V(s2))); break;
    case 57: { uint64_t x = s0; out(X::exchange(x, s1)); rec(61, x); uint32_t y = (uint32_t)s0; out((uint64_t)X::exchange(y, s1)); rec(61, y); } break;
    case 58: { uint64_t* x = &s0; uint64_t* old = X::exchange(x, nullptr); rec(61, old == &s0); rec(61, x == nullptr); } break;
    default: break;
    }
    rec(80, a.v); rec(80, b.v); rec(80, c.v); rec(80, o.m.v); rec(80, d.m.v);
}
template<class X> static void run(Log& l, int n, int cd) {
    l.n = 0; l.threw = false; L = &l; countdown = cd;
    try { scenario<X>(n); } catch (Err const&) { l.threw = true; }
    countdown = 0;
}
static int count(int k) { int n = 0; for (int i = 0; i < L->n; ++i) n += L->k[i] == k; return n; }
// head / tail: T... receives the first / last elements of the source
static void tuples() {
    Log l; l.n = 0; l.threw = false; L = &l; countdown = 0;
    typedef std::tuple<V, V, V> S3; typedef std::tuple<V, V> S2; typedef std::tuple<V> S1; typedef std::tuple<> S0;
    S3 s(V{s0}, V{s1}, V{s2}); S2 t2(V{11}, V{12}); S1 t1(V{13}); S3 t3(V{14}, V{15}, V{16}); S0 t0; std::tuple<V, uint64_t> mixed(V{17}, 18); std::tuple<uint64_t, V, uint64_t> sm(s0, V{s1}, s2);
    uint64_t want[3] = {s0, s1, s2}, got[3]; int n = 0; bool rv = vp_pick(2), tail = vp_pick(2);
    int size = vp_pick(5);
    uint64_t before[3] = {std::get<0>(s).v, std::get<1>(s).v, std::get<2>(s).v};
    l.n = 0; L = &l;
    switch (size) {
    case 0: if (tail) { if (rv) Boost::tail(t0, std::move(s)); else Boost::tail(t0, s); } else { if (rv) Boost::head(t0, std::move(s)); else Boost::head(t0, s); } break;
    case 1: if (tail) { if (rv) Boost::tail(t1, std::move(s)); else Boost::tail(t1, s); } else { if (rv) Boost::head(t1, std::move(s)); else Boost::head(t1, s); }
        got[0] = std::get<0>(t1).v; n = 1; break;
    case 2: if (tail) { if (rv) Boost::tail(t2, std::move(s)); else Boost::tail(t2, s); } else { if (rv) Boost::head(t2, std::move(s)); else Boost::head(t2, s); }
        got[0] = std::get<0>(t2).v; got[1] = std::get<1>(t2).v; n = 2; break;
    case 3: if (tail) { if (rv) Boost::tail(t3, std::move(s)); else Boost::tail(t3, s); } else { if (rv) Boost::head(t3, std::move(s)); else Boost::head(t3, s); }
        got[0] = std::get<0>(t3).v; got[1] = std::get<1>(t3).v; got[2] = std::get<2>(t3).v; n = 3; break;
    case 4: {   // elements of different types
        if (tail) { if (rv) Boost::tail(mixed, std::move(sm)); else Boost::tail(mixed, sm); got[0] = std::get<0>(mixed).v; got[1] = std::get<1>(mixed); vp_assert(got[0] == s1 && got[1] == s2, "tail of a mixed tuple"); }
        else { std::tuple<uint64_t, V> h(19, V{20}); if (rv) Boost::head(h, std::move(sm)); else Boost::head(h, sm); vp_assert(std::get<0>(h) == s0 && std::get<1>(h).v == s1, "head of a mixed tuple"); }
        vp_assert(count(CC) + count(CA) == (rv ? 0 : 1), "one copy per element of an lvalue tuple, none of an rvalue");
        if (!rv) vp_assert(std::get<1>(sm).v == s1, "an lvalue tuple is left as it was");
    } break;
    }
    for (int i = 0; i < n; ++i) vp_assert(got[i] == want[tail ? 3 - n + i : i], "every element receives the corresponding element of the source");
    if (size < 4) {
        vp_assert(count(CC) + count(CA) == (rv ? 0 : n), "one copy per element of an lvalue tuple, none of an rvalue");
        for (int i = 0; i < 3; ++i) {
            uint64_t now = i == 0 ? std::get<0>(s).v : i == 1 ? std::get<1>(s).v : std::get<2>(s).v;
            bool taken = tail ? i >= 3 - n : i < n;
            if (!rv || !taken) vp_assert(now == before[i], "elements that were not moved are left as they were");
        }
    }
#if !defined(NO_MOVE_ONLY)
    // move-only elements can be taken from an rvalue tuple
    std::tuple<M, M> ms(M{s0}, M{s1}); std::tuple<M> mt(M{21});
    if (tail) Boost::tail(mt, std::move(ms)); else Boost::head(mt, std::move(ms));
    vp_assert(std::get<0>(mt).v == (tail ? s1 : s0), "move-only element");
#endif
    vp_cover(tail ? "tail" : "head");
    L = &l; l.n = 0;
}
extern "C" void vp_main(void) {
    s0 = vp_sym("a", 64); s1 = vp_sym("b", 64); s2 = vp_sym("c", 64);
    static const int lo[] = {0, 30, 50}, hi[] = {28, 43, 59};
    int g = vp_pick(4);
    if (g == 3) { static Log junk; L = &junk; tuples(); L = &junk; junk.n = 0; vp_cover("end"); return; }
    int n = lo[g] + vp_pick(hi[g] - lo[g]);
    int cd = vp_pick(vp_param("throws") + 1);      // the cd-th copy, move or call throws
    static Log x, y;
    run<Boost>(x, n, cd); run<Std>(y, n, cd);
    vp_assert(x.threw == y.threw, "the same exceptions leave");
    if (x.threw) vp_cover("threw");
    vp_assert(x.n == y.n, "the same number of copies, moves, calls and destructions");
    bool kinds = true; for (int i = 0; i < x.n; ++i) kinds &= x.k[i] == y.k[i];
    vp_assert(kinds, "the same copies, moves, calls and value categories in the same order");
    for (int i = 0; i < x.n; ++i) vp_assert(x.v[i] == y.v[i], "the same values");
    vp_cover(g == 0 ? "invoke" : g == 1 ? "apply" : "exchange");
    vp_cover("end");
}
