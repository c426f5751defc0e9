// C08: handle variables and a ghost owner map, under any sequence of handle operations.
#include "common.hpp"
#include <ostream>
#ifdef VP_NATIVE_RUN
#include <sstream>
#endif
enum { NV = 3, NC = 2 };
struct S { H v[NV]; int own[NV]; int next[NC + 1]; int alive[NC + 1]; int runs[NC + 1]; bool ended[NV]; bool stop; void* watch; int watched; };
static S* s;
struct Fn {
    int k;
    H operator()(H c) {
#if VP_STARTS_AT_ONCE
        c = std::move(c).resume();
#endif
        for (;;) {
            vp_assert(s->watch == nullptr || !*static_cast<H*>(s->watch), "resuming empties the handle before control leaves");
            ++s->runs[k];
            if (s->stop) return c;
            c = std::move(c).resume();
        }
    }
};
static void check() {
    for (int i = 0; i < NV; ++i) {
        vp_assert(static_cast<bool>(s->v[i]) == (s->own[i] != 0), "a handle tests true exactly when it denotes a suspended context");
        vp_assert(!s->v[i] == (s->own[i] == 0), "operator! is the opposite of the test");
        vp_assert(!(s->v[i] < s->v[i]), "ordering is irreflexive");
        for (int j = 0; j < NV; ++j) {
            bool a = s->v[i] < s->v[j], b = s->v[j] < s->v[i];
            vp_assert(!(a && b), "ordering is asymmetric");
            if (i != j && (s->own[i] || s->own[j])) vp_assert(a || b, "distinct handles are ordered");
            // what is left of a context that has returned may still be told apart from a handle never used
            if (!s->own[i] && !s->own[j] && (i == j || (!s->ended[i] && !s->ended[j]))) vp_assert(!a && !b, "empty handles are equivalent");
            for (int k = 0; k < NV; ++k)
                if (a && s->v[j] < s->v[k]) vp_assert(s->v[i] < s->v[k], "ordering is transitive");
        }
    }
}
static bool free_slot(int k) { for (int i = 0; i < NV; ++i) if (s->own[i] == k) return false; return true; }
extern "C" void vp_main(void) {
    S st{}; s = &st;
    for (int i = 0; i < NV; ++i) vp_assert(!s->v[i], "a default constructed handle is empty");
    int steps = vp_param("steps");
    // any arrangement of up to NC suspended contexts over the handle variables
    for (int k = 1; k <= NC; ++k) {
        int at = vp_param("init") ? vp_pick(NV + 1) : k - 1;
        if (at == NV) continue;
        if (s->own[at]) continue;
#if VP_STARTS_AT_ONCE
        s->v[at] = ctx::callcc(Fn{k});
#else
        s->v[at] = H(Fn{k});
#endif
        s->own[at] = k;
    }
    check();
    for (int n = 0; n < steps; ++n) {
        int op = vp_pick(8), i = vp_pick(NV), j = op <= 3 ? vp_pick(NV) : 0;
        vp_log("op", op * 16 + i * 4 + j);
        switch (op) {
        case 0: { // move assignment, self assignment included
            int mine = s->own[i], his = s->own[j];
            H& b = s->v[j]; s->v[i] = std::move(b);
            if (i != j) { s->own[i] = his; s->own[j] = 0; s->ended[i] = s->ended[j]; s->ended[j] = false; if (mine) vp_cover("assign-over"); }
            else vp_cover("self-assign");
            break; }
        case 1: s->v[i].swap(s->v[j]); std::swap(s->own[i], s->own[j]); std::swap(s->ended[i], s->ended[j]); if (i == j) vp_cover("self-swap"); break;
        case 2: { using std::swap; swap(s->v[i], s->v[j]); int t = s->own[i]; s->own[i] = s->own[j]; s->own[j] = t; bool e = s->ended[i]; s->ended[i] = s->ended[j]; s->ended[j] = e; break; }
        case 3: { // move construction
            H x(std::move(s->v[i]));
            vp_assert(!s->v[i], "moving from a handle empties it");
            vp_assert(static_cast<bool>(x) == (s->own[i] != 0), "move construction takes the context");
            int k = s->own[i]; s->own[i] = 0; bool e = s->ended[i]; s->ended[i] = false; check();
            int old = s->own[j];
            s->v[j] = std::move(x);
            vp_assert(!x, "moving from a handle empties it");
            s->own[j] = k; s->ended[j] = e; (void)old;
            break; }
        case 7:   // resumed a last time: its function returns
        case 4: { // resume: consumed before control leaves, comes back as a new handle
            if (!s->own[i]) { vp_cover("empty"); break; }
            int k = s->own[i], r = s->runs[k];
            s->watch = &s->v[i]; s->stop = op == 7;
            H c = std::move(s->v[i]).resume();
            s->watch = nullptr;
            vp_assert(s->runs[k] == r + 1, "resuming runs the context the handle denotes");
            vp_assert(!s->v[i], "resuming consumes the handle");
            s->own[i] = 0; s->ended[i] = false;
            if (op == 7) {
                s->stop = false;
                vp_assert(!c && !static_cast<bool>(c), "the handle of an ended context is empty");
                check();
                s->v[i] = std::move(c); s->ended[i] = true;
                vp_cover("ended");
                break;
            }
            vp_assert(static_cast<bool>(c), "a suspended context has a valid handle");
            check();
            s->v[i] = std::move(c); s->own[i] = k;
            vp_cover("resume");
            break; }
        case 5: { // printing
#ifndef VP_NATIVE_RUN
            int before = vp_out_count();
            alignas(std::ostream) char dummy[sizeof(std::ostream)];
            std::ostream& os = *reinterpret_cast<std::ostream*>(dummy);
            std::ostream& r = os << s->v[i];
            vp_assert(&r == &os, "operator<< returns the stream");
            vp_assert(vp_out_count() == before + 1, "one item is printed");
            if (s->own[i]) { vp_assert(vp_out_is_ptr(), "a valid handle prints an address"); vp_assert(vp_out_value() != 0, "the address is not null"); vp_cover("print-valid"); }
            else if (s->ended[i]) vp_assert(vp_out_is_ptr() || vp_out_is_text("{not-a-context}"), "something is printed");
            else { vp_assert(vp_out_is_text("{not-a-context}"), "an empty handle prints as not-a-context"); vp_cover("print-empty"); }
#else
            std::ostringstream os;
            os << s->v[i];
            if (s->own[i]) { std::ostringstream nul; nul << (void*)nullptr; vp_assert(os.str() != "{not-a-context}" && os.str() != nul.str(), "a valid handle prints an address"); }
            else if (!s->ended[i]) vp_assert(os.str() == "{not-a-context}", "an empty handle prints as not-a-context");
#endif
            break; }
        case 6: { // destruction ends the context
            if (!s->own[i]) { H x(std::move(s->v[i])); s->ended[i] = false; break; }
            { H x(std::move(s->v[i])); }
            s->own[i] = 0;
            break; }
        }
        check();
    }
    for (int i = 0; i < NV; ++i) { H x(std::move(s->v[i])); }
    vp_assert(free_slot(99), "");
    vp_cover("end");
}
