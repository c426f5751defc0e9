// Concrete meaning of the vp_* interface: replays one model of the symbolic executor against the natively compiled library.
// usage: prog FILE     FILE has lines "param NAME N" and "in NAME VALUE" (inputs in order of creation)
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <exception>
#include <map>
#include <pthread.h>
#include <malloc.h>
#include <new>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
#include <ucontext.h>
extern "C" {
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); int __real_posix_memalign(void**, size_t, size_t);
void* __real_mmap(void*, size_t, int, int, int, off_t); int __real_munmap(void*, size_t); int __real_mprotect(void*, size_t, int);
long __real_sysconf(int); int __real_getrlimit(int, struct rlimit*); int __real_getcontext(ucontext_t*); void __real__exit(int);
}
namespace {
struct In { std::string n; uint64_t v; };
struct St {
    std::vector<In> in; size_t at = 0; std::map<std::string, long> params;
    int faults = 0, budget = 1 << 30, fired = 0; bool term = false, leak_ok = false, exit0 = false;
    struct Reg { char* base; size_t size; char* map; size_t mlen; bool live; };
    std::vector<Reg> regs;
    struct Map { char* base; size_t len; int prot; std::vector<std::pair<char*, std::pair<size_t, int>>> guards; };
    std::vector<Map> maps;
    std::map<void*, std::pair<size_t, int>> blocks;     // 1 malloc 2 new
    std::vector<size_t> sizes; long allocs = 0;
    uint64_t pagesize = 0, minsig = 2048; bool rl = false; uint64_t rcur = 0, rmax = 0;
    bool on = false; bool done = false;
};
St* S;
thread_local int tid_;
struct Off { bool o; Off() { o = S && S->on; if (S) S->on = false; } ~Off() { if (S) S->on = o; } };
[[noreturn]] void viol(const char* m) {
    if (S) S->on = false;
    printf("NATIVE-VIOLATION %s\n", m); fflush(stdout); __real__exit(1); abort();
}
uint64_t next(const char* n) {
    Off o;
    if (S->at < S->in.size() && S->in[S->at].n == n) return S->in[S->at++].v;
    if (S->at >= S->in.size()) return 0;
    printf("NATIVE-MISMATCH wanted %s, trace has %s\n", n, S->in[S->at].n.c_str()); fflush(stdout); __real__exit(3); abort();
}
bool fault(int bit, const char* n) {
    if (!S || !S->on || !(S->faults & bit) || S->budget <= 0) return false;
    if (next(n)) { Off o; --S->budget; ++S->fired; return true; }
    return false;
}
void segv(int s, siginfo_t*, void*) { viol(s == SIGABRT ? "abort" : "memory access violation"); }
void term() { if (S && S->term) { printf("END terminate\n"); fflush(stdout); __real__exit(0); } viol("std::terminate"); }
struct Worker {
    pthread_t th; pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t c = PTHREAD_COND_INITIALIZER; void (*f)(void*) = nullptr; void* a = nullptr; bool busy = false, quit = false; int id = 0;
    static void* loop(void* p) {
        Worker* w = (Worker*)p; tid_ = w->id;
        pthread_mutex_lock(&w->m);
        for (;;) {
            while (!w->busy && !w->quit) pthread_cond_wait(&w->c, &w->m);
            if (w->quit) break;
            w->f(w->a); w->busy = false; pthread_cond_broadcast(&w->c);
        }
        pthread_mutex_unlock(&w->m);
        return nullptr;
    }
};
std::vector<Worker*> workers;
}
extern "C" {
uint64_t vp_sym(const char* n, int) { return next(n); }
int vp_choose(int) { return (int)next("choose"); }
int vp_pick(int n) { int v = (int)next("pick"); return v < n ? v : 0; }
int vp_param(const char* n) { Off o; auto i = S->params.find(n); return i == S->params.end() ? 0 : (int)i->second; }
void vp_assume(bool c) { if (!c) { Off o; printf("NATIVE-MISMATCH assumption does not hold\n"); fflush(stdout); __real__exit(3); } }
void vp_assert(bool c, const char* m) { if (!c) viol(m); }
void vp_fail(const char* m) { viol(m); }
void vp_log(const char* w, uint64_t v) { Off o; printf("LOG %s %llu\n", w, (unsigned long long)v); }
void vp_cover(const char*) {}
void vp_stop(void) { printf("END stop\n"); fflush(stdout); __real__exit(0); }
void vp_fault_arm(int m, int b) { S->faults = m; S->budget = b; }
int vp_faults(void) { return S->fired; }
int vp_may_throw(void) { return fault(VPF_USER, "fault_user"); }
void vp_expect_terminate(int on) { S->term = on; }
void vp_allow_exit0(void) { S->exit0 = true; }
void vp_sym_heap(size_t) {}
size_t vp_heap_live(void) { Off o; size_t n = S->blocks.size() + S->maps.size(); for (auto& r : S->regs) n += r.live; return n; }
void vp_leak_ok(void) { S->leak_ok = true; }
static void* region(size_t size, uint64_t residue) {
    Off o;
    size_t len = ((size + 8191) & ~size_t(4095)) + 8192;
    char* m = (char*)__real_mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) viol("native mmap");
    __real_mprotect(m, 4096, PROT_NONE);
    char* b = m + 4096 + (residue & 4095);
    S->regs.push_back(St::Reg{b, size, m, len, true});
    memset(b, 0xA5, size);
    return b;
}
void* vp_region(size_t mn, size_t mx, size_t, size_t* size) {
    size_t sz = mn == mx ? mn : next("region_size");
    uint64_t b = next("region_base");
    *size = sz;
    return region(sz, b);
}
void* vp_region_concrete(size_t size) { return region(size, 0); }
void vp_region_free(void* b) {
    Off o;
    for (auto& r : S->regs) if (r.base == b) {
        if (!r.live) viol("stack released twice");
        char* here = (char*)__builtin_frame_address(0);
        if (here >= r.base && here < r.base + r.size) viol("stack released while running on it");
        r.live = false; __real_mprotect(r.map, r.mlen, PROT_NONE); return;
    }
    viol("release of an unknown stack");
}
int vp_on_stack(const void* lo, const void* hi) { char* h = (char*)__builtin_frame_address(0); return h >= (char*)lo && h < (char*)hi; }
int vp_on_root(void) { Off o; char* h = (char*)__builtin_frame_address(0); for (auto& r : S->regs) if (h >= r.base && h < r.base + r.size) return 0; return 1; }
void* vp_stack_lo(void) { return nullptr; }
void* vp_stack_hi(void) { return nullptr; }
size_t vp_alloc_last_size(void) { return S->sizes.empty() ? 0 : S->sizes.back(); }
size_t vp_alloc_count(void) { return S->allocs; }
int vp_is_live(const void* p) { Off o; return S->blocks.count((void*)p) ? 1 : 0; }
size_t vp_block_size(const void* p) { Off o; auto i = S->blocks.find((void*)p); if (i == S->blocks.end()) viol("not the start of a block"); return i->second.first; }
uint64_t vp_pages(uint64_t, uint64_t) { return S->pagesize = next("pagesize"); }
void vp_set_pagesize(uint64_t n) { S->pagesize = n; }
void vp_set_minsig(uint64_t n) { S->minsig = n; }
void vp_set_rlimit(uint64_t c, uint64_t m) { S->rl = true; S->rcur = c; S->rmax = m; }
int vp_tid(void) { return tid_; }
int vp_thread_new(void) {
    Off o;
    Worker* w = new Worker; workers.push_back(w); w->id = (int)workers.size();
    if (pthread_create(&w->th, nullptr, Worker::loop, w)) viol("pthread_create");
    return w->id;
}
void vp_thread_run(int t, void (*f)(void*), void* a) {
    Worker* w = workers[t - 1]; pthread_mutex_lock(&w->m);
    w->f = f; w->a = a; w->busy = true; pthread_cond_broadcast(&w->c);
    while (w->busy) pthread_cond_wait(&w->c, &w->m);
    pthread_mutex_unlock(&w->m);
}
void vp_par(int t1, void (*f1)(void*), void* a1, int t2, void (*f2)(void*), void* a2, int) { vp_thread_run(t1, f1, a1); vp_thread_run(t2, f2, a2); }
void vp_thread_exit(int t) { Worker* w = workers[t - 1]; pthread_mutex_lock(&w->m); w->quit = true; pthread_cond_broadcast(&w->c); pthread_mutex_unlock(&w->m); pthread_join(w->th, nullptr); }
int vp_map_count(void) { return (int)S->maps.size(); }
static St::Map& lm() { if (S->maps.empty()) viol("no live mapping"); return S->maps.back(); }
void* vp_map_base(void) { return lm().base; }
size_t vp_map_len(void) { return lm().len; }
int vp_map_prot(void) { return lm().prot; }
int vp_map_guards(void) { return (int)lm().guards.size(); }
void* vp_guard_lo(void) { return lm().guards.back().first; }
size_t vp_guard_len(void) { return lm().guards.back().second.first; }
int vp_guard_prot(void) { return lm().guards.back().second.second; }
int vp_caught_depth(void) { return 0; }

void* __wrap_malloc(size_t n) {
    if (!S || !S->on) return __real_malloc(n);
    if (fault(VPF_MALLOC, "fault_malloc")) return nullptr;
    Off o; void* p = __real_malloc(n); if (p) { S->blocks[p] = {n, 1}; } S->sizes.push_back(n); ++S->allocs; return p;
}
void* __wrap_calloc(size_t a, size_t b) { void* p = __wrap_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void __wrap_free(void* p) {
    if (!p) return;
    if (!S || S->done) { return; }
    bool was = S->on; Off o;
    auto i = S->blocks.find(p);
    if (i == S->blocks.end()) { if (was) viol("free of a block that is not live"); __real_free(p); return; }
    if (i->second.second != 1) viol("free of a block obtained with new");
    S->blocks.erase(i); if (was) memset(p, 0xDB, 16 < 1 ? 0 : 0); __real_free(p);
}
int __wrap_posix_memalign(void** r, size_t a, size_t n) {
    if (!S || !S->on) return __real_posix_memalign(r, a, n);
    if (fault(VPF_MALLOC, "fault_malloc")) return 12;
    Off o; int e = __real_posix_memalign(r, a, n); if (!e) S->blocks[*r] = {n, 1}; return e;
}
void* __wrap_mmap(void* a, size_t n, int prot, int fl, int fd, off_t off) {
    if (!S || !S->on) return __real_mmap(a, n, prot, fl, fd, off);
    if (fl & MAP_FIXED && malloc_usable_size(a) < ((n + 4095) & ~(size_t)4095)) viol("MAP_FIXED replaces pages that hold more than the block");
    if (fl & MAP_FIXED) return fault(VPF_MMAP, "fault_mmap") ? MAP_FAILED : __real_mmap(a, n, prot, fl, fd, off);
    if (fault(VPF_MMAP, "fault_mmap")) { errno = ENOMEM; return MAP_FAILED; }
    Off o;
    if (n > (size_t(1) << 39)) { errno = ENOMEM; return MAP_FAILED; }
    void* p = __real_mmap(a, n, prot, fl | MAP_NORESERVE, fd, off);
    if (p != MAP_FAILED) S->maps.push_back(St::Map{(char*)p, n, prot, {}});
    return p;
}
int __wrap_munmap(void* p, size_t n) {
    if (!S || !S->on) return __real_munmap(p, n);
    Off o;
    for (size_t i = 0; i < S->maps.size(); ++i) if (S->maps[i].base == p) {
        uint64_t ps = S->pagesize ? S->pagesize : 4096;
        if (((n + ps - 1) & ~(ps - 1)) != ((S->maps[i].len + ps - 1) & ~(ps - 1))) viol("munmap does not cover exactly the mapping");
        __real_munmap(p, S->maps[i].len); S->maps.erase(S->maps.begin() + i); return 0;
    }
    viol("munmap of an address that is not the start of a mapping");
}
int __wrap_mprotect(void* p, size_t n, int prot) {
    if (!S || !S->on) return __real_mprotect(p, n, prot);
    if (fault(VPF_MPROTECT, "fault_mprotect")) { errno = ENOMEM; return -1; }
    Off o;
    for (auto& m : S->maps) if ((char*)p >= m.base && (char*)p + n <= m.base + m.len) {
        m.guards.push_back({(char*)p, {n, prot}});
        return S->pagesize && S->pagesize != 4096 ? 0 : __real_mprotect(p, n, prot);
    }
    viol("mprotect outside a mapping");
}
long __wrap_sysconf(int n) {
    if (S && S->on && n == _SC_PAGESIZE && S->pagesize) return (long)S->pagesize;
    if (S && S->on && n == _SC_MINSIGSTKSZ) return (long)S->minsig;
    if (S && S->on && n == _SC_SIGSTKSZ) return 8192;
    return __real_sysconf(n);
}
int __wrap_getrlimit(int r, struct rlimit* l) {
    if (!S || !S->on || !S->rl) return __real_getrlimit(r, l);
    if (r == RLIMIT_STACK) { l->rlim_cur = S->rcur; l->rlim_max = S->rmax; } else { l->rlim_cur = 7 << 20; l->rlim_max = 9 << 20; }
    return 0;
}
int __wrap_getcontext(ucontext_t* u) {
    if (fault(VPF_GETCONTEXT, "fault_getcontext")) { errno = ENOMEM; return -1; }
    return __real_getcontext(u);
}
void __wrap__exit(int s) {
    if (S && S->on) { Off o; if (s == 0 && S->exit0) { printf("END exit\n"); fflush(stdout); __real__exit(0); } viol("process exit"); }
    __real__exit(s);
}
}
static void* nw(size_t n, bool thr) {
    if (fault(VPF_NEW, "fault_new")) { if (thr) throw std::bad_alloc(); return nullptr; }
    bool was = S && S->on; Off o;
    void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc();
    if (was) { S->blocks[p] = {n, 2}; S->sizes.push_back(n); ++S->allocs; }
    return p;
}
static void dl(void* p) {
    if (!p) return;
    if (!S || S->done) return;
    bool was = S->on; Off o;
    auto i = S->blocks.find(p);
    if (i == S->blocks.end()) { if (was) viol("delete of a block that is not live"); __real_free(p); return; }
    if (i->second.second != 2) viol("delete of a block obtained with malloc");
    S->blocks.erase(i); __real_free(p);
}
void* operator new(size_t n) { return nw(n, true); }
void* operator new[](size_t n) { return nw(n, true); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return nw(n, false); }
void operator delete(void* p) noexcept { dl(p); }
void operator delete[](void* p) noexcept { dl(p); }
void operator delete(void* p, size_t) noexcept { dl(p); }
void operator delete[](void* p, size_t) noexcept { dl(p); }
static void at_end() {
    if (!S || S->done) return;
    S->on = false; 
    size_t n = S->blocks.size() + S->maps.size(); for (auto& r : S->regs) n += r.live;
    if (n && !S->leak_ok) viol("memory never released");
    S->done = true;
    printf("END done\n"); fflush(stdout); __real__exit(0);
}
int main(int argc, char** argv) {
    S = new St;
    if (argc > 1) {
        FILE* f = fopen(argv[1], "r"); char k[16], n[128]; unsigned long long v;
        if (!f) return 4;
        while (fscanf(f, "%15s %127s %llu", k, n, &v) == 3) { if (k[0] == 'p') S->params[n] = (long)v; else S->in.push_back(In{n, v}); }
        fclose(f);
    }
    static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = segv; sa.sa_flags = SA_ONSTACK | SA_SIGINFO;
    sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGABRT, &sa, nullptr); sigaction(SIGILL, &sa, nullptr);
    std::set_terminate(term);
    alarm(20);
    atexit(at_end);
    S->on = true;
    vp_main();
    return 0;
}

namespace { struct VG { unsigned id; void *a, *b; }; std::vector<VG> vgs; }
extern "C" {
unsigned vp_vg_register(void* a, void* b) { unsigned id = (unsigned)next("vg_id"); Off o; for (auto& v : vgs) if (v.id == id) ++id; vgs.push_back(VG{id, a, b}); return id; }
void vp_vg_deregister(unsigned id) { Off o; for (size_t i = 0; i < vgs.size(); ++i) if (vgs[i].id == id) { vgs.erase(vgs.begin() + i); return; } viol("deregistering a stack identifier that is not registered"); }
int vp_vg_live(void) { return (int)vgs.size(); }
void* vp_vg_lo(void) { return vgs.back().a; }
void* vp_vg_hi(void) { return vgs.back().b; }
}

// ---- Windows fibers on top of ucontext, for replaying the *_winfib.hpp configurations
namespace { struct WF { ucontext_t u; bool live, root; void (*f)(void*); void* a; void* stk; size_t len; }; thread_local WF* wcur; thread_local WF wroot; thread_local bool wconv; bool wconvs[64]; int wlive; size_t wlast; 
void wentry(unsigned lo, unsigned hi) { WF* w = (WF*)(((uint64_t)hi << 32) | lo); w->f(w->a); viol("a Windows fiber function returned (thread exit)"); } }
extern "C" {
static thread_local uint32_t wlasterr;
void* ConvertThreadToFiber(void*) { wlasterr = 1280; if (wconv) return nullptr; if (fault(VPF_WIN, "fault_ConvertThreadToFiber")) { wlasterr = 8; return nullptr; } wconvs[tid_ & 63] = wconv = true; wroot = WF{}; wroot.live = wroot.root = true; wcur = &wroot; return wcur; }
int ConvertFiberToThread(void) { if (!wconv) viol("ConvertFiberToThread on a thread that is not a fiber"); wconvs[tid_ & 63] = wconv = false; return 1; }
int IsThreadAFiber(void) { return wconv; }
void* vp_GetCurrentFiber(void) { return wconv ? (void*)wcur : (void*)0x1E00; }
uint32_t GetLastError(void) { return wlasterr; }
void* CreateFiber(size_t n, void (*f)(void*), void* a) {
    if (fault(VPF_WIN, "fault_CreateFiber")) { wlasterr = 8; return nullptr; }
    Off o;
    WF* w = (WF*)__real_calloc(1, sizeof(WF)); w->live = true; w->f = f; w->a = a; w->len = 1 << 18; wlast = n;
    w->stk = __real_mmap(nullptr, w->len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    __real_getcontext(&w->u); w->u.uc_stack.ss_sp = w->stk; w->u.uc_stack.ss_size = w->len; w->u.uc_link = nullptr;
    makecontext(&w->u, (void (*)())wentry, 2, (unsigned)(uintptr_t)w, (unsigned)((uintptr_t)w >> 32));
    ++wlive; return w;
}
void DeleteFiber(void* p) {
    WF* w = (WF*)p;
    if (!w || !w->live) viol("DeleteFiber on a fiber that does not exist (deleted twice?)");
    if (w == wcur) viol("DeleteFiber on the running fiber");
    if (w->root) viol("DeleteFiber on a thread's own fiber");
    w->live = false; --wlive; Off o; __real_mprotect(w->stk, w->len, PROT_NONE);
}
void SwitchToFiber(void* p) {
    WF* w = (WF*)p; WF* c = wcur;
    if (!w || !w->live) viol("SwitchToFiber to a fiber that does not exist");
    if (w == c) viol("SwitchToFiber to the running fiber");
    if (!wconv) viol("SwitchToFiber on a thread that was not converted");
    wcur = w; swapcontext(&c->u, &w->u);
}
int vp_wf_live(void) { return wlive; }
size_t vp_wf_last_size(void) { return wlast; }
int vp_wf_thread_is_fiber(void) { return wconv; }
int vp_wf_is_fiber(int t) { return wconvs[t & 63]; }
}
