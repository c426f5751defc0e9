// Runs one program of switches with the register values of a solver model on the real code (freestanding, x86-64 and i386).
typedef unsigned long ul;
typedef struct { void* fctx; void* data; } transfer_t;
#include "vals.h"     // REGS_A, REGS_F, MXCSR_*, CW_*, OPS, MODE_RETURN, TOPOFF, SIZE
extern void* make_fcontext(void*, ul, void (*)(transfer_t));
extern transfer_t jump_fcontext(void*, void*);
extern transfer_t ontop_fcontext(void*, void*, transfer_t (*)(transfer_t));
struct P { ul in[6]; unsigned mxcsr, cw; void* func; ul a[3]; ul out[6]; unsigned omxcsr, ocw; ul sp0, sp1; transfer_t r; };
extern void probe(struct P*);
#ifdef __x86_64__
# define NREG 6
__asm__(".text\n.globl probe\nprobe:\n push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n push %rdi\n"
" mov %rsp,144(%rdi)\n"
" mov 0(%rdi),%rbx\n mov 8(%rdi),%rbp\n mov 16(%rdi),%r12\n mov 24(%rdi),%r13\n mov 32(%rdi),%r14\n mov 40(%rdi),%r15\n"
" ldmxcsr 48(%rdi)\n fldcw 52(%rdi)\n mov 56(%rdi),%rax\n mov 72(%rdi),%rsi\n mov 80(%rdi),%rdx\n mov 64(%rdi),%rdi\n call *%rax\n"
" mov (%rsp),%rcx\n mov %rsp,152(%rcx)\n mov %rbx,88(%rcx)\n mov %rbp,96(%rcx)\n mov %r12,104(%rcx)\n mov %r13,112(%rcx)\n mov %r14,120(%rcx)\n mov %r15,128(%rcx)\n"
" stmxcsr 136(%rcx)\n movw $0,142(%rcx)\n fnstcw 140(%rcx)\n mov %rax,160(%rcx)\n mov %rdx,168(%rcx)\n"
" pop %rdi\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n"
".globl _start\n_start:\n and $-16,%rsp\n call cmain\n hlt\n"
".globl _exit\n_exit:\n mov $231,%eax\n syscall\n hlt\n"
".globl wr\nwr:\n mov %rsi,%rdx\n mov %rdi,%rsi\n mov $1,%edi\n mov $1,%eax\n syscall\n ret\n"
" .globl ontop_entry\nontop_entry:\n mov %rsp,ontop_sp(%rip)\n mov %rbx,ontop_regs(%rip)\n mov %rbp,ontop_regs+8(%rip)\n mov %r12,ontop_regs+16(%rip)\n mov %r13,ontop_regs+24(%rip)\n mov %r14,ontop_regs+32(%rip)\n mov %r15,ontop_regs+40(%rip)\n jmp ontop_body\n"
" .globl ctx_entry\nctx_entry:\n mov %rsp,ctx_sp(%rip)\n stmxcsr ctx_mxcsr(%rip)\n fnstcw ctx_cw(%rip)\n jmp ctx_body\n");
#else
# define NREG 4
__asm__(".text\n.globl probe\nprobe:\n push %ebx\n push %ebp\n push %esi\n push %edi\n mov 20(%esp),%eax\n push %eax\n sub $24,%esp\n"
" mov %eax,%ecx\n mov %esp,80(%ecx)\n"
" mov 0(%ecx),%ebx\n mov 4(%ecx),%ebp\n mov 8(%ecx),%esi\n mov 12(%ecx),%edi\n ldmxcsr 24(%ecx)\n fldcw 28(%ecx)\n"
" lea 88(%ecx),%eax\n mov %eax,0(%esp)\n mov 36(%ecx),%eax\n mov %eax,4(%esp)\n mov 40(%ecx),%eax\n mov %eax,8(%esp)\n mov 44(%ecx),%eax\n mov %eax,12(%esp)\n call *32(%ecx)\n"
" sub $4,%esp\n mov 24(%esp),%ecx\n mov %esp,84(%ecx)\n mov %ebx,48(%ecx)\n mov %ebp,52(%ecx)\n mov %esi,56(%ecx)\n mov %edi,60(%ecx)\n stmxcsr 72(%ecx)\n movw $0,78(%ecx)\n fnstcw 76(%ecx)\n"
" add $28,%esp\n pop %edi\n pop %esi\n pop %ebp\n pop %ebx\n ret\n"
".globl _start\n_start:\n and $-16,%esp\n call cmain\n hlt\n"
".globl _exit\n_exit:\n mov 4(%esp),%ebx\n mov $252,%eax\n int $0x80\n hlt\n"
".globl wr\nwr:\n push %ebx\n mov 8(%esp),%ecx\n mov 12(%esp),%edx\n mov $1,%ebx\n mov $4,%eax\n int $0x80\n pop %ebx\n ret\n"
".globl ontop_entry\nontop_entry:\n mov %esp,ontop_sp\n mov %ebx,ontop_regs\n mov %ebp,ontop_regs+4\n mov %esi,ontop_regs+8\n mov %edi,ontop_regs+12\n jmp ontop_body\n"
".globl ctx_entry\nctx_entry:\n mov %esp,ctx_sp\n stmxcsr ctx_mxcsr\n fnstcw ctx_cw\n jmp ctx_body\n");
#endif
extern void wr(const char*, ul); extern void _exit(int); extern transfer_t ontop_entry(transfer_t); extern void ctx_entry(transfer_t);
ul ontop_sp, ontop_regs[6], ctx_sp; unsigned ctx_mxcsr; unsigned ctx_cw;
static int bad;
static void say(const char* s) { ul n = 0; while (s[n]) ++n; wr(s, n); }
static void check(int ok, const char* s) { if (!ok) { say("BAD "); say(s); say("\n"); ++bad; } }
static const ul RA[6] = REGS_A, RF[6] = REGS_F;
static char mem[1 << 17] __attribute__((aligned(4096)));
static char* top; static char* bottom;
static const char* ops = OPS; static int at;
static void* peer; static void* data_sent; static transfer_t rv; static const ul* target_regs; static int runs;
static struct P pa, pf;
static ul guard_get(void) { ul v;
#ifdef GUARD
# ifdef __x86_64__
 __asm__ volatile("mov %%fs:0x28,%0" : "=r"(v));
# else
 __asm__ volatile("mov %%gs:0x14,%0" : "=r"(v));
# endif
#else
 v = 0;
#endif
 return v; }
static void guard_set(ul v) {
#ifdef GUARD
# ifdef __x86_64__
 __asm__ volatile("mov %0,%%fs:0x28" :: "r"(v));
# else
 __asm__ volatile("mov %0,%%gs:0x14" :: "r"(v));
# endif
#endif
 (void)v; }
__attribute__((used)) transfer_t ontop_body(transfer_t t) {
    ++runs;
    check(((ontop_sp + sizeof(ul)) & 15) == 0, "the on-top function's stack is aligned");
    check(t.data == data_sent, "the on-top function receives the data pointer");
    for (int k = 0; k < NREG; ++k) check(ontop_regs[k] == target_regs[k], "callee-saved registers are the target's when the on-top function starts");
    peer = t.fctx;
    return rv;
}
// one switch of the running context (me: 0 A, 1 F); returns when something switches back
static void sw(int me) {
    struct P* p = me ? &pf : &pa; const ul* r = me ? RF : RA;
    int op = ops[at++];
    if (!op) { _exit(bad ? 1 : 0); }
    for (int k = 0; k < 6; ++k) p->in[k] = r[k] + (ul)at;
    p->mxcsr = me ? MXCSR_F : MXCSR_A; p->cw = me ? CW_F : CW_A;
    ul g = 0x1111 * (ul)(me + 3) + at; guard_set(g);
    p->func = op == 'o' ? (void*)ontop_entry : 0; p->a[0] = (ul)peer; p->a[1] = (ul)(data_sent = (void*)((ul)0xd0d00000 + at)); p->a[2] = (ul)(void*)ontop_entry;
    p->func = op == 'o' ? (void*)ontop_fcontext : (void*)jump_fcontext;
    rv.fctx = (void*)((ul)0x77000000 + at); rv.data = (void*)((ul)0x66000000 + at);
    target_regs = me ? pa.in : pf.in;
    runs = 0;
    static int last; last = op;
    probe(p);
    for (int k = 0; k < NREG; ++k) check(p->out[k] == p->in[k], "callee-saved registers survive a switch");
#ifndef TSX
    check((p->omxcsr & 0xffc0) == (p->mxcsr & 0xffc0) && (p->ocw & 0xf3f) == (p->cw & 0xf3f), "FP control words survive a switch");
#endif
    check(p->sp0 == p->sp1, "the stack pointer survives a switch");
#ifdef GUARD
    check(guard_get() == g, "the stack guard survives a switch");
#endif
    if (last == 'o') { check(runs == 1, "the on-top function runs once"); check(p->r.fctx == rv.fctx && p->r.data == rv.data, "the suspended call returns what the on-top function returned"); }
    else { check(p->r.data == data_sent, "the data pointer arrives"); peer = p->r.fctx; }
}
static unsigned mk_mx, mk_cw; static ul mk_guard;
__attribute__((used)) void ctx_body(transfer_t t) {
    check(((ctx_sp + sizeof(ul)) & 15) == 0, "the context function's stack is aligned");
    check((char*)ctx_sp > bottom && (char*)ctx_sp < top, "the context function's stack pointer is inside the region");
    check(t.data == data_sent, "the context function receives the data pointer");
#ifndef TSX
    check((ctx_mxcsr & 0xffc0) == (mk_mx & 0xffc0) && (ctx_cw & 0xf3f) == (mk_cw & 0xf3f), "FP control state at entry is the maker's");
#endif
#ifdef GUARD
    check(guard_get() == mk_guard, "the new context starts with its creator's guard");
#endif
    peer = t.fctx;
    if (MODE_RETURN) { if (bad) _exit(1); say("RETURNING\n"); return; }
    for (;;) sw(1);
}
__attribute__((used)) void cmain(void) {
#ifdef GUARD
    static char tls[256];
# ifdef __x86_64__
    { ul r; __asm__ volatile("syscall" : "=a"(r) : "a"(158UL), "D"(0x1002UL), "S"(tls + 64) : "rcx", "r11", "memory"); }
# else
    { static struct { unsigned n, base, limit, flags; } d; d.n = -1; d.base = (unsigned)tls; d.limit = 0xfffff; d.flags = 0x51;
      int r; __asm__ volatile("int $0x80" : "=a"(r) : "0"(243), "b"(&d) : "memory"); __asm__ volatile("mov %0,%%gs" :: "r"((unsigned short)(d.n * 8 + 3))); }
# endif
#endif
    for (unsigned k = 0; k < sizeof mem; ++k) mem[k] = (char)(k * 7);
    top = mem + sizeof mem - 256 + TOPOFF; bottom = top - (MODE_RETURN ? SIZE : 65536);
    pa.mxcsr = mk_mx = MXCSR_F; pa.cw = mk_cw = CW_F;
    for (int k = 0; k < 6; ++k) pa.in[k] = RA[k];
    guard_set(mk_guard = 0x5150);
#ifdef __x86_64__
    pa.func = (void*)make_fcontext; pa.a[0] = (ul)top; pa.a[1] = (ul)(top - bottom); pa.a[2] = (ul)(void*)ctx_entry; probe(&pa); peer = (void*)pa.r.fctx;
    for (int k = 0; k < NREG; ++k) check(pa.in[k] == pa.out[k], "make_fcontext keeps callee-saved registers");
#else
    __asm__ volatile("ldmxcsr %0\n fldcw %1" :: "m"(mk_mx), "m"(mk_cw));
    peer = make_fcontext(top, top - bottom, ctx_entry);
#endif
    check(guard_get() == (
#ifdef GUARD
    mk_guard
#else
    0
#endif
    ), "make_fcontext leaves the guard alone");
    check((char*)peer >= bottom && (char*)peer < top, "the handle is inside the region");
    for (unsigned k = 0; k < sizeof mem; ++k) if (mem + k < bottom || mem + k >= top) check(mem[k] == (char)(k * 7), "memory outside the region is untouched");
    // first switch by plain jump
    { static const char* all; all = ops; static char buf[16]; buf[0] = 'j'; int n = 1; while (*all && n < 14) buf[n++] = *all++; buf[n] = 0; ops = buf; at = 0; }
    for (;;) sw(0);
}
