// native replay of C28: valgrind's stack requests become calls the harness can observe (the symbolic runs use the system's own valgrind.h)
#ifndef VP_VALGRIND_H
#define VP_VALGRIND_H
extern "C" unsigned vp_vg_register(void* a, void* b);
extern "C" void vp_vg_deregister(unsigned id);
#define VALGRIND_STACK_REGISTER(a, b) vp_vg_register((void*)(a), (void*)(b))
#define VALGRIND_STACK_DEREGISTER(id) vp_vg_deregister((unsigned)(id))
#endif
