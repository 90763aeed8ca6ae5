// Models for std::filesystem::path component lists (never inspected by the code under contract) and
// for std::thread (the body runs synchronously).
#include <cstdint>
#include <cstddef>
#define W __attribute__((used))
extern "C" {
W void rt_pl1(void** t) asm("_ZNSt10filesystem7__cxx114path5_ListC1Ev"); void rt_pl1(void** t) { *t = nullptr; }
W void rt_pl2(void** t, void**) asm("_ZNSt10filesystem7__cxx114path5_ListC1ERKS2_"); void rt_pl2(void** t, void**) { *t = nullptr; }
W void* rt_pl3(void** t, void**) asm("_ZNSt10filesystem7__cxx114path5_ListaSERKS2_"); void* rt_pl3(void** t, void**) { return t; }
W void rt_pl4(void*, void*) asm("_ZNKSt10filesystem7__cxx114path5_List13_Impl_deleterclEPNS2_5_ImplE"); void rt_pl4(void*, void*) {}
W void rt_pl5(void*) asm("_ZNSt10filesystem7__cxx114path14_M_split_cmptsEv"); void rt_pl5(void*) {}
W void rt_pl6(void**) asm("_ZNSt10filesystem7__cxx114path5_List5clearEv"); void rt_pl6(void**) {}
// std::thread
struct rt_state { void** vt; };
struct rt_uptr { rt_state* p; };
W void rt_thr(uint64_t* t, rt_uptr* st, void (*)()) asm("_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE");
void rt_thr(uint64_t* t, rt_uptr* st, void (*)()) { rt_state* s = st->p; ((void (*)(rt_state*)) s->vt[2])(s); *t = 1; }
W void rt_join(uint64_t* t) asm("_ZNSt6thread4joinEv"); void rt_join(uint64_t* t) { *t = 0; }
W void rt_sd(void*) asm("_ZNSt6thread6_StateD2Ev"); void rt_sd(void*) {}
}
static long rt_cat[2];
W void* rt_ec1() asm("_ZNSt3_V215system_categoryEv"); void* rt_ec1() { return &rt_cat[0]; }
W void* rt_ec2() asm("_ZNSt3_V216generic_categoryEv"); void* rt_ec2() { return &rt_cat[1]; }
