// Contract primitives. The same harness text is (a) compiled to LLVM IR and discharged by the verifier and
// (b) compiled natively (VP_NATIVE) to replay counterexamples and to search for failing inputs.
#ifndef VP_H
#define VP_H
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

extern "C" {
uint64_t vp_nondet(const char* name, unsigned bits);
bool vp_symbolic();
void vp_assume(bool c);
void vp_assert_(bool c, const char* name);
void vp_cover_(const char* name);
void vp_make_string(std::string* s, const char* name, const char* alphabet);
void vp_make_string_of(std::string* s, const char* name, const char* alphabet);
void vp_make_vec(std::vector<size_t>* s, const char* name);
void vp_ghost_(void* g, size_t size, void (*step)(void*), bool (*done)(void*), const char* name);
bool vp_unrolling();
void vp_note(size_t i); // verifier only: an index of interest
uint64_t vp_uf2(const char* name, uint64_t a, uint64_t b); // verifier only: an arbitrary fixed function
}

#ifdef VP_NATIVE
extern "C" void vp_register(const char*, void (*)());
#define VP_ENTRY(name)                                                                                                 \
    extern "C" void vp_entry_##name();                                                                                 \
    static struct vp_reg_##name                                                                                        \
    {                                                                                                                  \
        vp_reg_##name() { vp_register(#name, vp_entry_##name); }                                                       \
    } vp_reg_inst_##name;                                                                                              \
    extern "C" void vp_entry_##name()
#else
#define VP_ENTRY(name) extern "C" void vp_entry_##name()
#endif
#define vp_assert(c, name) vp_assert_((c), name)
#define vp_cover(name) vp_cover_(name)

inline uint64_t vp_u64(const char* n) { return vp_nondet(n, 64); }
inline int64_t vp_i64(const char* n) { return (int64_t)vp_nondet(n, 64); }
inline uint32_t vp_u32(const char* n) { return (uint32_t)vp_nondet(n, 32); }
inline int32_t vp_i32(const char* n) { return (int32_t)vp_nondet(n, 32); }
inline uint16_t vp_u16(const char* n) { return (uint16_t)vp_nondet(n, 16); }
inline uint8_t vp_u8(const char* n) { return (uint8_t)vp_nondet(n, 8); }
inline bool vp_bool(const char* n) { return vp_nondet(n, 8) & 1; }
extern "C" uint64_t vp_range_(const char* name, uint64_t lo, uint64_t hi); // signed bounds, inclusive
template<typename T>
inline T vp_in(const char* n, T lo, T hi) { return (T)vp_range_(n, (uint64_t)(int64_t)lo, (uint64_t)(int64_t)hi); }
inline std::string vp_string(const char* n, const char* alphabet = nullptr)
{
    std::string s;
    vp_make_string(&s, n, alphabet);
    return s;
}

// every character belongs to the alphabet
inline std::string vp_string_of(const char* n, const char* alphabet)
{
    std::string s;
    vp_make_string_of(&s, n, alphabet);
    return s;
}

// for-all over an index range: one arbitrary index for the verifier, a loop natively
#ifdef VP_NATIVE
#define VP_FORALL(k, n) for (size_t k = 0, vp_n_##k = (n); k < vp_n_##k; ++k)
#else
#define VP_FORALL(k, n)                                                                                                \
    if (size_t k = (size_t)vp_nondet(#k, 64); k < (size_t)(n))
#endif

// ghost automaton: T has  void step();  bool done() const;
template<typename T>
struct vp_ghost_ops
{
    static void step(void* g) { ((T*)g)->step(); }
    static bool done(void* g) { return ((T*)g)->done(); }
};
template<typename T>
inline void vp_ghost(T& g, const char* name = "ghost")
{
    vp_ghost_(&g, sizeof(T), &vp_ghost_ops<T>::step, &vp_ghost_ops<T>::done, name);
}
template<typename T>
inline void vp_finish(T& g)
{
    if (vp_unrolling())
    {
        while (!g.done())
            g.step();
        return;
    }
    for (int i = 0; i < 4; ++i)
    {
        if (g.done())
            break;
        g.step();
    }
    vp_assert_(g.done(), "aux: ghost automaton finished");
}
#endif
