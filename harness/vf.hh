// Specification primitives used by the contract harnesses.
//
// A contract is written as a function CONTRACT(name): symbolic inputs (vf::any, vf_bytes), the precondition
// (vf_require), a call of the real function from /repo, and the postcondition (vf_ensure).  The verifier
// (engine/) proves it for all inputs; the same text compiled natively replays a counterexample on the real code.
#pragma once
#ifdef VERIF_IR
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0 // library templates are compiled from their headers
#endif
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <bit>
#include <type_traits>

extern "C" {
uint64_t vf_any(int bits, const char *name) noexcept;
uint64_t vf_any_range(int bits, const char *name, uint64_t lo, uint64_t hi) noexcept; // native search only: prefers [lo, hi]
void *vf_bytes(const char *name, size_t n) noexcept;
void *vf_ptrs(const char *name, size_t n, size_t k, void *p, void *q) noexcept; // verifier only: n pointers, the k-th is p, the others q
void *vf_ptrs2(const char *name, size_t n, size_t k, void *p, size_t l, void *r, void *q) noexcept; // ... and the l-th is r
void vf_require(bool c) noexcept;
void vf_ensure(bool c, const char *label) noexcept;
void vf_lemma(bool c, const char *label) noexcept; // holds whatever the path: proved on its own, then used
void vf_step(bool c, const char *label) noexcept; // proved here, then used
void vf_cover(const char *label) noexcept;
void vf_observe(const char *label, uint64_t v) noexcept;
void vf_allow_exit(bool allow) noexcept; // a failed Q_assert / exit() counts as a clean refusal
}

namespace vf
{
template<class T>
inline T any(const char *name)
{
    if constexpr (std::is_same_v<T, bool>) {
        return vf_any(8, name) & 1;
    } else if constexpr (std::is_enum_v<T>) {
        return static_cast<T>(vf_any(sizeof(T) * 8, name));
    } else if constexpr (std::is_integral_v<T>) {
        return static_cast<T>(vf_any(sizeof(T) * 8, name));
    } else if constexpr (sizeof(T) == 4) {
        return std::bit_cast<T>(static_cast<uint32_t>(vf_any(32, name)));
    } else if constexpr (sizeof(T) == 8) {
        return std::bit_cast<T>(vf_any(64, name));
    } else {
        static_assert(sizeof(T) == 8, "any");
    }
}
// a value in [lo, hi]
template<class T>
inline T any_in(const char *name, T lo, T hi)
{
#ifndef VERIF_IR
    if constexpr (std::is_enum_v<T>) {
        using U = std::underlying_type_t<T>;
        U w = static_cast<U>(vf_any_range(sizeof(T) * 8, name, static_cast<uint64_t>(lo), static_cast<uint64_t>(hi)));
        vf_require(w >= static_cast<U>(lo) && w <= static_cast<U>(hi));
        return static_cast<T>(w);
    }
    if constexpr (std::is_integral_v<T>) {
        T w = static_cast<T>(vf_any_range(sizeof(T) * 8, name, static_cast<uint64_t>(lo), static_cast<uint64_t>(hi)));
        vf_require(w >= lo && w <= hi);
        return w;
    }
#endif
    T v = any<T>(name);
    vf_require(v >= lo && v <= hi);
    return v;
}
inline bool finite(float f) { return (std::bit_cast<uint32_t>(f) & 0x7f800000u) != 0x7f800000u; }
inline bool finite(double f) { return (std::bit_cast<uint64_t>(f) & 0x7ff0000000000000ull) != 0x7ff0000000000000ull; }
inline bool isnan_(float f) { return (std::bit_cast<uint32_t>(f) & 0x7fffffffu) > 0x7f800000u; }
inline bool isnan_(double f) { return (std::bit_cast<uint64_t>(f) & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; }
template<class T>
inline T any_finite(const char *name)
{
    T v = any<T>(name);
    vf_require(finite(v));
    return v;
}
template<class T>
inline bool bits_eq(const T &a, const T &b)
{
    return std::bit_cast<std::conditional_t<sizeof(T) == 4, uint32_t, uint64_t>>(a) ==
           std::bit_cast<std::conditional_t<sizeof(T) == 4, uint32_t, uint64_t>>(b);
}
} // namespace vf

#define CONTRACT(n) extern "C" void vfc_##n()
