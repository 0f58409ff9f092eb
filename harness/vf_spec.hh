// Specification text used inside the annotated /repo sources (guard VERIF_SPEC; included by the verifier's compile only).
//   vf_inv(condition)   loop invariant, written at the start of the loop body (after the loop condition held)
//   vf_cut(variant)     ends the invariants of this loop; the variant must decrease from one iteration to the next
//   vf_i(x)             x itself, opaque to the compiler (which must not simplify an invariant by what it knows of the loop)
//   vf_pred(id, a, b)   a predicate supplied by the harness (mentions ghost state or the contract's own variables)
//   vf_hint(id, a, b)   asks the harness to instantiate its universally quantified precondition `id` at (a, b)
//   vf_ghost(id, a, b)  ghost statement interpreted by the harness (writes ghost state only)
//   vf_name(id, p)      makes a local array known to the harness
#pragma once
#ifdef VERIF_SPEC
#include <cstdint>
#include <cstddef>
extern "C" {
void vf_inv(bool c) noexcept;
void vf_cut(uint64_t variant) noexcept;
int64_t vf_i(int64_t x) noexcept;
}
bool vf_pred(int id, uint64_t a, uint64_t b) noexcept;
void vf_hint(int id, uint64_t a, uint64_t b) noexcept;
void vf_ghost(int id, uint64_t a, uint64_t b) noexcept;
void vf_name(int id, const void *p) noexcept;
#endif
