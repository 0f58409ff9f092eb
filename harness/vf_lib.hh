// Functions of the C and C++ run time that live in shared libraries, for the verifier's compile only (assumed contracts
// written as code): ordered trees keep their order (they are not rebalanced, which nothing observes).
#pragma once
#ifdef VERIF_IR
#include <bits/stl_tree.h>
namespace std
{
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw()
{
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left)
            x = x->_M_left;
        return x;
    }
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_right) {
        x = y;
        y = y->_M_parent;
    }
    return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw()
{
    return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x));
}
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x)
        return x->_M_right; // the header
    if (x->_M_left) {
        x = x->_M_left;
        while (x->_M_right)
            x = x->_M_right;
        return x;
    }
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_left) {
        x = y;
        y = y->_M_parent;
    }
    return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw()
{
    return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x));
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &header) throw()
{
    x->_M_parent = p;
    x->_M_left = x->_M_right = nullptr;
    x->_M_color = _S_black; // (the header alone is red)
    if (left) {
        p->_M_left = x;
        if (p == &header) {
            header._M_parent = x;
            header._M_right = x;
        } else if (p == header._M_left)
            header._M_left = x;
    } else {
        p->_M_right = x;
        if (p == header._M_right)
            header._M_right = x;
    }
}
} // namespace std

// decimal integers, and the shapes of floating point numbers
#include <cerrno>
extern "C" inline int *__errno_location(void) throw()
{
    static int e;
    return &e;
}
template<class T>
static T vf_strtoi(const char *s, char **end, int base, bool is_unsigned, uint64_t pos_max, uint64_t neg_max)
{
    const char *p = s;
    while (*p == ' ' || (*p >= 9 && *p <= 13))
        p++;
    bool neg = *p == '-';
    if (*p == '-' || *p == '+')
        p++;
    uint64_t v = 0;
    bool any = false, over = false;
    for (; *p >= '0' && *p <= '9'; p++) {
        uint64_t d = (uint64_t)(*p - '0');
        any = true;
        if (v > (UINT64_MAX - d) / 10)
            over = true;
        v = v * 10 + d;
    }
    if (end)
        *end = (char *)(any ? p : s);
    uint64_t m = neg ? neg_max : pos_max;
    if (over || v > m) {
        *__errno_location() = ERANGE;
        v = neg && is_unsigned ? UINT64_MAX : m;
        return (T)(neg && !is_unsigned ? -v : v);
    }
    return (T)(neg ? -v : v);
}
extern "C" inline long strtol(const char *s, char **end, int base) throw()
{
    return vf_strtoi<long>(s, end, base, false, INT64_MAX, (uint64_t)INT64_MAX + 1);
}
extern "C" inline long __isoc23_strtol(const char *s, char **end, int base) throw()
{
    return vf_strtoi<long>(s, end, base, false, INT64_MAX, (uint64_t)INT64_MAX + 1);
}
extern "C" inline unsigned long long strtoull(const char *s, char **end, int base) throw()
{
    return vf_strtoi<unsigned long long>(s, end, base, true, UINT64_MAX, UINT64_MAX);
}
extern "C" inline unsigned long long __isoc23_strtoull(const char *s, char **end, int base) throw()
{
    return vf_strtoi<unsigned long long>(s, end, base, true, UINT64_MAX, UINT64_MAX);
}

// casts between polymorphic classes with single, non-virtual bases
#include <cxxabi.h>
extern "C" void *_ZTVN10__cxxabiv120__si_class_type_infoE[];
extern "C" inline void *__dynamic_cast(const void *sub, const abi::__class_type_info *, const abi::__class_type_info *dst, ptrdiff_t)
{
    const void *const *vtable = *(const void *const *const *)sub;
    const void *whole = (const char *)sub + ((const ptrdiff_t *)vtable)[-2];
    const void *ti = vtable[-1];
    for (;;) {
        if (ti == dst)
            return (void *)whole;
        const void *const *t = (const void *const *)ti;
        if (t[0] != (const void *)&_ZTVN10__cxxabiv120__si_class_type_infoE[2])
            return nullptr;
        ti = t[2];
    }
}
#endif
