// Bounding boxes (aabb) as a lattice, and checked numeric narrowing.
#include "vf.hh"
#include <common/qvec.hh>
#include <common/mathlib.hh>
#include <common/aabb.hh>
#include <common/numeric_cast.hh>
#include <array>
#include <vector>

// ---------------------------------------------------------------- G01
template<class V, size_t N>
static qvec<V, N> pt(const char *n)
{
    qvec<V, N> p;
    for (size_t i = 0; i < N; i++)
        p[i] = vf::any_finite<V>(n);
    return p;
}
template<class V, size_t N>
static aabb<V, N> box(const char *n)
{
    auto a = pt<V, N>(n);
    auto b = pt<V, N>(n);
    for (size_t i = 0; i < N; i++)
        vf_require(a[i] <= b[i]);
    return {a, b};
}
// pointwise meaning of a box: the set of points p with mins <= p <= maxs
template<class V, size_t N>
static bool in(const qvec<V, N> &p, const aabb<V, N> &b)
{
    bool r = true;
    for (size_t i = 0; i < N; i++)
        r &= p[i] >= b[0][i] && p[i] <= b[1][i];
    return r;
}
template<class V, size_t N>
static void g_construct()
{
    auto a = pt<V, N>("a"), b = pt<V, N>("b");
    aabb<V, N> x(a, b);
    bool ok = true, keep = true;
    for (size_t i = 0; i < N; i++) {
        ok &= x.mins()[i] <= x.maxs()[i];
        keep &= x.mins()[i] == a[i] && x.maxs()[i] == (b[i] < a[i] ? a[i] : b[i]);
    }
    vf_ensure(ok, "a box never has a lower bound above its upper bound");
    vf_ensure(keep, "constructing a box keeps its corners");
    aabb<V, N> one(a);
    vf_ensure(one.mins() == a && one.maxs() == a && one.containsPoint(a), "a one-point box contains that point");
    aabb<V, N> e;
    e += a;
    vf_ensure(e.mins() == a && e.maxs() == a, "adding a point to the empty box gives that point");
    e += b;
    vf_ensure(e.containsPoint(a) && e.containsPoint(b), "a box contains every point added to it");
}
template<class V, size_t N>
static void g_contains()
{
    auto x = box<V, N>("x"), y = box<V, N>("y");
    auto p = pt<V, N>("p");
    vf_ensure(x.containsPoint(p) == in(p, x), "a point is contained exactly when it lies between the bounds");
    bool c = true;
    for (size_t i = 0; i < N; i++)
        c &= x[0][i] <= y[0][i] && x[1][i] >= y[1][i];
    vf_ensure(x.contains(y) == c, "a box is contained exactly when both its corners are");
    vf_ensure(!(x.contains(y) && in(p, y)) || in(p, x), "containment means every point of the inner box is in the outer");
    vf_ensure(x.contains(x), "a box contains itself");
}
// the least upper bound, stated per axis
template<class V, size_t N>
static bool is_lub(const aabb<V, N> &u, const aabb<V, N> &x, const aabb<V, N> &y)
{
    bool r = true;
    for (size_t i = 0; i < N; i++) {
        r &= u[0][i] == (x[0][i] < y[0][i] ? x[0][i] : y[0][i]);
        r &= u[1][i] == (x[1][i] > y[1][i] ? x[1][i] : y[1][i]);
    }
    return r;
}
template<class V, size_t N>
static void g_union()
{
    auto x = box<V, N>("x"), y = box<V, N>("y");
    vf_ensure(is_lub(x + y, x, y), "the union is the smallest box containing both");
}
template<class V, size_t N>
static void g_union_in_place()
{
    auto x = box<V, N>("x"), y = box<V, N>("y");
    auto w = x;
    w += y;
    vf_ensure(is_lub(w, x, y), "the in-place union is the smallest box containing both");
}
template<class V, size_t N>
static void g_expand()
{
    auto x = box<V, N>("x");
    auto p = pt<V, N>("p");
    aabb<V, N> y(p, p);
    vf_ensure(is_lub(x + p, x, y), "expanding by a point gives the smallest box containing it");
    auto f = x;
    f += p;
    vf_ensure(is_lub(f, x, y), "expanding in place gives the smallest box containing it");
}
template<class V, size_t N>
static void g_lub_is_least()
{
    auto x = box<V, N>("x"), y = box<V, N>("y"), z = box<V, N>("z");
    aabb<V, N> u;
    for (size_t i = 0; i < N; i++) {
        u[0][i] = x[0][i] < y[0][i] ? x[0][i] : y[0][i];
        u[1][i] = x[1][i] > y[1][i] ? x[1][i] : y[1][i];
    }
    vf_ensure(u.contains(x) && u.contains(y), "lemma: the per-axis bound contains both boxes");
    vf_ensure(!(z.contains(x) && z.contains(y)) || z.contains(u), "lemma: the per-axis bound is the smallest such box");
}
template<class V, size_t N>
static void g_intersect()
{
    auto x = box<V, N>("x"), y = box<V, N>("y");
    auto p = pt<V, N>("p");
    auto i = x.intersectWith(y);
    bool overlap = true;
    for (size_t k = 0; k < N; k++)
        overlap &= x[0][k] <= y[1][k] && y[0][k] <= x[1][k];
    vf_ensure(i.valid == overlap, "boxes intersect exactly when they share a point");
    if (i.valid) {
        vf_cover("overlapping");
        vf_ensure(x.contains(i.bbox) && y.contains(i.bbox), "the intersection lies in both boxes");
        vf_ensure(!(in(p, x) && in(p, y)) || in(p, i.bbox), "the intersection holds every common point");
    } else {
        vf_cover("disjoint");
    }
    vf_ensure(x.disjoint(y, V(0)) == !overlap, "disjoint means no common point");
    vf_ensure(y.disjoint(x, V(0)) == !overlap, "disjointness is symmetric");
    bool inner = true;
    for (size_t k = 0; k < N; k++)
        inner &= x[0][k] < y[1][k] && y[0][k] < x[1][k];
    vf_ensure(x.disjoint_or_touching(y, V(0)) == !inner, "touching boxes share boundary points only");
}
//@ contract prop=G01
CONTRACT(g01_construct_3d) { g_construct<double, 3>(); }
//@ contract prop=G01
CONTRACT(g01_construct_3f) { g_construct<float, 3>(); }
//@ contract prop=G01
CONTRACT(g01_contains_3d) { g_contains<double, 3>(); }
//@ contract prop=G01
CONTRACT(g01_contains_3f) { g_contains<float, 3>(); }
//@ contract prop=G01
CONTRACT(g01_union_3d) { g_union<double, 3>(); }
//@ contract prop=G01
CONTRACT(g01_union_in_place_3d) { g_union_in_place<double, 3>(); }
//@ contract prop=G01
CONTRACT(g01_expand_3d) { g_expand<double, 3>(); }
//@ contract prop=G01
CONTRACT(g01_lub_is_least_3d) { g_lub_is_least<double, 3>(); }
//@ contract prop=G01
CONTRACT(g01_union_3f) { g_union<float, 3>(); }
//@ contract prop=G01
CONTRACT(g01_union_in_place_3f) { g_union_in_place<float, 3>(); }
//@ contract prop=G01
CONTRACT(g01_expand_3f) { g_expand<float, 3>(); }
//@ contract prop=G01
CONTRACT(g01_lub_is_least_3f) { g_lub_is_least<float, 3>(); }
//@ contract prop=G01
CONTRACT(g01_union_2f) { g_union<float, 2>(); }
//@ contract prop=G01
CONTRACT(g01_union_in_place_2f) { g_union_in_place<float, 2>(); }
//@ contract prop=G01
CONTRACT(g01_expand_2f) { g_expand<float, 2>(); }
//@ contract prop=G01
CONTRACT(g01_lub_is_least_2f) { g_lub_is_least<float, 2>(); }
//@ contract prop=G01
CONTRACT(g01_intersect_3d) { g_intersect<double, 3>(); }
//@ contract prop=G01
CONTRACT(g01_intersect_3f) { g_intersect<float, 3>(); }

// ---------------------------------------------------------------- N01
template<class D, class S>
static void narrow()
{
    S v = vf::any<S>("value");
    __int128 m = v;
    bool fits = m >= (__int128)std::numeric_limits<D>::lowest() && m <= (__int128)std::numeric_limits<D>::max();
    D r{};
    bool threw = false;
    try {
        r = numeric_cast<D>(v);
    } catch (const std::overflow_error &) {
        threw = true;
    }
    vf_ensure(threw == !fits, "a narrowing is refused exactly when the value does not fit");
    if (!threw) {
        vf_cover("fits");
        vf_ensure((__int128)r == m, "an accepted narrowing keeps the value");
    }
    vf_ensure(numeric_cast_will_overflow<D>(v) == !fits, "the overflow predicate agrees");
}
template<class S>
static void narrow_all()
{
    narrow<int8_t, S>();
    narrow<uint8_t, S>();
    narrow<int16_t, S>();
    narrow<uint16_t, S>();
    narrow<int32_t, S>();
    narrow<uint32_t, S>();
    narrow<int64_t, S>();
    narrow<uint64_t, S>();
}
//@ contract prop=N01
CONTRACT(n01_from_i8) { narrow_all<int8_t>(); }
//@ contract prop=N01
CONTRACT(n01_from_u8) { narrow_all<uint8_t>(); }
//@ contract prop=N01
CONTRACT(n01_from_i16) { narrow_all<int16_t>(); }
//@ contract prop=N01
CONTRACT(n01_from_u16) { narrow_all<uint16_t>(); }
//@ contract prop=N01
CONTRACT(n01_from_i32) { narrow_all<int32_t>(); }
//@ contract prop=N01
CONTRACT(n01_from_u32) { narrow_all<uint32_t>(); }
//@ contract prop=N01
CONTRACT(n01_from_i64) { narrow_all<int64_t>(); }
//@ contract prop=N01
CONTRACT(n01_from_u64) { narrow_all<uint64_t>(); }

template<class T, class F>
static void box_cast()
{
    qvec<F, 3> v = pt<F, 3>("v");
    bool lo_ok = true, hi_ok = true;
    F mn = (F)std::numeric_limits<T>::lowest(), mx = (F)std::numeric_limits<T>::max();
    for (int i = 0; i < 3; i++) {
        lo_ok &= v[i] >= mn && v[i] < mx + 1;
        hi_ok &= v[i] > mn - 1 && v[i] <= mx;
    }
    bool t = false;
    qvec<T, 3> r;
    try {
        r = aabb_mins_cast<T>(v);
    } catch (const std::overflow_error &) {
        t = true;
    }
    vf_ensure(t == !lo_ok, "lower bounds: refused exactly when the rounded value does not fit");
    if (!t) {
        bool o = true;
        for (int i = 0; i < 3; i++)
            o &= (F)r[i] <= v[i] && (F)r[i] + 1 > v[i];
        vf_ensure(o, "lower bounds are rounded down, by less than one unit");
    }
    t = false;
    try {
        r = aabb_maxs_cast<T>(v);
    } catch (const std::overflow_error &) {
        t = true;
    }
    vf_ensure(t == !hi_ok, "upper bounds: refused exactly when the rounded value does not fit");
    if (!t) {
        bool o = true;
        for (int i = 0; i < 3; i++)
            o &= (F)r[i] >= v[i] && (F)r[i] - 1 < v[i];
        vf_ensure(o, "upper bounds are rounded up, by less than one unit");
    }
}
//@ contract prop=N01
CONTRACT(n01_bounds_i16_float) { box_cast<int16_t, float>(); }
//@ contract prop=N01
CONTRACT(n01_bounds_i16_double) { box_cast<int16_t, double>(); }

template<class D, class S>
static void arr_cast()
{
    S s;
    for (auto &x : s)
        x = vf::any<typename S::value_type>("e");
    D d{};
    size_t n = std::min(d.size(), s.size());
    bool fits = true;
    using DL = std::numeric_limits<typename D::value_type>;
    for (size_t i = 0; i < n; i++)
        fits &= (int64_t)s[i] >= (int64_t)DL::lowest() && (int64_t)s[i] <= (int64_t)DL::max();
    bool threw = false;
    try {
        d = array_cast<D>(s);
    } catch (const std::overflow_error &) {
        threw = true;
    }
    vf_ensure(threw == !fits, "an array narrowing is refused exactly when an element does not fit");
    if (!threw) {
        bool ok = true;
        for (size_t i = 0; i < d.size(); i++)
            ok &= (int64_t)d[i] == (i < n ? (int64_t)s[i] : 0);
        vf_ensure(ok, "array narrowing keeps every element, in order, and zero-fills the rest");
    }
}
//@ contract prop=N01
CONTRACT(n01_array_i16_i32) { arr_cast<std::array<int16_t, 4>, std::array<int32_t, 4>>(); }
//@ contract prop=N01
CONTRACT(n01_array_grow) { arr_cast<std::array<uint32_t, 5>, std::array<int32_t, 3>>(); }
//@ contract prop=N01
CONTRACT(n01_array_shrink) { arr_cast<std::array<uint8_t, 2>, std::array<int32_t, 4>>(); }
