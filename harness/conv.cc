// Conversion of BSP records between the generic form and each on-disk format: lossless or refused.
#include "vf.hh"
#include <common/bspfile.hh>
#include "common/bspfile_q1.cc"
#include "common/bspfile_q2.cc"
#include "common/bspfile_common.cc"
#include "common/bspfile_generic.cc"

// ---------------------------------------------------------------- symbolic records
static qvec3f v3f(const char *n) { return {vf::any<float>(n), vf::any<float>(n), vf::any<float>(n)}; }
static qvec3f v3f_num(const char *n)
{
    qvec3f v = v3f(n);
    vf_require(!vf::isnan_(v[0]) && !vf::isnan_(v[1]) && !vf::isnan_(v[2]));
    return v;
}
static qvec3s v3s(const char *n) { return {vf::any<int16_t>(n), vf::any<int16_t>(n), vf::any<int16_t>(n)}; }
template<class T, size_t N>
static std::array<T, N> arr(const char *n)
{
    std::array<T, N> a;
    for (auto &x : a)
        x = vf::any<T>(n);
    return a;
}
static bool same(const qvec3f &a, const qvec3f &b) { return vf::bits_eq(a[0], b[0]) && vf::bits_eq(a[1], b[1]) && vf::bits_eq(a[2], b[2]); }
static bool same(const qvec3s &a, const qvec3s &b) { return a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; }
static bool same(const texvecf &a, const texvecf &b)
{
    bool r = true;
    for (int i = 0; i < 2; i++)
        for (int j = 0; j < 4; j++)
            r &= vf::bits_eq(a.at(i, j), b.at(i, j));
    return r;
}
template<class A, class B>
static bool eqarr(const A &a, const B &b)
{
    bool r = a.size() == b.size();
    for (size_t i = 0; i < a.size() && i < b.size(); i++)
        r &= (int64_t)a[i] == (int64_t)b[i];
    return r;
}
// a bound fits when its outward-rounded value does: floor(lower) and ceil(upper) lie in [-32768, 32767]
static bool fitslo(float f) { return f >= -32768.0f && f < 32768.0f; }
static bool fitshi(float f) { return f > -32769.0f && f <= 32767.0f; }
static bool fits16(const qvec3f &lo, const qvec3f &hi)
{
    return fitslo(lo[0]) && fitslo(lo[1]) && fitslo(lo[2]) && fitshi(hi[0]) && fitshi(hi[1]) && fitshi(hi[2]);
}
// the 16-bit box contains the exact one and is the tightest such box
static bool outward(const qvec3s &lo, const qvec3s &hi, const qvec3f &mins, const qvec3f &maxs)
{
    bool r = true;
    for (int i = 0; i < 3; i++) {
        r &= (float)lo[i] <= mins[i] && (float)lo[i] + 1.0f > mins[i];
        r &= (float)hi[i] >= maxs[i] && (float)hi[i] - 1.0f < maxs[i];
    }
    return r;
}
static bool in16(int64_t v) { return v >= -32768 && v <= 32767; }
static bool inu16(int64_t v) { return v >= 0 && v <= 65535; }

static bsp2_dnode_t any_node()
{
    bsp2_dnode_t g{};
    g.planenum = vf::any<int32_t>("planenum");
    g.children = arr<int32_t, 2>("child");
    g.mins = v3f_num("mins");
    g.maxs = v3f_num("maxs");
    g.firstface = vf::any<uint32_t>("firstface");
    g.numfaces = vf::any<uint32_t>("numfaces");
    return g;
}
static mleaf_t any_leaf()
{
    mleaf_t g{};
    g.contents = vf::any<int32_t>("contents");
    g.visofs = vf::any<int32_t>("visofs");
    g.mins = v3f_num("mins");
    g.maxs = v3f_num("maxs");
    g.firstmarksurface = vf::any<uint32_t>("firstmarksurface");
    g.nummarksurfaces = vf::any<uint32_t>("nummarksurfaces");
    g.ambient_level = arr<uint8_t, NUM_AMBIENTS>("ambient");
    g.cluster = vf::any<int32_t>("cluster");
    g.area = vf::any<int32_t>("area");
    g.firstleafbrush = vf::any<uint32_t>("firstleafbrush");
    g.numleafbrushes = vf::any<uint32_t>("numleafbrushes");
    return g;
}
static mface_t any_face()
{
    mface_t g{};
    g.planenum = vf::any<int64_t>("planenum");
    g.side = vf::any<int32_t>("side");
    g.firstedge = vf::any<int32_t>("firstedge");
    g.numedges = vf::any<int32_t>("numedges");
    g.texinfo = vf::any<int32_t>("texinfo");
    g.styles = arr<uint8_t, MAXLIGHTMAPS>("style");
    g.lightofs = vf::any<int32_t>("lightofs");
    return g;
}
#define CONVERT(T, s, g, ok)                                                                                           \
    T s{};                                                                                                             \
    bool threw = false;                                                                                                \
    try {                                                                                                              \
        s = T(g);                                                                                                      \
    } catch (const std::overflow_error &) {                                                                            \
        threw = true;                                                                                                  \
    }                                                                                                                  \
    vf_ensure(threw == !(ok), #T ": refused exactly when a value does not fit the format");                            \
    if (threw) {                                                                                                       \
        vf_cover("refused");                                                                                           \
        return;                                                                                                        \
    }                                                                                                                  \
    vf_cover("converted")

// ---------------------------------------------------------------- nodes
template<class S>
static void node(bool wide_children, bool wide_faces)
{
    bsp2_dnode_t g = any_node();
    bool ok = fits16(g.mins, g.maxs) && (wide_children || (in16(g.children[0]) && in16(g.children[1]))) &&
              (wide_faces || (inu16(g.firstface) && inu16(g.numfaces)));
    CONVERT(S, s, g, ok);
    vf_ensure(s.planenum == g.planenum && eqarr(s.children, g.children) && s.firstface == g.firstface &&
                  s.numfaces == g.numfaces, "node fields are kept exactly");
    vf_ensure(outward(s.mins, s.maxs, g.mins, g.maxs), "node bounds are rounded outwards, by less than one unit");
    bsp2_dnode_t b = s;
    vf_ensure(b.planenum == g.planenum && eqarr(b.children, g.children) && b.firstface == g.firstface &&
                  b.numfaces == g.numfaces, "node fields survive the round trip");
}
//@ contract prop=B01
CONTRACT(b01_node_bsp29) { node<bsp29_dnode_t>(false, false); }
//@ contract prop=B01
CONTRACT(b01_node_2psb) { node<bsp2rmq_dnode_t>(true, true); }
//@ contract prop=B01
CONTRACT(b01_node_q2) { node<q2_dnode_t>(true, false); }
template<class S>
static void node_back()
{
    S s{};
    s.planenum = vf::any<int32_t>("planenum");
    s.children = arr<typename decltype(s.children)::value_type, 2>("child");
    s.mins = v3s("mins");
    s.maxs = v3s("maxs");
    s.firstface = vf::any<decltype(s.firstface)>("firstface");
    s.numfaces = vf::any<decltype(s.numfaces)>("numfaces");
    bsp2_dnode_t g = s;
    S t(g);
    vf_ensure(t.planenum == s.planenum && eqarr(t.children, s.children) && same(t.mins, s.mins) && same(t.maxs, s.maxs) &&
                  t.firstface == s.firstface && t.numfaces == s.numfaces, "every stored node survives load and save unchanged");
}
//@ contract prop=B01
CONTRACT(b01_node_bsp29_back) { node_back<bsp29_dnode_t>(); }
//@ contract prop=B01
CONTRACT(b01_node_2psb_back) { node_back<bsp2rmq_dnode_t>(); }
//@ contract prop=B01
CONTRACT(b01_node_q2_back) { node_back<q2_dnode_t>(); }

// ---------------------------------------------------------------- clipnodes
//@ contract prop=B01
CONTRACT(b01_clipnode)
{
    bsp2_dclipnode_t g{};
    g.planenum = vf::any<int32_t>("planenum");
    g.children = arr<int32_t, 2>("child");
    bool ok = true;
    for (auto c : g.children)
        ok &= c >= -15 && c <= 0xfff0;
    CONVERT(bsp29_dclipnode_t, s, g, ok);
    bsp2_dclipnode_t b = s;
    vf_ensure(b.planenum == g.planenum && eqarr(b.children, g.children), "clipnode survives the round trip (65520 nodes, 15 contents)");
}
//@ contract prop=B01
CONTRACT(b01_clipnode_back)
{
    bsp29_dclipnode_t s{};
    s.planenum = vf::any<int32_t>("planenum");
    s.children = arr<int16_t, 2>("child");
    bsp2_dclipnode_t g = s;
    for (int i = 0; i < 2; i++) {
        uint16_t u = (uint16_t)s.children[i];
        vf_ensure(g.children[i] == (u > 0xfff0 ? (int)u - 65536 : (int)u), "stored children above 65520 are contents, the rest node numbers");
    }
    bsp29_dclipnode_t t(g);
    vf_ensure(t.planenum == s.planenum && eqarr(t.children, s.children), "every stored clipnode survives load and save unchanged");
}

// ---------------------------------------------------------------- faces
template<class S>
static void face(int64_t planemin, int64_t planemax, bool wide)
{
    mface_t g = any_face();
    bool ok = g.planenum >= planemin && g.planenum <= planemax && (wide || (in16(g.side) && in16(g.numedges) && in16(g.texinfo)));
    CONVERT(S, s, g, ok);
    vf_ensure(s.planenum == g.planenum && s.side == g.side && s.numedges == g.numedges && s.texinfo == g.texinfo &&
                  s.firstedge == g.firstedge && s.lightofs == g.lightofs && eqarr(s.styles, g.styles), "face fields are kept exactly");
    mface_t b = s;
    vf_ensure(b.planenum == g.planenum && b.side == g.side && b.numedges == g.numedges && b.texinfo == g.texinfo &&
                  b.firstedge == g.firstedge && b.lightofs == g.lightofs && eqarr(b.styles, g.styles), "face survives the round trip");
}
//@ contract prop=B01
CONTRACT(b01_face_bsp29) { face<bsp29_dface_t>(-32768, 32767, false); }
//@ contract prop=B01
CONTRACT(b01_face_bsp2) { face<bsp2_dface_t>(INT32_MIN, INT32_MAX, true); }
//@ contract prop=B01
CONTRACT(b01_face_q2) { face<q2_dface_t>(0, 65535, false); }
//@ contract prop=B01
CONTRACT(b01_face_qbism) { face<q2_dface_qbism_t>(0, UINT32_MAX, true); }
template<class S>
static void face_back()
{
    S s{};
    s.planenum = vf::any<decltype(s.planenum)>("planenum");
    s.side = vf::any<decltype(s.side)>("side");
    s.firstedge = vf::any<int32_t>("firstedge");
    s.numedges = vf::any<decltype(s.numedges)>("numedges");
    s.texinfo = vf::any<decltype(s.texinfo)>("texinfo");
    s.styles = arr<uint8_t, MAXLIGHTMAPS>("style");
    s.lightofs = vf::any<int32_t>("lightofs");
    mface_t g = s;
    S t(g);
    vf_ensure(t.planenum == s.planenum && t.side == s.side && t.firstedge == s.firstedge && t.numedges == s.numedges &&
                  t.texinfo == s.texinfo && eqarr(t.styles, s.styles) && t.lightofs == s.lightofs,
        "every stored face survives load and save unchanged");
}
//@ contract prop=B01
CONTRACT(b01_face_bsp29_back) { face_back<bsp29_dface_t>(); }
//@ contract prop=B01
CONTRACT(b01_face_bsp2_back) { face_back<bsp2_dface_t>(); }
//@ contract prop=B01
CONTRACT(b01_face_q2_back) { face_back<q2_dface_t>(); }
//@ contract prop=B01
CONTRACT(b01_face_qbism_back) { face_back<q2_dface_qbism_t>(); }

// ---------------------------------------------------------------- leafs
template<class S>
static void leaf_q1(bool wide)
{
    mleaf_t g = any_leaf();
    bool ok = fits16(g.mins, g.maxs) && (wide || (inu16(g.firstmarksurface) && inu16(g.nummarksurfaces)));
    CONVERT(S, s, g, ok);
    vf_ensure(s.contents == g.contents && s.visofs == g.visofs && s.firstmarksurface == g.firstmarksurface &&
                  s.nummarksurfaces == g.nummarksurfaces && eqarr(s.ambient_level, g.ambient_level), "leaf fields are kept exactly");
    vf_ensure(outward(s.mins, s.maxs, g.mins, g.maxs), "leaf bounds are rounded outwards, by less than one unit");
    mleaf_t b = s;
    vf_ensure(b.contents == g.contents && b.visofs == g.visofs && b.firstmarksurface == g.firstmarksurface &&
                  b.nummarksurfaces == g.nummarksurfaces && eqarr(b.ambient_level, g.ambient_level), "leaf survives the round trip");
}
//@ contract prop=B01
CONTRACT(b01_leaf_bsp29) { leaf_q1<bsp29_dleaf_t>(false); }
//@ contract prop=B01
CONTRACT(b01_leaf_2psb) { leaf_q1<bsp2rmq_dleaf_t>(true); }
//@ contract prop=B01
CONTRACT(b01_leaf_bsp2)
{
    mleaf_t g = any_leaf();
    bsp2_dleaf_t s(g);
    vf_ensure(s.contents == g.contents && s.visofs == g.visofs && s.firstmarksurface == g.firstmarksurface &&
                  s.nummarksurfaces == g.nummarksurfaces && eqarr(s.ambient_level, g.ambient_level) && same(s.mins, g.mins) &&
                  same(s.maxs, g.maxs), "leaf fields are kept exactly");
    mleaf_t b = s;
    vf_ensure(b.contents == g.contents && b.visofs == g.visofs && b.firstmarksurface == g.firstmarksurface &&
                  b.nummarksurfaces == g.nummarksurfaces && eqarr(b.ambient_level, g.ambient_level) && same(b.mins, g.mins) &&
                  same(b.maxs, g.maxs), "leaf survives the round trip");
}
//@ contract prop=B01
CONTRACT(b01_leaf_q2)
{
    mleaf_t g = any_leaf();
    bool ok = fits16(g.mins, g.maxs) && inu16(g.firstmarksurface) && inu16(g.nummarksurfaces) &&
              inu16(g.firstleafbrush) && inu16(g.numleafbrushes) && in16(g.cluster) && in16(g.area);
    CONVERT(q2_dleaf_t, s, g, ok);
    vf_ensure(s.contents == g.contents && s.cluster == g.cluster && s.area == g.area && s.firstleafface == g.firstmarksurface &&
                  s.numleaffaces == g.nummarksurfaces && s.firstleafbrush == g.firstleafbrush && s.numleafbrushes == g.numleafbrushes,
        "leaf fields are kept exactly");
    vf_ensure(outward(s.mins, s.maxs, g.mins, g.maxs), "leaf bounds are rounded outwards, by less than one unit");
    mleaf_t b = s;
    vf_ensure(b.contents == g.contents && b.cluster == g.cluster && b.area == g.area && b.firstmarksurface == g.firstmarksurface &&
                  b.nummarksurfaces == g.nummarksurfaces && b.firstleafbrush == g.firstleafbrush &&
                  b.numleafbrushes == g.numleafbrushes && b.visofs == -1, "leaf survives the round trip");
}
//@ contract prop=B01
CONTRACT(b01_leaf_qbism)
{
    mleaf_t g = any_leaf();
    q2_dleaf_qbism_t s(g);
    mleaf_t b = s;
    vf_ensure(s.contents == g.contents && s.cluster == g.cluster && s.area == g.area && s.firstleafface == g.firstmarksurface &&
                  s.numleaffaces == g.nummarksurfaces && s.firstleafbrush == g.firstleafbrush && s.numleafbrushes == g.numleafbrushes &&
                  same(s.mins, g.mins) && same(s.maxs, g.maxs), "leaf fields are kept exactly");
    vf_ensure(b.contents == g.contents && b.cluster == g.cluster && b.area == g.area && b.firstmarksurface == g.firstmarksurface &&
                  b.nummarksurfaces == g.nummarksurfaces && b.firstleafbrush == g.firstleafbrush &&
                  b.numleafbrushes == g.numleafbrushes && same(b.mins, g.mins) && same(b.maxs, g.maxs) && b.visofs == -1,
        "leaf survives the round trip");
}
template<class S>
static void leaf_q1_back()
{
    S s{};
    s.contents = vf::any<int32_t>("contents");
    s.visofs = vf::any<int32_t>("visofs");
    s.mins = v3s("mins");
    s.maxs = v3s("maxs");
    s.firstmarksurface = vf::any<decltype(s.firstmarksurface)>("first");
    s.nummarksurfaces = vf::any<decltype(s.nummarksurfaces)>("num");
    s.ambient_level = arr<uint8_t, NUM_AMBIENTS>("ambient");
    mleaf_t g = s;
    S t(g);
    vf_ensure(t.contents == s.contents && t.visofs == s.visofs && same(t.mins, s.mins) && same(t.maxs, s.maxs) &&
                  t.firstmarksurface == s.firstmarksurface && t.nummarksurfaces == s.nummarksurfaces &&
                  eqarr(t.ambient_level, s.ambient_level), "every stored leaf survives load and save unchanged");
}
//@ contract prop=B01
CONTRACT(b01_leaf_bsp29_back) { leaf_q1_back<bsp29_dleaf_t>(); }
//@ contract prop=B01
CONTRACT(b01_leaf_2psb_back) { leaf_q1_back<bsp2rmq_dleaf_t>(); }
//@ contract prop=B01
CONTRACT(b01_leaf_q2_back)
{
    q2_dleaf_t s{};
    s.contents = vf::any<int32_t>("contents");
    s.cluster = vf::any<int16_t>("cluster");
    s.area = vf::any<int16_t>("area");
    s.mins = v3s("mins");
    s.maxs = v3s("maxs");
    s.firstleafface = vf::any<uint16_t>("flf");
    s.numleaffaces = vf::any<uint16_t>("nlf");
    s.firstleafbrush = vf::any<uint16_t>("flb");
    s.numleafbrushes = vf::any<uint16_t>("nlb");
    mleaf_t g = s;
    q2_dleaf_t t(g);
    vf_ensure(t.contents == s.contents && t.cluster == s.cluster && t.area == s.area && same(t.mins, s.mins) && same(t.maxs, s.maxs) &&
                  t.firstleafface == s.firstleafface && t.numleaffaces == s.numleaffaces && t.firstleafbrush == s.firstleafbrush &&
                  t.numleafbrushes == s.numleafbrushes, "every stored leaf survives load and save unchanged");
}

// ---------------------------------------------------------------- models, texinfo, brush sides
static dmodelh2_t any_model()
{
    dmodelh2_t g{};
    g.mins = v3f("mins");
    g.maxs = v3f("maxs");
    g.origin = v3f("origin");
    g.headnode = arr<int32_t, MAX_MAP_HULLS_H2>("headnode");
    g.visleafs = vf::any<int32_t>("visleafs");
    g.firstface = vf::any<int32_t>("firstface");
    g.numfaces = vf::any<int32_t>("numfaces");
    return g;
}
//@ contract prop=B01
CONTRACT(b01_model_q1)
{
    dmodelh2_t g = any_model();
    dmodelq1_t s(g);
    dmodelh2_t b = s;
    vf_ensure(same(b.mins, g.mins) && same(b.maxs, g.maxs) && same(b.origin, g.origin) && b.visleafs == g.visleafs &&
                  b.firstface == g.firstface && b.numfaces == g.numfaces, "model fields survive the round trip");
    for (int i = 0; i < 8; i++)
        vf_ensure(b.headnode[i] == (i < 4 ? g.headnode[i] : 0), "the four hulls of the format are kept");
}
//@ contract prop=B01
CONTRACT(b01_model_q2)
{
    dmodelh2_t g = any_model();
    q2_dmodel_t s(g);
    dmodelh2_t b = s;
    vf_ensure(same(b.mins, g.mins) && same(b.maxs, g.maxs) && same(b.origin, g.origin) && b.headnode[0] == g.headnode[0] &&
                  b.firstface == g.firstface && b.numfaces == g.numfaces, "model fields survive the round trip");
}
static texvecf any_texvec()
{
    texvecf v;
    for (int i = 0; i < 2; i++)
        for (int j = 0; j < 4; j++)
            v.at(i, j) = vf::any<float>("texvec");
    return v;
}
//@ contract prop=B01
CONTRACT(b01_texinfo_q1)
{
    texinfo_t s{};
    s.vecs = any_texvec();
    s.miptex = vf::any<int32_t>("miptex");
    s.flags = vf::any<int32_t>("flags");
    mtexinfo_t g = s;
    texinfo_t t(g);
    vf_ensure(g.miptex == s.miptex && g.flags.native == s.flags && same(g.vecs, s.vecs) && g.nexttexinfo == -1, "texinfo is loaded exactly");
    vf_ensure(t.miptex == s.miptex && t.flags == s.flags && same(t.vecs, s.vecs), "every stored texinfo survives load and save unchanged");
}
//@ contract prop=B01
CONTRACT(b01_texinfo_q2)
{
    q2_texinfo_t s{};
    s.vecs = any_texvec();
    s.flags = vf::any<int32_t>("flags");
    s.value = vf::any<int32_t>("value");
    s.texture = arr<char, 32>("texture");
    s.nexttexinfo = vf::any<int32_t>("next");
    mtexinfo_t g = s;
    q2_texinfo_t t(g);
    vf_ensure(g.flags.native == s.flags && g.value == s.value && g.nexttexinfo == s.nexttexinfo && same(g.vecs, s.vecs), "texinfo is loaded exactly");
    vf_ensure(t.flags == s.flags && t.value == s.value && t.nexttexinfo == s.nexttexinfo && same(t.vecs, s.vecs) &&
                  eqarr(t.texture, s.texture), "every stored texinfo survives load and save unchanged");
}
//@ contract prop=B01
CONTRACT(b01_brushside)
{
    q2_dbrushside_qbism_t g{};
    g.planenum = vf::any<uint32_t>("planenum");
    g.texinfo = vf::any<int32_t>("texinfo");
    bool ok = inu16(g.planenum) && in16(g.texinfo);
    CONVERT(q2_dbrushside_t, s, g, ok);
    q2_dbrushside_qbism_t b = s;
    vf_ensure(b.planenum == g.planenum && b.texinfo == g.texinfo, "brush side survives the round trip");
}
