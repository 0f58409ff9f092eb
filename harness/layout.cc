// The binary layout of every BSP record: what is written, and that reading it back gives the same record.
#include "vf.hh"
#include "vf_ios.hh"
#include <common/bspfile.hh>
#include <common/bspxfile.hh>
#include "common/cmdlib.cc"
#include "common/bspfile_q1.cc"
#include "common/bspfile_q2.cc"
#include "common/bspfile_common.cc"
#include "common/bspfile_generic.cc"
#include "common/bspxfile.cc"

// ---------------------------------------------------------------- the expected bytes (format description)
struct expect_t
{
    unsigned char b[256];
    size_t n = 0;
    bool big = false;
    void u(uint64_t v, int bytes)
    {
        for (int i = 0; i < bytes; i++)
            b[n + i] = (unsigned char)(v >> (8 * (big ? bytes - 1 - i : i)));
        n += bytes;
    }
    void u8(uint64_t v) { u(v, 1); }
    void u16(uint64_t v) { u(v & 0xffff, 2); }
    void u32(uint64_t v) { u(v & 0xffffffff, 4); }
    void f32(float f) { u(std::bit_cast<uint32_t>(f), 4); }
    void v3f(const qvec3f &v) { f32(v[0]), f32(v[1]), f32(v[2]); }
    void v3s(const qvec3s &v) { u16(v[0]), u16(v[1]), u16(v[2]); }
    template<size_t N>
    void bytes(const std::array<char, N> &a)
    {
        for (auto c : a)
            u8((unsigned char)c);
    }
    template<size_t N>
    void bytes(const std::array<uint8_t, N> &a)
    {
        for (auto c : a)
            u8(c);
    }
    template<size_t N>
    void ints(const std::array<int32_t, N> &a)
    {
        for (auto c : a)
            u32((uint32_t)c);
    }
    void tex(const texvecf &t)
    {
        for (int i = 0; i < 2; i++)
            for (int j = 0; j < 4; j++)
                f32(t.at(i, j));
    }
};
static qvec3f av3f(const char *n) { return {vf::any<float>(n), vf::any<float>(n), vf::any<float>(n)}; }
static qvec3s av3s(const char *n) { return {vf::any<int16_t>(n), vf::any<int16_t>(n), vf::any<int16_t>(n)}; }
template<class A>
static void aarr(A &a, const char *n)
{
    for (auto &x : a)
        x = vf::any<typename A::value_type>(n);
}
static texvecf atex()
{
    texvecf t;
    for (int i = 0; i < 2; i++)
        for (int j = 0; j < 4; j++)
            t.at(i, j) = vf::any<float>("vecs");
    return t;
}
template<class S, class D>
static void check(const S &s, D describe, bool big)
{
    expect_t e;
    e.big = big;
    describe(e, s);
    unsigned char out[264];
    for (auto &c : out)
        c = 0xAB;
    omemstream o(out, sizeof(out), std::ios_base::out | std::ios_base::binary);
    if (big)
        o << endianness<std::endian::big>;
    else
        o << endianness<std::endian::little>;
    o <= s;
    vf_ensure((bool)o && (size_t)o.tellp() == e.n, "the record has the size the format gives it");
    bool same = true;
    for (size_t i = 0; i < e.n; i++)
        same &= out[i] == e.b[i];
    vf_ensure(same, "every field is written at its place, in its byte order");
    bool clean = true;
    for (size_t i = e.n; i < sizeof(out); i++)
        clean &= out[i] == 0xAB;
    vf_ensure(clean, "nothing is written past the record");
    S back;
    imemstream in((const void *)out, e.n);
    if (big)
        in >> endianness<std::endian::big>;
    else
        in >> endianness<std::endian::little>;
    in >= back;
    vf_ensure((bool)in && (size_t)in.tellg() == e.n, "reading consumes exactly the record");
    expect_t f;
    f.big = big;
    describe(f, back);
    bool eq = true;
    for (size_t i = 0; i < e.n; i++)
        eq &= f.b[i] == e.b[i];
    vf_ensure(eq, "reading back gives the record that was written");
}
#define RECORD(name, T, fill, ...)                                                                                     \
    static void describe_##name(expect_t &e, const T &s) __VA_ARGS__                                                          \
    static T any_##name()                                                                                              \
    {                                                                                                                  \
        T s;                                                                                                           \
        fill;                                                                                                          \
        return s;                                                                                                      \
    }
#define A(f, T) s.f = vf::any<T>(#f)

RECORD(lump, lump_t, (A(fileofs, int32_t), A(filelen, int32_t)), { e.u32(s.fileofs), e.u32(s.filelen); })
//@ contract prop=B02
CONTRACT(b02_lump) { check(any_lump(), describe_lump, false); }
//@ contract prop=B02
CONTRACT(b02_lump_be) { check(any_lump(), describe_lump, true); }

RECORD(header1, dheader_t, { A(ident, int32_t); for (auto &l : s.lumps) l = any_lump(); },
    { e.u32(s.ident); vf_ensure(s.lumps.size() == 15, "15 lumps"); for (auto &l : s.lumps) e.u32(l.fileofs), e.u32(l.filelen); })
//@ contract prop=B02
CONTRACT(b02_header_q1) { check(any_header1(), describe_header1, false); }
RECORD(header2, q2_dheader_t, { A(ident, int32_t); A(version, int32_t); for (auto &l : s.lumps) l = any_lump(); },
    { e.u32(s.ident); e.u32(s.version); vf_ensure(s.lumps.size() == 19, "19 lumps"); for (auto &l : s.lumps) e.u32(l.fileofs), e.u32(l.filelen); })
//@ contract prop=B02
CONTRACT(b02_header_q2) { check(any_header2(), describe_header2, false); }

#define MODELF s.mins = av3f("mins"); s.maxs = av3f("maxs"); s.origin = av3f("origin"); A(firstface, int32_t); A(numfaces, int32_t)
RECORD(modelh2, dmodelh2_t, { MODELF; aarr(s.headnode, "headnode"); A(visleafs, int32_t); },
    { e.v3f(s.mins), e.v3f(s.maxs), e.v3f(s.origin), e.ints(s.headnode), e.u32(s.visleafs), e.u32(s.firstface), e.u32(s.numfaces); vf_ensure(e.n == 80, "80 bytes"); })
//@ contract prop=B02
CONTRACT(b02_model_h2) { check(any_modelh2(), describe_modelh2, false); }
RECORD(modelq1, dmodelq1_t, { MODELF; aarr(s.headnode, "headnode"); A(visleafs, int32_t); },
    { e.v3f(s.mins), e.v3f(s.maxs), e.v3f(s.origin), e.ints(s.headnode), e.u32(s.visleafs), e.u32(s.firstface), e.u32(s.numfaces); vf_ensure(e.n == 64, "64 bytes"); })
//@ contract prop=B02
CONTRACT(b02_model_q1) { check(any_modelq1(), describe_modelq1, false); }
//@ contract prop=B02
CONTRACT(b02_model_q1_be) { check(any_modelq1(), describe_modelq1, true); }
RECORD(modelq2, q2_dmodel_t, { MODELF; A(headnode, int32_t); },
    { e.v3f(s.mins), e.v3f(s.maxs), e.v3f(s.origin), e.u32(s.headnode), e.u32(s.firstface), e.u32(s.numfaces); vf_ensure(e.n == 48, "48 bytes"); })
//@ contract prop=B02
CONTRACT(b02_model_q2) { check(any_modelq2(), describe_modelq2, false); }

RECORD(plane, dplane_t, { s.normal = av3f("normal"); A(dist, float); A(type, int32_t); },
    { e.v3f(s.normal), e.f32(s.dist), e.u32(s.type); })
//@ contract prop=B02
CONTRACT(b02_plane) { check(any_plane(), describe_plane, false); }

RECORD(node29, bsp29_dnode_t, { A(planenum, int32_t); aarr(s.children, "child"); s.mins = av3s("mins"); s.maxs = av3s("maxs"); A(firstface, uint16_t); A(numfaces, uint16_t); },
    { e.u32(s.planenum), e.u16(s.children[0]), e.u16(s.children[1]), e.v3s(s.mins), e.v3s(s.maxs), e.u16(s.firstface), e.u16(s.numfaces); vf_ensure(e.n == 24, "24 bytes"); })
//@ contract prop=B02
CONTRACT(b02_node_bsp29) { check(any_node29(), describe_node29, false); }
//@ contract prop=B02
CONTRACT(b02_node_bsp29_be) { check(any_node29(), describe_node29, true); }
RECORD(node2psb, bsp2rmq_dnode_t, { A(planenum, int32_t); aarr(s.children, "child"); s.mins = av3s("mins"); s.maxs = av3s("maxs"); A(firstface, uint32_t); A(numfaces, uint32_t); },
    { e.u32(s.planenum), e.u32(s.children[0]), e.u32(s.children[1]), e.v3s(s.mins), e.v3s(s.maxs), e.u32(s.firstface), e.u32(s.numfaces); vf_ensure(e.n == 32, "32 bytes"); })
//@ contract prop=B02
CONTRACT(b02_node_2psb) { check(any_node2psb(), describe_node2psb, false); }
RECORD(nodebsp2, bsp2_dnode_t, { A(planenum, int32_t); aarr(s.children, "child"); s.mins = av3f("mins"); s.maxs = av3f("maxs"); A(firstface, uint32_t); A(numfaces, uint32_t); },
    { e.u32(s.planenum), e.u32(s.children[0]), e.u32(s.children[1]), e.v3f(s.mins), e.v3f(s.maxs), e.u32(s.firstface), e.u32(s.numfaces); vf_ensure(e.n == 44, "44 bytes"); })
//@ contract prop=B02
CONTRACT(b02_node_bsp2) { check(any_nodebsp2(), describe_nodebsp2, false); }
RECORD(nodeq2, q2_dnode_t, { A(planenum, int32_t); aarr(s.children, "child"); s.mins = av3s("mins"); s.maxs = av3s("maxs"); A(firstface, uint16_t); A(numfaces, uint16_t); },
    { e.u32(s.planenum), e.u32(s.children[0]), e.u32(s.children[1]), e.v3s(s.mins), e.v3s(s.maxs), e.u16(s.firstface), e.u16(s.numfaces); vf_ensure(e.n == 28, "28 bytes"); })
//@ contract prop=B02
CONTRACT(b02_node_q2) { check(any_nodeq2(), describe_nodeq2, false); }

RECORD(clip29, bsp29_dclipnode_t, { A(planenum, int32_t); aarr(s.children, "child"); },
    { e.u32(s.planenum), e.u16(s.children[0]), e.u16(s.children[1]); })
//@ contract prop=B02
CONTRACT(b02_clipnode_bsp29) { check(any_clip29(), describe_clip29, false); }
RECORD(clip2, bsp2_dclipnode_t, { A(planenum, int32_t); aarr(s.children, "child"); },
    { e.u32(s.planenum), e.u32(s.children[0]), e.u32(s.children[1]); })
//@ contract prop=B02
CONTRACT(b02_clipnode_bsp2) { check(any_clip2(), describe_clip2, false); }

RECORD(tex1, texinfo_t, { s.vecs = atex(); A(miptex, int32_t); A(flags, int32_t); },
    { e.tex(s.vecs), e.u32(s.miptex), e.u32(s.flags); vf_ensure(e.n == 40, "40 bytes"); })
//@ contract prop=B02
CONTRACT(b02_texinfo_q1) { check(any_tex1(), describe_tex1, false); }
RECORD(tex2, q2_texinfo_t, { s.vecs = atex(); A(flags, int32_t); A(value, int32_t); aarr(s.texture, "texture"); A(nexttexinfo, int32_t); },
    { e.tex(s.vecs), e.u32(s.flags), e.u32(s.value), e.bytes(s.texture), e.u32(s.nexttexinfo); vf_ensure(e.n == 76, "76 bytes"); })
//@ contract prop=B02
CONTRACT(b02_texinfo_q2) { check(any_tex2(), describe_tex2, false); }

#define FACE(P, I) A(planenum, P); A(side, I); A(firstedge, int32_t); A(numedges, I); A(texinfo, I); aarr(s.styles, "style"); A(lightofs, int32_t)
#define FACE16 { e.u16(s.planenum), e.u16(s.side), e.u32(s.firstedge), e.u16(s.numedges), e.u16(s.texinfo), e.bytes(s.styles), e.u32(s.lightofs); vf_ensure(e.n == 20, "20 bytes"); }
#define FACE32 { e.u32(s.planenum), e.u32(s.side), e.u32(s.firstedge), e.u32(s.numedges), e.u32(s.texinfo), e.bytes(s.styles), e.u32(s.lightofs); vf_ensure(e.n == 28, "28 bytes"); }
RECORD(face29, bsp29_dface_t, { FACE(int16_t, int16_t); }, FACE16)
//@ contract prop=B02
CONTRACT(b02_face_bsp29) { check(any_face29(), describe_face29, false); }
RECORD(face2, bsp2_dface_t, { FACE(int32_t, int32_t); }, FACE32)
//@ contract prop=B02
CONTRACT(b02_face_bsp2) { check(any_face2(), describe_face2, false); }
RECORD(faceq2, q2_dface_t, { FACE(uint16_t, int16_t); }, FACE16)
//@ contract prop=B02
CONTRACT(b02_face_q2) { check(any_faceq2(), describe_faceq2, false); }
RECORD(faceqb, q2_dface_qbism_t, { FACE(uint32_t, int32_t); }, FACE32)
//@ contract prop=B02
CONTRACT(b02_face_qbism) { check(any_faceqb(), describe_faceqb, false); }

#define LEAF1(I) A(contents, int32_t); A(visofs, int32_t); A(firstmarksurface, I); A(nummarksurfaces, I); aarr(s.ambient_level, "ambient")
RECORD(leaf29, bsp29_dleaf_t, { LEAF1(uint16_t); s.mins = av3s("mins"); s.maxs = av3s("maxs"); },
    { e.u32(s.contents), e.u32(s.visofs), e.v3s(s.mins), e.v3s(s.maxs), e.u16(s.firstmarksurface), e.u16(s.nummarksurfaces), e.bytes(s.ambient_level); vf_ensure(e.n == 28, "28 bytes"); })
//@ contract prop=B02
CONTRACT(b02_leaf_bsp29) { check(any_leaf29(), describe_leaf29, false); }
RECORD(leaf2psb, bsp2rmq_dleaf_t, { LEAF1(uint32_t); s.mins = av3s("mins"); s.maxs = av3s("maxs"); },
    { e.u32(s.contents), e.u32(s.visofs), e.v3s(s.mins), e.v3s(s.maxs), e.u32(s.firstmarksurface), e.u32(s.nummarksurfaces), e.bytes(s.ambient_level); vf_ensure(e.n == 32, "32 bytes"); })
//@ contract prop=B02
CONTRACT(b02_leaf_2psb) { check(any_leaf2psb(), describe_leaf2psb, false); }
RECORD(leafbsp2, bsp2_dleaf_t, { LEAF1(uint32_t); s.mins = av3f("mins"); s.maxs = av3f("maxs"); },
    { e.u32(s.contents), e.u32(s.visofs), e.v3f(s.mins), e.v3f(s.maxs), e.u32(s.firstmarksurface), e.u32(s.nummarksurfaces), e.bytes(s.ambient_level); vf_ensure(e.n == 44, "44 bytes"); })
//@ contract prop=B02
CONTRACT(b02_leaf_bsp2) { check(any_leafbsp2(), describe_leafbsp2, false); }
#define LEAF2(I, U) A(contents, int32_t); A(cluster, I); A(area, I); A(firstleafface, U); A(numleaffaces, U); A(firstleafbrush, U); A(numleafbrushes, U)
RECORD(leafq2, q2_dleaf_t, { LEAF2(int16_t, uint16_t); s.mins = av3s("mins"); s.maxs = av3s("maxs"); },
    { e.u32(s.contents), e.u16(s.cluster), e.u16(s.area), e.v3s(s.mins), e.v3s(s.maxs), e.u16(s.firstleafface), e.u16(s.numleaffaces), e.u16(s.firstleafbrush), e.u16(s.numleafbrushes); vf_ensure(e.n == 28, "28 bytes"); })
//@ contract prop=B02
CONTRACT(b02_leaf_q2) { check(any_leafq2(), describe_leafq2, false); }
RECORD(leafqb, q2_dleaf_qbism_t, { LEAF2(int32_t, uint32_t); s.mins = av3f("mins"); s.maxs = av3f("maxs"); },
    { e.u32(s.contents), e.u32(s.cluster), e.u32(s.area), e.v3f(s.mins), e.v3f(s.maxs), e.u32(s.firstleafface), e.u32(s.numleaffaces), e.u32(s.firstleafbrush), e.u32(s.numleafbrushes); vf_ensure(e.n == 52, "52 bytes"); })
//@ contract prop=B02
CONTRACT(b02_leaf_qbism) { check(any_leafqb(), describe_leafqb, false); }

RECORD(area, darea_t, (A(numareaportals, int32_t), A(firstareaportal, int32_t)), { e.u32(s.numareaportals), e.u32(s.firstareaportal); })
//@ contract prop=B02
CONTRACT(b02_area) { check(any_area(), describe_area, false); }
RECORD(areaportal, dareaportal_t, (A(portalnum, int32_t), A(otherarea, int32_t)), { e.u32(s.portalnum), e.u32(s.otherarea); })
//@ contract prop=B02
CONTRACT(b02_areaportal) { check(any_areaportal(), describe_areaportal, false); }
RECORD(brush, dbrush_t, (A(firstside, int32_t), A(numsides, int32_t), A(contents, int32_t)), { e.u32(s.firstside), e.u32(s.numsides), e.u32(s.contents); })
//@ contract prop=B02
CONTRACT(b02_brush) { check(any_brush(), describe_brush, false); }
RECORD(side2, q2_dbrushside_t, (A(planenum, uint16_t), A(texinfo, int16_t)), { e.u16(s.planenum), e.u16(s.texinfo); })
//@ contract prop=B02
CONTRACT(b02_brushside_q2) { check(any_side2(), describe_side2, false); }
RECORD(sideqb, q2_dbrushside_qbism_t, (A(planenum, uint32_t), A(texinfo, int32_t)), { e.u32(s.planenum), e.u32(s.texinfo); })
//@ contract prop=B02
CONTRACT(b02_brushside_qbism) { check(any_sideqb(), describe_sideqb, false); }
RECORD(miptex, dmiptex_t, { aarr(s.name, "name"); A(width, uint32_t); A(height, uint32_t); aarr(s.offsets, "offset"); },
    { e.bytes(s.name), e.u32(s.width), e.u32(s.height), e.ints(s.offsets); vf_ensure(e.n == 40, "40 bytes"); })
//@ contract prop=B02
CONTRACT(b02_miptex) { check(any_miptex(), describe_miptex, false); }

using edge16 = bsp29_dedge_t;
using edge32 = bsp2_dedge_t;
RECORD(edge16, edge16, { aarr(s, "v"); }, { e.u16(s[0]), e.u16(s[1]); })
//@ contract prop=B02
CONTRACT(b02_edge_bsp29) { check(any_edge16(), describe_edge16, false); }
RECORD(edge32, edge32, { aarr(s, "v"); }, { e.u32(s[0]), e.u32(s[1]); })
//@ contract prop=B02
CONTRACT(b02_edge_bsp2) { check(any_edge32(), describe_edge32, false); }
RECORD(vertex, qvec3f, { s = av3f("v"); }, { e.v3f(s); })
//@ contract prop=B02
CONTRACT(b02_vertex) { check(any_vertex(), describe_vertex, false); }

RECORD(bspxhead, bspx_header_t, { aarr(s.id, "id"); A(numlumps, uint32_t); }, { e.bytes(s.id), e.u32(s.numlumps); })
//@ contract prop=B02
CONTRACT(b02_bspx_header) { check(any_bspxhead(), describe_bspxhead, false); }
RECORD(bspxlump, bspx_lump_t, { aarr(s.lumpname, "name"); A(fileofs, uint32_t); A(filelen, uint32_t); },
    { e.bytes(s.lumpname), e.u32(s.fileofs), e.u32(s.filelen); vf_ensure(e.n == 32, "32 bytes"); })
//@ contract prop=B02
CONTRACT(b02_bspx_lump) { check(any_bspxlump(), describe_bspxlump, false); }
RECORD(decoupled, bspx_decoupled_lm_perface, { A(lmwidth, uint16_t); A(lmheight, uint16_t); A(offset, int32_t); s.world_to_lm_space = atex(); },
    { e.u16(s.lmwidth), e.u16(s.lmheight), e.u32(s.offset), e.tex(s.world_to_lm_space); vf_ensure(e.n == 40, "40 bytes"); })
//@ contract prop=B02
CONTRACT(b02_bspx_decoupled_lm) { check(any_decoupled(), describe_decoupled, false); }
RECORD(fnvert, bspxfacenormals_per_vert, { A(normal, uint32_t); A(tangent, uint32_t); A(bitangent, uint32_t); },
    { e.u32(s.normal), e.u32(s.tangent), e.u32(s.bitangent); })
//@ contract prop=B02
CONTRACT(b02_bspx_facenormal) { check(any_fnvert(), describe_fnvert, false); }
// an empty, one and two face list
static void brushlist(int faces)
{
    bspxbrushes_perbrush s;
    qvec3f a = av3f("lo"), b = av3f("hi");
    for (int i = 0; i < 3; i++)
        vf_require(a[i] <= b[i]);
    s.bounds = aabb3f(a, b);
    s.contents = vf::any<int16_t>("contents");
    for (int i = 0; i < faces; i++)
        s.faces.push_back(qplane3f{av3f("normal"), vf::any<float>("dist")});
    check(s,
        [](expect_t &e, const bspxbrushes_perbrush &x) {
            e.v3f(x.bounds.mins()), e.v3f(x.bounds.maxs()), e.u16(x.contents), e.u16(x.faces.size());
            for (auto &f : x.faces)
                e.v3f(f.normal), e.f32(f.dist);
        },
        false);
}
//@ contract prop=B02
CONTRACT(b02_bspx_brush_0) { brushlist(0); }
//@ contract prop=B02, bounded="2 faces"
CONTRACT(b02_bspx_brush_2) { brushlist(2); }

// ---------------------------------------------------------------- visibility lump header
static void vislump(int clusters, int bytes)
{
    mvis_t v;
    v.resize(clusters);
    for (int i = 0; i < clusters; i++) {
        int32_t a = vf::any<int32_t>("ofs"), b = vf::any<int32_t>("ofs");
        vf_require(a >= 0 && a < 0x40000000 && b >= 0 && b < 0x40000000);
        v.set_bit_offset(VIS_PVS, i, a);
        v.set_bit_offset(VIS_PHS, i, b);
        vf_ensure(v.get_bit_offset(VIS_PVS, i) == a && v.get_bit_offset(VIS_PHS, i) == b, "a row offset is kept");
        vf_ensure(v.bit_offsets[i][0] == a + 4 + 8 * clusters && v.bit_offsets[i][1] == b + 4 + 8 * clusters,
            "row offsets are stored relative to the lump");
    }
    for (int i = 0; i < bytes; i++)
        v.bits.push_back(vf::any<uint8_t>("bits"));
    unsigned char out[64];
    omemstream o(out, sizeof(out), std::ios_base::out | std::ios_base::binary);
    o << endianness<std::endian::little>;
    o <= 0x55u; // the lump does not start the file
    v.stream_write(o);
    size_t n = 4 + 8 * clusters + bytes;
    vf_ensure((bool)o && (size_t)o.tellp() == 4 + n, "the visibility lump is its count, its offsets and its rows");
    mvis_t w;
    lump_t l{4, (int32_t)n};
    imemstream in((const void *)out, sizeof(out));
    in >> endianness<std::endian::little>;
    in.seekg(4);
    w.stream_read(in, l);
    vf_ensure((bool)in && w.bit_offsets.size() == (size_t)clusters && w.bits.size() == (size_t)bytes, "sizes survive");
    bool eq = true;
    for (int i = 0; i < clusters; i++)
        eq &= w.bit_offsets[i] == v.bit_offsets[i];
    for (int i = 0; i < bytes; i++)
        eq &= w.bits[i] == v.bits[i];
    vf_ensure(eq, "offsets and rows survive the round trip");
}
//@ contract prop=B02, bounded="1 cluster, 3 bytes"
CONTRACT(b02_vis_1) { vislump(1, 3); }
//@ contract prop=B02, bounded="3 clusters, 2 bytes"
CONTRACT(b02_vis_3) { vislump(3, 2); }
