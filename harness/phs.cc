// CalcPHS (vis/soundpvs.cc): the hearable set of every leaf, for any number of leafs.
// DecompressVis and CompressRow are taken by their contracts (V01); std::copy to the end of a byte vector and vector
// storage growth are libstdc++.
#include "vf.hh"
#include <algorithm>
#include <iterator>
#include <vector>
namespace
{
void on_append(const std::vector<uint8_t> &to, const uint8_t *p, size_t n);
}
namespace std
{
// appending a range of bytes to a byte vector
inline back_insert_iterator<vector<uint8_t>> copy(
    vector<uint8_t>::iterator a, vector<uint8_t>::iterator b, back_insert_iterator<vector<uint8_t>> out)
{
#ifdef VERIF_SPEC
    vector<uint8_t> &v = *out.container;
    size_t n = b - a;
    on_append(v, a.base(), n);
    memcpy(v._M_impl._M_finish, a.base(), n);
    v._M_impl._M_finish += n;
#else
    out.container->insert(out.container->end(), a, b);
#endif
    return out;
}
} // namespace std
#include "vis/soundpvs.cc"
#include "common/bspfile_generic.cc"
#ifndef VERIF_SPEC
#include "common/bsputils.cc"
#endif

int portalleafs;

#ifdef VERIF_SPEC
namespace
{
struct {
    mvis_t *vis;
    uint8_t *u, *u2, *orig; // the working rows of CalcPHS
    size_t leafbytes;
    size_t q; // arbitrary leaf, whose row is followed
    size_t j; // arbitrary leaf seen from it
    size_t b; // arbitrary bit of the rows
    const uint8_t *byte_j, *byte_b; // by offset into the visibility data: byte j/8 and byte b/8 of the PVS row there
    int32_t oq, oj; // offsets of the PVS rows of q and j
    size_t cur, want; // current leaf, leaf whose PVS row is about to be read
    bool inscan; // ... and it is in the PVS of the current leaf
    bool witness; // some leaf of q's PVS sees b
    uint8_t ub; // byte b/8 of the row before it is merged
    bool done; // q's row has been written
    size_t off, len, t; // where, how long; arbitrary index into it
    uint8_t ct;
    uint8_t *packed;
} g;
bool bit(const uint8_t *byte, size_t n) { return (*byte >> (n & 7)) & 1; }
bool qj() { return bit(g.byte_j + g.oq, g.j); }
bool qb() { return bit(g.byte_b + g.oq, g.b); }
bool jb() { return bit(g.byte_b + g.oj, g.b); }
void on_append(const std::vector<uint8_t> &to, const uint8_t *p, size_t n)
{
    vf_require(to.size() + n <= to.capacity()); // storage growth is not exercised
    vf_ensure(&to == &g.vis->bits && p == g.packed && n == g.len, "the compressed row is appended to the visibility data");
    vf_ensure(g.vis->get_bit_offset(VIS_PHS, g.cur) == (int32_t)to.size(), "the offset of a row is where it is appended");
}
} // namespace

void DecompressVis(const uint8_t *in, const uint8_t *inend, uint8_t *out, uint8_t *outend)
{
    size_t off = in - g.vis->bits.data();
    vf_ensure((int32_t)off == g.vis->get_bit_offset(VIS_PVS, g.want), "the row decompressed is the PVS row of the leaf wanted");
    vf_ensure(inend == g.vis->bits.data() + g.vis->bits.size(), "decompression ends with the visibility data");
    vf_ensure((size_t)(outend - out) == g.leafbytes && (out == g.u || out == g.u2), "a whole row is decompressed");
    if (off >= g.vis->bits.size()) {
        vf_require(false);
        return;
    }
    memcpy(out, vf_bytes("unpacked", g.leafbytes), g.leafbytes);
    vf_require(out[g.j >> 3] == g.byte_j[off]);
    vf_require(out[g.b >> 3] == g.byte_b[off]);
    if (out == g.u2 && g.cur == g.q && g.inscan && bit(g.byte_b + off, g.b))
        g.witness = true;
}
void CompressRow(const uint8_t *vis, const size_t numbytes, std::back_insert_iterator<std::vector<uint8_t>> it)
{
    vf_ensure(vis == g.u && numbytes == g.leafbytes, "a whole row is compressed");
    if (g.cur == g.q) {
        bool r = bit(vis + (g.b >> 3), g.b);
        vf_ensure(!qb() || r, "the PHS of a leaf contains its PVS");
        vf_ensure(!(qj() && jb()) || r, "the PHS of a leaf contains the PVS of every leaf in its PVS");
        vf_ensure(!r || qb() || g.witness, "the PHS of a leaf contains nothing else");
    }
    auto &c = *it.container;
    vf_ensure(c.empty() && c.data() == g.packed, "each row is compressed on its own");
    size_t len = vf::any_in<size_t>("len", 1, 2 * g.leafbytes);
    vf_require(len <= c.capacity());
    memcpy(c._M_impl._M_start, vf_bytes("compressed", len), len);
    c._M_impl._M_finish = c._M_impl._M_start + len;
    g.len = len;
    if (g.cur == g.q) {
        vf_require(g.t < len);
        g.ct = c[g.t];
        g.off = g.vis->bits.size();
        g.done = true;
    }
}
bool vf_pred(int id, uint64_t a, uint64_t b) noexcept
{
    if (id == 1)
        return g.vis->bits.size() <= g.vis->bits.capacity() && g.vis->get_bit_offset(VIS_PVS, g.q) == g.oq &&
               g.vis->get_bit_offset(VIS_PVS, g.j) == g.oj &&
               (g.q >= a || (g.done && g.vis->get_bit_offset(VIS_PHS, g.q) == (int32_t)g.off && g.off < g.vis->bits.size() &&
                                g.t < g.vis->bits.size() - g.off && g.vis->bits[g.off + g.t] == g.ct));
    if (id == 2 || id == 4) {
        // bits of the PVS before byte a, bit b have been merged
        bool r = bit(g.u + (g.b >> 3), g.b), passed = (g.j >> 3) < a || (id == 4 && (g.j >> 3) == a && (g.j & 7) < b);
        return g.cur != g.q || (bit(g.orig + (g.j >> 3), g.j) == qj() && (!qb() || r) && (!passed || !(qj() && jb()) || r) &&
                                   (!r || qb() || g.witness));
    }
    if (id == 3)
        return g.u[g.b >> 3] == (a <= (g.b >> 3) ? g.ub : g.ub | g.u2[g.b >> 3]);
    return true;
}
void vf_ghost(int id, uint64_t a, uint64_t b) noexcept
{
    if (id == 1)
        g.cur = a;
    if (id == 2) {
        g.want = a;
        g.inscan = b;
    }
    if (id == 3)
        g.ub = g.u[g.b >> 3];
}
void vf_name(int id, const void *p) noexcept
{
    (id == 1 ? g.u : id == 2 ? g.u2 : id == 3 ? g.orig : g.packed) = (uint8_t *)p;
}
void vf_hint(int, uint64_t, uint64_t) noexcept { }

template<class T>
void view(std::vector<T> &v, void *p, size_t n, size_t cap)
{
    v._M_impl._M_start = (T *)p;
    v._M_impl._M_finish = (T *)p + n;
    v._M_impl._M_end_of_storage = (T *)p + cap;
}
#endif

static const int MAXLEAFS = 1 << 24;

//@ contract prop=V04 assume="growth of std::vector storage keeps the contents; DecompressVis and CompressRow by their contracts (V01)"
CONTRACT(v04_phs)
{
    portalleafs = vf::any_in<int>("portalleafs", 1, MAXLEAFS);
    size_t n = portalleafs, leafbytes = (n + 7) / 8;
#ifdef VERIF_SPEC
    size_t size = vf::any_in<size_t>("size", 1, 1 << 29), cap = vf::any_in<size_t>("cap", 2, 1 << 30);
    vf_require(cap >= 2 * size);
    alignas(16) static uint8_t store[sizeof(mbsp_t)];
    mbsp_t *bsp = (mbsp_t *)store;
    mvis_t &vis = bsp->dvis;
    const int32_t *offs = (const int32_t *)vf_bytes("offsets", n * 8);
    view(vis.bit_offsets, (void *)offs, n, n);
    view(vis.bits, vf_bytes("bits", cap), size, cap);
    g.vis = &vis;
    g.leafbytes = leafbytes;
    g.q = vf::any_in<size_t>("q", 0, n - 1);
    g.j = vf::any_in<size_t>("j", 0, n - 1);
    g.b = vf::any_in<size_t>("b", 0, n - 1);
    g.t = vf::any_in<size_t>("t", 0, 1 << 24);
    g.byte_j = (const uint8_t *)vf_bytes("byte_j", cap);
    g.byte_b = (const uint8_t *)vf_bytes("byte_b", cap);
    g.oq = vis.get_bit_offset(VIS_PVS, g.q);
    g.oj = vis.get_bit_offset(VIS_PVS, g.j);
    vf_require(g.oq >= 0 && (size_t)g.oq < size && g.oj >= 0 && (size_t)g.oj < size);
    g.done = false;
    g.witness = false;
    try {
        CalcPHS(bsp);
    } catch (const ericwtools_error &) { // padding bits set
        return;
    }
    vf_ensure(g.done, "every leaf gets a PHS row");
    vf_ensure(vis.get_bit_offset(VIS_PVS, g.q) == g.oq, "the PVS offsets stay");
    vf_ensure(vis.get_bit_offset(VIS_PHS, g.q) == (int32_t)g.off, "the PHS offset of a leaf is where its row was appended");
    vf_ensure(g.off + g.t < vis.bits.size() && vis.bits[g.off + g.t] == g.ct, "the rows stay as they were appended");
#else
    vf_require(n <= 600);
    // the same on the native code, for a PVS given bit by bit
    std::vector<uint8_t> rows(n * leafbytes);
    memcpy(rows.data(), vf_bytes("rows", n * leafbytes), n * leafbytes);
    mbsp_t *bsp = (mbsp_t *)calloc(1, sizeof(mbsp_t));
    new (&bsp->dvis) mvis_t;
    bsp->dvis.resize(n);
    for (size_t i = 0; i < n; i++) {
        for (size_t k = n; k < leafbytes * 8; k++)
            rows[i * leafbytes + k / 8] &= ~(1 << (k & 7));
        bsp->dvis.set_bit_offset(VIS_PVS, i, bsp->dvis.bits.size());
        CompressRow(&rows[i * leafbytes], leafbytes, std::back_inserter(bsp->dvis.bits));
    }
    CalcPHS(bsp);
    for (size_t i = 0; i < n; i++) {
        std::vector<uint8_t> want(rows.begin() + i * leafbytes, rows.begin() + (i + 1) * leafbytes), got(leafbytes);
        for (size_t k = 0; k < n; k++)
            if (rows[i * leafbytes + k / 8] & (1 << (k & 7)))
                for (size_t l = 0; l < leafbytes; l++)
                    want[l] |= rows[k * leafbytes + l];
        DecompressVis(bsp->dvis.bits.data() + bsp->dvis.get_bit_offset(VIS_PHS, i), bsp->dvis.bits.data() + bsp->dvis.bits.size(),
            got.data(), got.data() + leafbytes);
        vf_ensure(got == want, "the PHS of a leaf is the union of the PVS of the leafs it sees");
    }
#endif
}

// The offsets stored in the file count from the start of the visibility lump, whose header is the number of clusters and
// two offsets for each.
#ifdef VERIF_SPEC
static const size_t MANY = 1 << 24;
#else
static const size_t MANY = 1 << 16;
#endif
//@ contract prop=V04
CONTRACT(v04_offsets)
{
    size_t n = vf::any_in<size_t>("n", 1, MANY);
    size_t c = vf::any_in<size_t>("c", 0, n - 1), d = vf::any_in<size_t>("d", 0, n - 1), off = vf::any_in<size_t>("off", 0, 1 << 30);
    bool phs = vf::any<bool>("phs"), phs2 = vf::any<bool>("phs2");
    vf_require(n >= 1 && n <= 1 << 24 && c < n && d < n && off <= 1 << 30);
    vf_require(c != d || phs != phs2);
    mvis_t vis;
#ifdef VERIF_SPEC
    view(vis.bit_offsets, vf_bytes("offsets", n * 8), n, n);
#else
    vis.resize(n);
#endif
    int32_t was = vis.bit_offsets[d][phs2];
    vis.set_bit_offset(phs ? VIS_PHS : VIS_PVS, c, off);
    vf_ensure(vis.header_offset() == 4 + 8 * n, "the header of the visibility lump has four bytes and eight for each cluster");
    vf_ensure(vis.bit_offsets[c][phs] == (int32_t)(off + 4 + 8 * n), "offsets are stored from the start of the lump");
    vf_ensure(vis.get_bit_offset(phs ? VIS_PHS : VIS_PVS, c) == (int32_t)off, "an offset reads back as set");
    vf_ensure(vis.bit_offsets[d][phs2] == was, "the other offsets stay");
#ifdef VERIF_SPEC
    view(vis.bit_offsets, nullptr, 0, 0);
#endif
}
