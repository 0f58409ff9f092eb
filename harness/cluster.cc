// Visibility of clusters (vis/vis.cc), for any number of leafs, clusters and portals.
// CompressRow is taken by its contract (V01); std::copy to the end of a byte vector and vector storage growth are libstdc++.
#include "vf.hh"
#include <algorithm>
#include <iterator>
#include <vector>
namespace
{
void on_append(const std::vector<uint8_t> &to, const uint8_t *p, size_t n);
}
namespace std
{
// appending a range of bytes to a byte vector
inline back_insert_iterator<vector<uint8_t>> copy(
    vector<uint8_t>::iterator a, vector<uint8_t>::iterator b, back_insert_iterator<vector<uint8_t>> out)
{
#ifdef VERIF_SPEC
    vector<uint8_t> &v = *out.container;
    size_t n = b - a;
    on_append(v, a.base(), n);
    memcpy(v._M_impl._M_finish, a.base(), n);
    v._M_impl._M_finish += n;
#else
    out.container->insert(out.container->end(), a, b);
#endif
    return out;
}
} // namespace std
#include "vis/vis.cc"
#include "common/bspfile_generic.cc"
#ifndef VERIF_SPEC
#include "common/bsputils.cc"
#endif

#ifdef VERIF_SPEC
namespace
{
struct {
    bool on;
    bool q2;
    mbsp_t *bsp;
    leafbits_t *buffer;
    uint8_t *row; // the row of the cluster
    size_t rowbytes, bits; // its size, and how many leafs it covers
    visportal_t *const *list; // the portals of the cluster
    size_t nportals, k; // how many; arbitrary index
    const visportal_t *pk, *pq; // that portal; any other one
    bool at_k; // the current portal is pk
    size_t c; // the cluster
    size_t b, r; // arbitrary cluster; arbitrary bit of the row, which belongs to cluster b
    int cluster_r, old_r; // the cluster and row offset of leaf r
    bool witness, notdone; // some portal sees cluster b; some portal is not done
    uint32_t w; // word b/32 of the buffer before the current portal is merged
    size_t other;
    uint8_t other_was; // an arbitrary byte of the rows of other clusters
    size_t at, len; // where the row is appended, and its length
    bool compressed, appended;
} g;
bool bit(const leafbits_t &l, size_t n) { return (l.data()[n >> 5] >> (n & 31)) & 1; }
bool rowbit() { return (g.row[g.r >> 3] >> (g.r & 7)) & 1; }
mleaf_t &leaf_r() { return g.bsp->dleafs[g.r + 1]; }
void on_append(const std::vector<uint8_t> &to, const uint8_t *p, size_t n)
{
    vf_require(to.size() + n <= to.capacity()); // storage growth is not exercised
    vf_ensure(&to == &vismap && p == compressed.data() && n == g.len && !g.appended, "the compressed row is appended once");
    vf_ensure(g.bsp->dvis.get_bit_offset(VIS_PVS, g.c) == (int32_t)to.size(), "the offset of the cluster is where its row is appended");
    g.appended = true;
}
template<class T>
void view(std::vector<T> &v, void *p, size_t n, size_t cap)
{
    v._M_impl._M_start = (T *)p;
    v._M_impl._M_finish = (T *)p + n;
    v._M_impl._M_end_of_storage = (T *)p + cap;
}
} // namespace

void CompressRow(const uint8_t *vis, const size_t numbytes, std::back_insert_iterator<std::vector<uint8_t>> it)
{
    vf_ensure(vis == g.row && numbytes == (g.bits + 7) / 8, "the row of the cluster is compressed");
    bool r = rowbit();
    if (g.r < g.bits) {
        vf_ensure(!(g.b == g.c) || r, "a cluster sees itself");
        vf_ensure(!bit(g.pk->visbits, g.b) || g.nportals == 0 || r, "everything a portal of the cluster sees is seen");
        vf_ensure(!r || g.b == g.c || g.witness, "nothing else is seen");
    } else {
        vf_ensure(!r, "the padding of the row stays empty");
    }
    auto &c = *it.container;
    vf_ensure(&c == &compressed && c.empty(), "each row is compressed on its own");
    g.len = vf::any_in<size_t>("len", 1, 2 * g.rowbytes);
    vf_require(g.len <= c.capacity());
    c._M_impl._M_finish = c._M_impl._M_start + g.len;
    g.compressed = true;
}
bool vf_pred(int id, uint64_t a, uint64_t b) noexcept
{
    if (id == 1) {
        size_t off = a - (uintptr_t)g.list, i = off / 8;
        bool v = bit(*g.buffer, g.b);
        return off % 8 == 0 && i < g.nportals && !(g.k < i && bit(g.pk->visbits, g.b) && !v) && !(g.k < i && g.pk->status != pstat_done) && (!v || g.witness);
    }
    if (id == 2) {
        size_t w = g.b >> 5;
        return g.buffer->data()[w] == (a <= w ? g.w : g.w | (g.at_k ? g.pk : g.pq)->visbits.data()[w]);
    }
    if (id == 3 || id == 4)
        return rowbit() == (g.r < a && bit(*g.buffer, g.b)) && uncompressed[g.other] == g.other_was;
    if (id == 6)
        return g.q2 || g.r >= g.bits || (leaf_r().cluster == g.cluster_r &&
                                    leaf_r().visofs == (g.r < a && g.cluster_r == (int)g.c ? (int32_t)g.at : g.old_r));
    return true;
}
void vf_ghost(int, uint64_t, uint64_t) noexcept { }
void vf_name(int id, const void *p) noexcept
{
    if (id == 1) {
        const visportal_t *cur = (const visportal_t *)p;
        g.at_k = cur == g.pk;
        g.w = g.buffer->data()[g.b >> 5];
        if (bit(cur->visbits, g.b))
            g.witness = true;
        if (cur->status != pstat_done)
            g.notdone = true;
    }
}
void vf_hint(int id, uint64_t a, uint64_t) noexcept
{
    int c = g.bsp->dleafs[a + 1].cluster;
    vf_require(c >= 0 && c < portalleafs);
}
static void bitset(leafbits_t &l, const char *name, size_t n)
{
    size_t words = (n + 31) / 32;
    l._size = n;
    new (&l.bits) std::unique_ptr<uint32_t[]>((uint32_t *)vf_bytes(name, words * 4));
}
static visportal_t &any_portal(visportal_t &p, const char *bits)
{
    p.status = vf::any<pstatus_t>("status");
    bitset(p.visbits, bits, portalleafs);
    return p;
}
#endif

#ifdef VERIF_SPEC
static const int MAXLEAFS = 1 << 24;
#else
static const int MAXLEAFS = 300;
#endif

static void flow(bool q2)
{
    portalleafs = vf::any_in<int>("portalleafs", 1, MAXLEAFS);
    portalleafs_real = vf::any_in<int>("portalleafs_real", 1, MAXLEAFS);
    leafbytes = ((portalleafs + 63) & ~63) >> 3;
    leafbytes_real = ((portalleafs_real + 63) & ~63) >> 3;
    size_t n = portalleafs, bits = q2 ? portalleafs : portalleafs_real;
    int c = vf::any_in<int>("cluster", 0, portalleafs - 1);
    alignas(16) static uint8_t game[sizeof(gamedef_t)], version[sizeof(bspversion_t)];
    ((gamedef_t *)game)->id = q2 ? GAME_QUAKE_II : vf::any_in<gameid_t>("game", GAME_UNKNOWN, GAME_HALF_LIFE);
    ((bspversion_t *)version)->game = (gamedef_t *)game;
#ifdef VERIF_SPEC
    alignas(16) static uint8_t store[sizeof(mbsp_t)];
    mbsp_t *bsp = (mbsp_t *)store;
    bsp->loadversion = (bspversion_t *)version;
    g.q2 = q2;
    g.bsp = bsp;
    g.c = c;
    g.bits = bits;
    g.rowbytes = q2 ? leafbytes : leafbytes_real;
    int product;
    vf_require(!__builtin_mul_overflow(c, q2 ? leafbytes : leafbytes_real, &product));
    vf_require(product >= 0); // (follows)
    // the rows
    size_t before = product;
    size_t all = before + g.rowbytes + vf::any_in<size_t>("after", 0, 1 << 30);
    view(uncompressed, vf_bytes("rows", all), all, all);
    g.row = uncompressed.data() + before;
    // the leafs
    size_t nleafs = vf::any_in<size_t>("nleafs", 1, (size_t)MAXLEAFS + 1);
    vf_require(nleafs > (size_t)portalleafs_real);
    view(bsp->dleafs, vf_bytes("dleafs", nleafs * sizeof(mleaf_t)), nleafs, nleafs);
    g.r = vf::any_in<size_t>("r", 0, g.rowbytes * 8 - 1);
    g.b = vf::any_in<size_t>("b", 0, n - 1);
    if (g.r < bits) {
        if (q2)
            vf_require(g.b == g.r);
        else {
            vf_require(leaf_r().cluster == (int)g.b);
            g.cluster_r = leaf_r().cluster;
            g.old_r = leaf_r().visofs;
        }
    }
    vf_require(!rowbit());
    size_t other = vf::any_in<size_t>("other", 0, all - 1);
    vf_require(other < before || other >= before + g.rowbytes);
    g.other = other;
    uint8_t other_was = g.other_was = uncompressed[other];
    // the portals
    static visportal_t pk, pq;
    g.pk = &any_portal(pk, "visbits k");
    any_portal(pq, "visbits");
    g.nportals = vf::any_in<size_t>("portals", 0, 1 << 24);
    g.k = vf::any_in<size_t>("k", 0, 1 << 24);
    vf_require(g.nportals == 0 || g.k < g.nportals);
    g.list = (visportal_t *const *)vf_ptrs("list", g.nportals, g.k, &pk, &pq);
    static leaf_t leaf;
    view(leaf.portals, (void *)g.list, g.nportals, g.nportals);
    leafs._M_impl._M_start = &leaf - c;
    leafs._M_impl._M_finish = &leaf - c + n;
    // the result
    size_t size = vf::any_in<size_t>("size", 0, 1 << 29), cap = vf::any_in<size_t>("cap", 1, 1 << 30);
    vf_require(size < cap);
    view(vismap, vf_bytes("vismap", cap), size, cap);
    g.at = size;
    size_t t = vf::any_in<size_t>("t", 0, 1 << 30);
    uint8_t tv = 0;
    if (t < size)
        tv = vismap[t];
    view(compressed, vf_bytes("compressed", 1 << 23), 0, 1 << 23);
    view(bsp->dvis.bit_offsets, vf_bytes("offsets", n * 8), n, n);
    size_t d = vf::any_in<size_t>("d", 0, n - 1);
    int32_t d_pvs = bsp->dvis.bit_offsets[d][VIS_PVS];
    leafbits_t buffer;
    bitset(buffer, "buffer", n);
    g.buffer = &buffer;
    vf_require(!bit(buffer, g.b));
    g.pq = &pq;
    g.witness = g.notdone = g.compressed = g.appended = false;
    try {
        ClusterFlow(c, buffer, bsp);
    } catch (const ericwtools_error &) {
        vf_ensure(g.notdone, "refused only if a portal has not been done");
        buffer.bits.release();
        return;
    }
    buffer.bits.release();
    vf_ensure(g.nportals == 0 || pk.status == pstat_done, "only finished portals are used");
    vf_ensure(g.compressed && g.appended, "the row is compressed and appended");
    vf_ensure(vismap.size() == size + g.len, "only the row is appended");
    vf_ensure(t >= size || vismap[t] == tv, "the rows of other clusters stay in the visibility data");
    vf_ensure(bsp->dvis.get_bit_offset(VIS_PVS, c) == (int32_t)size, "the offset of the cluster is where its row was appended");
    vf_ensure(d == (size_t)c || bsp->dvis.bit_offsets[d][VIS_PVS] == d_pvs, "the offsets of other clusters stay");
    vf_ensure(uncompressed[other] == other_was, "the rows of other clusters stay");
    if (!q2 && g.r < bits)
        vf_ensure(leaf_r().visofs == (g.cluster_r == c ? (int32_t)size : g.old_r),
            "exactly the leafs of the cluster point at its row");
#else
    // the same on the native code, for portals given bit by bit
    vf_require(portalleafs <= MAXLEAFS && portalleafs_real <= MAXLEAFS && portalleafs > 0 && portalleafs_real > 0 && c >= 0 && c < portalleafs);
    mbsp_t *bsp = (mbsp_t *)calloc(1, sizeof(mbsp_t));
    new (&bsp->dvis) mvis_t;
    new (&bsp->dleafs) std::vector<mleaf_t>;
    bsp->loadversion = (bspversion_t *)version;
    const uint8_t *v = (const uint8_t *)vf_bytes("visbits", 4 * n);
    size_t nportals = vf::any_in<size_t>("portals", 0, 4);
    vf_require(nportals <= 4);
    bsp->dvis.resize(n);
    bsp->dleafs.resize(portalleafs_real + 1);
    const uint8_t *cl = (const uint8_t *)vf_bytes("clusters", portalleafs_real);
    for (int i = 0; i < portalleafs_real; i++) {
        bsp->dleafs[i + 1].cluster = (cl[i] & 1) ? c : cl[i] % n;
        bsp->dleafs[i + 1].visofs = 77;
    }
    size_t rowbytes = q2 ? leafbytes : leafbytes_real;
    uncompressed.assign(n * rowbytes, 0);
    portals.clear();
    portals.resize(nportals);
    leafs.clear();
    leafs.resize(n);
    bool undone = false;
    std::vector<bool> want(n);
    want[c] = true;
    bool all_done = vf::any<bool>("all_done");
    for (size_t i = 0; i < nportals; i++) {
        portals[i].status = all_done ? pstat_done : (pstatus_t)vf::any_in<int>("status", pstat_none, pstat_done);
        undone |= portals[i].status != pstat_done;
        portals[i].visbits.resize(n);
        for (size_t k = 0; k < n; k++)
            if ((v[i * n + k] & 0x21) == 1) {
                portals[i].visbits[k] = true;
                want[k] = true;
            }
        leafs[c].portals.push_back(&portals[i]);
    }
    size_t at = vf::any_in<size_t>("size", 0, 1000);
    vf_require(at <= 1000);
    vismap.assign(at, 0x5a);
    leafbits_t buffer(n);
    try {
        ClusterFlow(c, buffer, bsp);
    } catch (const ericwtools_error &) {
        vf_ensure(undone, "refused only if a portal has not been done");
        return;
    }
    vf_ensure(!undone, "only finished portals are used");
    vf_ensure(bsp->dvis.get_bit_offset(VIS_PVS, c) == (int32_t)at, "the offset of the cluster is where its row was appended");
    std::vector<uint8_t> row((bits + 7) / 8);
    DecompressVis(vismap.data() + at, vismap.data() + vismap.size(), row.data(), row.data() + row.size());
    for (size_t i = 0; i < row.size() * 8; i++)
        vf_ensure(((row[i >> 3] >> (i & 7)) & 1) == (i < bits && want[q2 ? i : bsp->dleafs[i + 1].cluster]),
            "a cluster sees itself and what its portals see, and nothing else");
    for (size_t i = 0; i < at; i++)
        vf_ensure(vismap[i] == 0x5a, "the rows of other clusters stay in the visibility data");
    for (size_t i = 0; i < n; i++)
        vf_ensure(i == (size_t)c || bsp->dvis.bit_offsets[i][VIS_PVS] == 0, "the offsets of other clusters stay");
    for (size_t i = 0; i < n * rowbytes; i++)
        vf_ensure(i / rowbytes == (size_t)c || !uncompressed[i], "the rows of other clusters stay");
    for (int i = 0; i < portalleafs_real && !q2; i++)
        vf_ensure(bsp->dleafs[i + 1].visofs == (bsp->dleafs[i + 1].cluster == c ? (int32_t)at : 77),
            "exactly the leafs of the cluster point at its row");
#endif
}

//@ contract prop=V06 par=4 assume="growth of std::vector storage keeps the contents; CompressRow by its contract (V01)"
CONTRACT(v06_cluster_q1) { flow(false); }
//@ contract prop=V06 par=4 assume="growth of std::vector storage keeps the contents; CompressRow by its contract (V01)"
CONTRACT(v06_cluster_q2) { flow(true); }
