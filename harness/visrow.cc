// Run-length coding of visibility rows (common/bsputils.cc) for rows of every length.
#include "vf.hh"
#include "common/bsputils.cc"

// Ghost state.  `pos` is an arbitrary offset of the compressed row, `k` an arbitrary index of the uncompressed row.
// A run of the compressed row is described by (offset of its first byte, index of the first byte it stands for).
namespace
{
enum mode_t { NONE, COMPRESS, DECODE, GARBAGE };
struct {
    mode_t mode;
    const uint8_t *row; // the uncompressed row
    size_t n; // its length
    size_t k; // arbitrary index into it
    const uint8_t *packed;
    size_t size;
    // COMPRESS: what starts at pos, pos + 1 and pos + 2
    const std::vector<uint8_t> *out;
    size_t pos;
    bool run0, run1, run2;
    size_t g0, g1, g2;
    // DECODE: the compressor's postcondition, as two ghost arrays over offsets of the compressed row
    const uint8_t *isrun;
    const uint64_t *index;
    uint8_t *dst;
} g;

// the compressor's postcondition at offset pos, for row index k: run(s, i) = "a run for index i starts at offset s"
inline bool described(bool r0, size_t g0, bool r1, size_t g1, bool r2, size_t g2, const uint8_t *packed, size_t pos, size_t end,
    size_t limit)
{
    if (!r0)
        return true;
    if (pos == end)
        return g0 == limit;
    if (pos > end)
        return false;
    if (g0 >= limit)
        return false;
    if (packed[pos])
        return packed[pos] == g.row[g0] && r1 && g1 == g0 + 1;
    if (end - pos < 2)
        return false;
    size_t rep = packed[pos + 1];
    return rep >= 1 && r2 && g2 == g0 + rep && g2 <= limit && (g.k < g0 || g.k >= g2 || g.row[g.k] == 0);
}
} // namespace

#ifdef VERIF_SPEC
bool vf_pred(int id, uint64_t a, uint64_t b) noexcept
{
    if (id == 1) {
        if (g.mode != COMPRESS)
            return true;
        // the runs emitted so far describe row[0, b) and end at offset a
        return described(g.run0, g.g0, g.run1, g.g1, g.run2, g.g2, g.out->data(), g.pos, a, b) && (!g.run0 || g.pos <= a) &&
               (!g.run1 || g.pos + 1 <= a) && (!g.run2 || g.pos + 2 <= a) && (g.pos != a || g.run0) &&
               (g.pos != 0 || (g.run0 && g.g0 == 0));
    }
    if (id == 2)
        return g.mode != COMPRESS || g.k < a || g.k >= b || g.row[g.k] == 0;
    if (id == 3) {
        if (g.mode != DECODE)
            return true;
        return g.isrun[a] && g.index[a] == b && (g.k >= b || g.dst[g.k] == g.row[g.k]);
    }
    if (id == 4) {
        if (g.mode != DECODE)
            return true;
        return g.k >= b || g.dst[g.k] == g.row[g.k];
    }
    return true;
}
void vf_hint(int id, uint64_t a, uint64_t b) noexcept
{
    if (id == 1 && g.mode == DECODE && a <= g.size) {
        bool r1 = a + 1 <= g.size && g.isrun[a + 1], r2 = a + 2 <= g.size && g.isrun[a + 2];
        uint64_t g1 = a + 1 <= g.size ? g.index[a + 1] : 0, g2 = a + 2 <= g.size ? g.index[a + 2] : 0;
        vf_require(described(g.isrun[a], g.index[a], r1, g1, r2, g2, g.packed, a, g.size, g.n));
    }
}
void vf_ghost(int id, uint64_t a, uint64_t b) noexcept
{
    if (id == 1 && g.mode == COMPRESS) {
        if (a == g.pos) {
            g.run0 = true;
            g.g0 = b;
        }
        if (a == g.pos + 1) {
            g.run1 = true;
            g.g1 = b;
        }
        if (a == g.pos + 2) {
            g.run2 = true;
            g.g2 = b;
        }
    }
}
#endif

static const size_t MAXROW = 1 << 28; // 2^31 leafs

// compressor and decompressor back to back: the meaning of the two contracts below, used when they are replayed on the
// native code (ghost state exists for the verifier only)
static void roundtrip(const uint8_t *row, size_t n)
{
    std::vector<uint8_t> out, dst(n);
    CompressRow(row, n, std::back_inserter(out));
    vf_ensure(out.size() <= 2 * n, "a compressed row is at most twice as long as the row");
    DecompressVis(out.data(), out.data() + out.size(), dst.data(), dst.data() + n);
    for (size_t i = 0; i < n; i++)
        vf_ensure(dst[i] == row[i], "decompressing a compressed row gives back the row");
}

//@ contract prop=V01 unroll=6
CONTRACT(v01_compress)
{
    size_t n = vf::any_in<size_t>("n", 0, MAXROW);
    const uint8_t *row = (const uint8_t *)vf_bytes("row", n);
#ifndef VERIF_SPEC
    return roundtrip(row, n);
#else
    std::vector<uint8_t> out;
    out.reserve(2 * n + 2);
    g.mode = COMPRESS;
    g.row = row;
    g.n = n;
    g.k = vf::any<size_t>("k");
    vf_require(g.k < n || n == 0);
    g.out = &out;
    g.pos = vf::any<size_t>("pos");
    vf_require(g.pos <= 2 * n);
    g.run0 = g.run1 = g.run2 = false;
    CompressRow(row, n, std::back_inserter(out));
    vf_ghost(1, out.size(), n);
    vf_ensure(out.size() <= 2 * n, "a compressed row is at most twice as long as the row");
    vf_ensure(g.pos != 0 || (g.run0 && g.g0 == 0), "the first run starts at the first byte");
    vf_ensure(g.pos != out.size() || g.run0, "a run ends where the compressed row ends");
    vf_ensure(g.pos > out.size() ||
                  described(g.run0, g.g0, g.run1, g.g1, g.run2, g.g2, out.data(), g.pos, out.size(), n),
        "every run of the compressed row stands for the bytes of the row at its place");
#endif
}
//@ contract prop=V01 unroll=6
CONTRACT(v01_decompress)
{
    size_t n = vf::any_in<size_t>("n", 1, MAXROW);
    g.n = n;
    g.row = (const uint8_t *)vf_bytes("row", n);
#ifndef VERIF_SPEC
    return roundtrip(g.row, n);
#else
    size_t size = vf::any_in<size_t>("size", 0, 2 * MAXROW);
    size_t rest = vf::any_in<size_t>("rest", 0, MAXROW); // rows that follow in the lump
    g.mode = DECODE;
    g.k = vf::any<size_t>("k");
    vf_require(g.k < n);
    g.packed = (const uint8_t *)vf_bytes("packed", size + rest);
    g.size = size;
    g.isrun = (const uint8_t *)vf_bytes("isrun", size + 1);
    g.index = (const uint64_t *)vf_bytes("index", 8 * (size + 1));
    vf_require(g.isrun[0] && g.index[0] == 0); // the compressor's postcondition; instances are taken by vf_hint
    uint8_t *dst = (uint8_t *)vf_bytes("dst", n);
    g.dst = dst;
    DecompressVis(g.packed, g.packed + size + rest, dst, dst + n);
    vf_ensure(dst[g.k] == g.row[g.k], "decompressing a compressed row gives back the row");
#endif
}
//@ contract prop=V01 unroll=6
CONTRACT(v01_corrupt)
{
    // any bytes at all: never reads outside [in, inend), never writes outside [out, outend)
    size_t n = vf::any_in<size_t>("n", 0, MAXROW), size = vf::any_in<size_t>("size", 0, 2 * MAXROW);
    const uint8_t *in = (const uint8_t *)vf_bytes("packed", size);
    uint8_t *dst = (uint8_t *)vf_bytes("dst", n);
    g.mode = GARBAGE;
    DecompressVis(in, in + size, dst, dst + n);
    vf_ensure(true, "returns");
}
