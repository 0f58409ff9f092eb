// Compressed bit strings of the vis state file (vis/state.cc), for any number of leafs.
#include "vf.hh"
#include "vis/state.cc"

int numportals, portalleafs, portalleafs_real;

namespace
{
enum mode_t { NONE, COMPRESS, DECODE, COPY };
struct {
    mode_t mode;
    const uint8_t *row; // the bit string, byte by byte
    size_t n;
    size_t k; // arbitrary index into it
    const uint8_t *packed; // compressed form
    size_t size;
    size_t pos; // arbitrary offset in it
    bool run0, run1, run2; // COMPRESS: what starts at pos, pos + 1, pos + 2
    size_t g0, g1, g2;
    const uint8_t *isrun; // DECODE: the compressor's postcondition over all offsets
    const uint64_t *index;
    uint8_t *const *dst; // DECODE: the bit string being filled
} g;

// the compressor's postcondition at offset pos: the run that starts there stands for row[g0, ...)
inline bool described(bool r0, size_t g0, bool r1, size_t g1, bool r2, size_t g2, const uint8_t *packed, size_t pos, size_t end,
    size_t limit)
{
    if (!r0)
        return true;
    if (pos == end)
        return g0 == limit;
    if (pos > end || g0 >= limit || packed[pos] != g.row[g0])
        return false;
    if (packed[pos] != 0 && packed[pos] != 0xff)
        return r1 && g1 == g0 + 1;
    if (end - pos < 2)
        return false;
    size_t rep = packed[pos + 1];
    return rep >= 1 && r2 && g2 == g0 + rep && g2 <= limit && (g.k < g0 || g.k >= g2 || g.row[g.k] == packed[pos]);
}
} // namespace

#ifdef VERIF_SPEC
bool vf_pred(int id, uint64_t a, uint64_t b) noexcept
{
    if (g.mode == COMPRESS) {
        if (id == 1) // the runs emitted so far describe row[0, b) and end at offset a
            return described(g.run0, g.g0, g.run1, g.g1, g.run2, g.g2, g.packed, g.pos, a, b) && (!g.run0 || g.pos <= a) &&
                   (!g.run1 || g.pos + 1 <= a) && (!g.run2 || g.pos + 2 <= a) && (g.pos != a || g.run0) &&
                   (g.pos != 0 || (g.run0 && g.g0 == 0));
        if (id == 2)
            return g.k < a || g.k >= b || g.row[g.k] == g.row[a];
        if (id == 3)
            return g.k >= a || g.packed[g.k] == g.row[g.k];
    }
    if (g.mode == DECODE) {
        // the bytes before b are final, the bytes from b on are still clear
        if (id == 4)
            return g.isrun[a] && g.index[a] == b && (g.k >= b || (*g.dst)[g.k] == g.row[g.k]) && (g.k < b || (*g.dst)[g.k] == 0);
        if (id == 5)
            return (g.k > b || (*g.dst)[g.k] == g.row[g.k]) && (g.k <= b || (*g.dst)[g.k] == 0);
    }
    if (g.mode == COPY && id == 6)
        return (g.k >= a || (*g.dst)[g.k] == g.row[g.k]) && (g.k < a || (*g.dst)[g.k] == 0);
    return true;
}
void vf_hint(int id, uint64_t a, uint64_t b) noexcept
{
    if (id == 1 && g.mode == DECODE && a <= g.size) {
        bool r1 = a + 1 <= g.size && g.isrun[a + 1], r2 = a + 2 <= g.size && g.isrun[a + 2];
        uint64_t g1 = a + 1 <= g.size ? g.index[a + 1] : 0, g2 = a + 2 <= g.size ? g.index[a + 2] : 0;
        vf_require(described(g.isrun[a], g.index[a], r1, g1, r2, g2, g.packed, a, g.size, g.n));
    }
}
void vf_ghost(int id, uint64_t a, uint64_t b) noexcept
{
    if (id == 1 && g.mode == COMPRESS) {
        if (a == g.pos) {
            g.run0 = true;
            g.g0 = b;
        }
        if (a == g.pos + 1) {
            g.run1 = true;
            g.g1 = b;
        }
        if (a == g.pos + 2) {
            g.run2 = true;
            g.g2 = b;
        }
    }
}
#endif

static const int MAXLEAFS = 1 << 30;

static void setup()
{
    portalleafs = vf::any_in<int>("portalleafs", 1, MAXLEAFS);
    g.n = ((size_t)portalleafs + 7) / 8;
}

// saving and loading back to back, as SaveVisState and LoadVisState do: the meaning of the contracts below when they are
// replayed natively
static void roundtrip(const leafbits_t &bits)
{
    std::vector<uint8_t> packed(g.n);
    int len = CompressBits(packed.data(), bits);
    vf_ensure(len >= 1 && (size_t)len <= g.n, "the compressed form is never longer than the bit string");
    leafbits_t back;
    if ((size_t)len < g.n)
        DecompressBits(back, packed.data(), packed.data() + len);
    else
        CopyLeafBits(back, packed.data(), portalleafs);
    vf_ensure(back.size() == (size_t)portalleafs, "loading restores the number of bits");
    for (size_t i = 0; i < g.n; i++)
        vf_ensure(((uint8_t *)back.data())[i] == ((const uint8_t *)bits.data())[i], "loading a saved bit string gives it back");
}

//@ contract prop=V02 unroll=6
CONTRACT(v02_compress)
{
    setup();
    size_t blocks = ((size_t)portalleafs + 31) / 32;
    leafbits_t bits(portalleafs);
    g.row = (const uint8_t *)vf_bytes("row", blocks * 4);
    bits.bits.release();
    bits.bits.reset((uint32_t *)g.row);
#ifndef VERIF_SPEC
    roundtrip(bits);
#else
    uint8_t *packed = (uint8_t *)vf_bytes("packed", g.n);
    g.mode = COMPRESS;
    g.packed = packed;
    g.k = vf::any_in<size_t>("k", 0, g.n - 1);
    g.pos = vf::any_in<size_t>("pos", 0, g.n);
    g.run0 = g.run1 = g.run2 = false;
    int len = CompressBits(packed, bits);
    vf_ensure(len >= 1 && (size_t)len <= g.n, "the compressed form is never longer than the bit string");
    if ((size_t)len == g.n) {
        vf_ensure(packed[g.k] == g.row[g.k], "incompressible bits are stored as they are");
    } else {
        vf_ghost(1, len, g.n);
        vf_ensure(g.pos != 0 || (g.run0 && g.g0 == 0), "the first run starts at the first byte");
        vf_ensure(g.pos != (size_t)len || g.run0, "a run ends where the compressed form ends");
        vf_ensure(g.pos > (size_t)len || described(g.run0, g.g0, g.run1, g.g1, g.run2, g.g2, packed, g.pos, len, g.n),
            "every run of the compressed form stands for the bytes of the bit string at its place");
    }
#endif
    bits.bits.release();
}
//@ contract prop=V02 unroll=6
CONTRACT(v02_decompress)
{
    setup();
#ifndef VERIF_SPEC
    leafbits_t bits(portalleafs);
    memcpy(bits.data(), vf_bytes("row", g.n), g.n);
    roundtrip(bits);
#else
    g.mode = DECODE;
    g.row = (const uint8_t *)vf_bytes("row", g.n);
    g.size = vf::any_in<size_t>("size", 1, g.n);
    g.packed = (const uint8_t *)vf_bytes("packed", g.size);
    g.k = vf::any_in<size_t>("k", 0, g.n - 1);
    g.isrun = (const uint8_t *)vf_bytes("isrun", g.size + 1);
    g.index = (const uint64_t *)vf_bytes("index", 8 * (g.size + 1));
    vf_require(g.isrun[0] && g.index[0] == 0); // the compressor's postcondition; instances are taken by vf_hint
    leafbits_t bits;
    g.dst = (uint8_t *const *)&bits.bits;
    DecompressBits(bits, g.packed, g.packed + g.size);
    vf_ensure(bits.size() == (size_t)portalleafs, "loading restores the number of bits");
    vf_ensure(((uint8_t *)bits.data())[g.k] == g.row[g.k], "loading a saved bit string gives it back");
#endif
}
//@ contract prop=V02 unroll=6
CONTRACT(v02_copy)
{
    setup();
    g.mode = COPY;
    g.row = (const uint8_t *)vf_bytes("row", g.n);
    g.k = vf::any_in<size_t>("k", 0, g.n - 1);
    leafbits_t bits;
    g.dst = (uint8_t *const *)&bits.bits;
    CopyLeafBits(bits, g.row, portalleafs);
    vf_ensure(bits.size() == (size_t)portalleafs, "loading restores the number of bits");
    vf_ensure(((uint8_t *)bits.data())[g.k] == g.row[g.k], "loading a saved bit string gives it back");
}
//@ contract prop=V02 unroll=6
CONTRACT(v02_corrupt)
{
    // any bytes at all: stays inside the compressed bytes and the bit string, or is refused
    setup();
    size_t size = vf::any_in<size_t>("size", 0, g.n);
    const uint8_t *p = (const uint8_t *)vf_bytes("packed", size);
    leafbits_t bits;
    try {
        DecompressBits(bits, p, p + size);
        vf_ensure(bits.size() == (size_t)portalleafs, "restores the number of bits");
    } catch (const ericwtools_error &) {
        vf_cover("refused");
    }
}
