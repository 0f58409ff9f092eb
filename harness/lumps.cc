// Lumps of a BSP file: where they are written, what the directory says about them, and reading them back
// (common/bspfile.cc, common/bspfile_generic.cc), for lumps of any number of records.
#include "vf.hh"
#include "vf_ios.hh"
#include <fstream>
#include <vector>
#ifndef VERIF_SPEC
static int64_t vf_i(int64_t x) { return x; }
#endif
#include "common/cmdlib.cc"
#include "common/bspfile.cc"
#include "common/bspfile_common.cc"
#include "common/bspfile_q1.cc"
#include "common/bspfile_q2.cc"
#include "common/bspfile_generic.cc"

namespace
{
const size_t MAXFILE = 0x7fffffff;
struct buf_t : membuf
{
    using membuf::membuf;
    char *wptr() const { return pptr(); }
    char *rptr() const { return gptr(); }
    void at(size_t r, size_t w)
    {
        setg(eback(), eback() + r, egptr());
        setpptrs(pbase(), pbase() + w, epptr());
    }
};
struct {
    bool on;
    buf_t *buf;
    std::ios *ios;
    char *file; // the file
    size_t filesize;
    char *base; // where the lump starts in the file
    const char *recs; // the records
    size_t n, size, msize; // how many, their size on disk and in memory
    size_t i; // how many were written or read
    size_t q, qk; // an arbitrary byte of an arbitrary record
    unsigned char *want, *any; // its bytes on disk; those of any other record
    size_t j; // an arbitrary byte of the file outside of the lump
    char j_was;
    bool ok, bad; // the lump can be read; it does not even start in the file
    size_t len, m; // its length in bytes, and in whole records
    size_t ofs; // where it starts
    void *vec; // the vector read into
    char *out; // where its elements are
    bool (*same_q)(); // element q is the record read
} g;
template<class T>
void view(std::vector<T> &v, void *p, size_t n, size_t cap)
{
    v._M_impl._M_start = (T *)p;
    v._M_impl._M_finish = (T *)p + n;
    v._M_impl._M_end_of_storage = (T *)p + cap;
}
// numbering whole records of one size keeps their order
void order(size_t a, size_t b, size_t size)
{
    a = vf_i(a), b = vf_i(b);
    vf_lemma(!((a < b) & (b <= MAXFILE) & (size > 0) & (size < 256)) | (a * size + size <= b * size), "records in order");
}
void next(size_t a, size_t b, size_t size)
{
    a = vf_i(a), b = vf_i(b);
    vf_lemma((a > MAXFILE) | (b > MAXFILE) | ((a == b) == (a * size == b * size)), "one record in one place");
    vf_lemma((b != a + 1) | (b * size == a * size + size), "the next record");
}
bool in_order() { return g.ios->rdstate() == std::ios::goodbit; }
bool record_q_written() { return (unsigned char)g.base[g.q * g.size + g.qk] == g.want[g.qk]; }
} // namespace
#ifdef VERIF_SPEC
bool vf_pred(int id, uint64_t a, uint64_t b) noexcept
{
    if (id == 20) { // write_lump, before the record at address a is written
        return g.i < g.n && a == (uintptr_t)(g.recs + g.i * g.msize) && g.ios->rdstate() == std::ios::goodbit &&
               g.buf->wptr() == g.base + g.i * g.size && !(g.q < g.i && !record_q_written()) && g.file[g.j] == g.j_was;
    }
    if (id == 21) { // lump_reader::read, before record a of b is read
        auto &v = *(std::vector<char> *)g.vec; // any vector
        return a < b && b <= MAXFILE && v._M_impl._M_start == g.out && v._M_impl._M_finish == g.out + a * g.msize &&
               v._M_impl._M_end_of_storage == g.out + b * g.msize && (!in_order() || (g.buf->rptr() == g.base + a * g.size && g.ofs + a * g.size <= g.filesize)) &&
               !(g.ok && !in_order()) && !(g.bad && in_order()) &&
               !(in_order() && g.n && g.q < a && (unsigned char)g.out[g.q * g.msize + g.qk] != g.want[g.qk]);
    }
    return false;
}
void vf_hint(int, uint64_t, uint64_t) noexcept { }
void vf_ghost(int id, uint64_t a, uint64_t b) noexcept
{
    if (id == 21) {
        vf_step(b == g.len / g.size || g.len == 0, "whole records");
        vf_step(b == g.m, "whole records");
        order(a, b, g.size);
        order(a, b, g.msize);
        order(g.q, a, g.msize);
        order(a, g.q, g.msize);
        next(a, b, g.size);
        next(a, b, g.msize);
        next(a, a + 1, g.size);
        next(a, a + 1, g.msize);
        next(g.q, a, g.size);
        next(g.q, a, g.msize);
    }
    if (id == 20) {
        order(g.i, g.n, g.size);
        order(g.i, g.n, g.msize);
        order(g.q, g.i, g.size);
        order(g.i, g.q, g.size);
        order(g.i + 1, g.n, g.msize);
        next(g.i, g.i + 1, g.size);
        next(g.i, g.i + 1, g.msize);
        next(g.q, g.i, g.size);
        next(g.q, g.i, g.msize);
        next(g.i, g.n, g.size);
        next(g.i, g.n, g.msize);
        g.i++;
    }
}
void vf_name(int, const void *p) noexcept { g.out = (char *)p; }
#endif

// ---------------------------------------------------------------- B03: writing a lump
// the contract of writing one record (B02): its bytes, which depend on nothing but the record
extern "C" __attribute__((used)) void vfx_write_record(const char *rec, std::ostream *s)
{
    vf_ensure(s == g.ios && g.ios->rdstate() == std::ios::goodbit, "records are written to the file");
    size_t at = g.buf->wptr() - g.file;
    vf_ensure(g.size <= g.filesize - at && at <= g.filesize, "there is room for the record");
    memcpy(g.buf->wptr(), rec == g.recs + g.q * g.msize ? g.want : g.any, g.size);
    g.buf->at(0, at + g.size);
}
namespace
{
// records whose stream_write and stream_read are answered by contract; the others are written and read as they are
template<class T>
constexpr bool by_contract = std::is_class_v<T> && !std::is_same_v<T, bsp29_dedge_t> && !std::is_same_v<T, bsp2_dedge_t> && !std::is_same_v<T, qvec3f>;
template<class T>
unsigned char *expected(const T *rec, size_t size)
{
    static unsigned char want[256];
#ifdef VERIF_IR
    if constexpr (by_contract<T>)
        return (unsigned char *)vf_bytes("want", size);
#endif
    if (rec) {
        omemstream o(want, sizeof(want), std::ios_base::out);
        o << endianness<std::endian::little>;
        o <= *rec;
        vf_ensure((bool)o && (size_t)o.tellp() == size, "the record has the size the format gives it");
    }
    return want;
}
// any version: its lumps hold records of the given size, and its directory is one of the two there are
struct {
    lumpspec_t spec[19];
    bspversion_t v{};
} version;
const bspversion_t &any_version(size_t size, bool two)
{
    for (auto &x : version.spec)
        x = {"lump", size};
    struct {
        const lumpspec_t *p;
        size_t n;
    } list{version.spec, two ? 19u : 15u};
    static_assert(sizeof(list) == sizeof(version.v.lumps));
    memcpy((void *)&version.v.lumps, &list, sizeof(list));
    if (two)
        version.v.version.emplace(38);
    else
        version.v.version.reset();
    return version.v;
}
template<class T>
void write_records(size_t slot, size_t size, bool two)
{
    const bspversion_t &version = any_version(size, two);
    size_t n = vf::any_in<size_t>("records", 0, MAXFILE / size);
    size_t pos = vf::any_in<size_t>("pos", 0, MAXFILE);
    size_t cap = vf::any_in<size_t>("cap", 0, MAXFILE);
    vf_require(pos % 4 == 0 && pos <= cap && n * size + 4 <= cap - pos);
    T *recs = (T *)vf_bytes("data", n * sizeof(T));
    std::vector<T> data;
    view(data, recs, n, n);
    char *file = (char *)vf_bytes("file", cap);
    buf_t buf((void *)file, cap, std::ios_base::out);
    buf.at(0, pos);
    alignas(16) static unsigned char mem[sizeof(bspfile_t)];
    bspfile_t &f = *(bspfile_t *)mem;
    f.version = &version;
    std::ostream &s = *new ((void *)(std::ostream *)&f.stream) std::ostream(&buf);
    s << endianness<std::endian::little>;
    size_t nslots = version.lumps.size();
    lump_t *dir = version.version.has_value() ? f.q2header.lumps.data() : f.q1header.lumps.data();
    for (size_t i = 0; i < nslots; i++)
        dir[i] = {vf::any<int32_t>("ofs"), vf::any<int32_t>("len")};
    size_t other = vf::any<size_t>("other");
    vf_require(other < nslots && other != slot);
    lump_t other_was = dir[other];
    size_t q = vf::any<size_t>("q");
    vf_require(n == 0 || q < n);
    unsigned char *want = expected(n ? recs + q : nullptr, size);
    g.on = true;
    g.i = 0;
    order(q, n, size);
    order(q, n, sizeof(T));
    order(0, n, sizeof(T));
    g.qk = vf::any_in<size_t>("qk", 0, size - 1);
    vf_step(n == 0 || q * size + g.qk < n * size, "byte of a record");
    vf_step(n == 0 || pos + q * size + g.qk < cap, "byte of a record");
    g.buf = &buf;
    g.ios = &s;
    g.file = file;
    g.filesize = cap;
    g.any = (unsigned char *)vf_bytes("any", size);
    g.base = file + pos;
    g.recs = (char *)recs;
    g.n = n;
    g.size = size;
    g.msize = sizeof(T);
    g.q = q;
    g.want = want;
    g.j = vf::any<size_t>("j");
    size_t end = (pos + n * size + 3) & ~(size_t)3;
    vf_require(g.j < cap && (g.j < pos || g.j >= end));
    g.j_was = file[g.j];
    f.write_lump(slot, data);
    order(g.i, n, sizeof(T));
    vf_step(g.i == n, "all records were written");
    vf_ensure((bool)s, "writing succeeds");
    vf_ensure((size_t)dir[slot].fileofs == pos && (size_t)dir[slot].filelen == n * size, "the directory says where the lump is and how long");
    vf_ensure((size_t)(buf.wptr() - file) == end, "the lump is followed by padding up to a multiple of four");
    vf_ensure(n == 0 || record_q_written(), "every record is written in its place");
    size_t k = vf::any<size_t>("k");
    if (k >= pos + n * size && k < end)
        vf_ensure(file[k] == 0, "the padding is zero");
    vf_ensure(file[g.j] == g.j_was, "nothing else in the file is touched");
    vf_ensure(dir[other].fileofs == other_was.fileofs && dir[other].filelen == other_was.filelen, "the other entries of the directory stay as they are");
    view(data, nullptr, 0, 0);
}
} // namespace

// ---------------------------------------------------------------- B03: reading a lump
// the contract of reading one record (B02, M01)
extern "C" __attribute__((used)) void vfx_read_record(char *rec, std::istream *s)
{
    vf_ensure(s == g.ios, "records are read from the file");
    size_t at = g.buf->rptr() - g.file;
    if (g.ios->rdstate() == std::ios::goodbit && g.size <= g.filesize - at) {
        memcpy(rec, (size_t)(g.buf->rptr() - g.base) == g.q * g.size ? g.want : g.any, g.msize);
        g.buf->at(at + g.size, at + g.size);
    } else {
        memcpy(rec, g.any, g.msize);
        g.ios->setstate(std::ios::failbit);
    }
}
namespace
{
template<class T>
void read_records(size_t slot, size_t size, bool two)
{
    const bspversion_t &version = any_version(size, two);
    size_t filesize = vf::any_in<size_t>("filesize", 0, MAXFILE);
    char *file = (char *)vf_bytes("file", filesize);
    lump_t *dir = (lump_t *)vf_bytes("directory", 19 * sizeof(lump_t));
    std::vector<lump_t> lumps;
    view(lumps, dir, version.lumps.size(), 19);
    size_t m = vf_i(vf::any_in<size_t>("records", 0, MAXFILE / size)), r = vf_i(vf::any_in<size_t>("odd", 0, size - 1));
    vf_require(m * size + r <= MAXFILE);
    int32_t ofs = vf::any<int32_t>("ofs"), neg = vf::any<int32_t>("neg"), len = neg < 0 ? neg : (int32_t)(m * size + r);
    vf_lemma(!((m <= MAXFILE / size) & (r < size) & (m * size + r <= MAXFILE)) | (((size_t)(int32_t)(m * size + r) / size == m) & ((size_t)(int32_t)(m * size + r) % size == r)), "whole records");
    dir[slot] = {ofs, len};
    bool ok = len == 0 || (ofs >= 0 && len > 0 && (size_t)ofs + (size_t)len <= filesize && r == 0);
    g.ok = ok;
    g.len = len < 0 ? 0 : len;
    vf_step(len < 0 || (g.len == m * size + r && g.len / size == m && g.len % size == r), "whole records");
    g.m = len < 0 ? 0 : m;
    g.bad = ofs < 0 || (size_t)ofs > filesize;
    g.ofs = ofs;
    imemstream s(file, filesize);
    s >> endianness<std::endian::little>;
    g.on = true;
    g.i = 0;
    g.buf = (buf_t *)(membuf *)&s;
    g.ios = &s;
    g.file = file;
    g.filesize = filesize;
    g.base = file + ofs;
    g.size = size;
    g.msize = sizeof(T);
    g.q = vf::any<size_t>("q");
    g.n = ok ? m : 0;
    order(g.q, g.n, size);
    order(g.q, g.n, sizeof(T));
    vf_require(g.n == 0 || g.q < g.n);
    g.any = (unsigned char *)vf_bytes("any", sizeof(T));
    T want{};
    if (g.n) {
        if constexpr (by_contract<T>)
#ifdef VERIF_IR
            memcpy((void *)&want, vf_bytes("want", sizeof(T)), sizeof(T));
#else
            (imemstream(file, filesize).seekg(ofs + g.q * size) >> endianness<std::endian::little>) >= want;
#endif
        else
            memcpy((void *)&want, file + ofs + g.q * size, sizeof(T));
    }
    g.want = (unsigned char *)&want;
    g.qk = vf::any_in<size_t>("qk", 0, sizeof(T) - 1);
    std::vector<T> data;
    g.vec = &data;
    lump_reader reader{s, &version, lumps};
    vf_allow_exit(!ok);
    try {
        reader.read(slot, data);
    } catch (...) {
        vf_ensure(!ok, "a lump that is whole and inside the file is read");
        view(lumps, nullptr, 0, 0);
        return;
    }
    vf_step(len == 0 || ofs >= 0, "the lump starts in the file");
    vf_step(len >= 0, "the lump has a length");
    vf_step(r == 0, "the lump is whole");
    vf_step(len == 0 || in_order(), "no read failed");
    vf_step(len == 0 || (size_t)(g.buf->rptr() - file) == (size_t)ofs + m * size, "as many bytes were read as there are in the lump");
    vf_step(len == 0 || (size_t)(g.buf->rptr() - file) <= filesize, "all of them in the file");
    vf_step(len == 0 || (size_t)ofs + m * size <= filesize, "the lump ends in the file");
    vf_ensure(ok, "a lump that is cut short, or no whole number of records, is refused");
    vf_ensure(data.size() == g.n, "every record of the lump is read");
    vf_step(size == 1 || data.size() == 0 || (char *)data.data() == g.out, "the vector");
    if (g.n)
        vf_ensure(((unsigned char *)&data[g.q])[g.qk] == g.want[g.qk], "the records are those at their place in the file, in order");
    view(lumps, nullptr, 0, 0);
}
} // namespace

//@ contract prop=B03 replace=_ZNK8dplane_t12stream_write:vfx_write_record assume="the bytes of one record (B02)"
CONTRACT(b03_write_planes) { write_records<dplane_t>(LUMP_PLANES, 20, false); }
//@ contract prop=B03 replace=_ZN8dplane_t11stream_read:vfx_read_record assume="the bytes of one record (B02)"
CONTRACT(b03_read_planes) { read_records<dplane_t>(LUMP_PLANES, 20, false); }
//@ contract prop=B03 replace=_ZNK8dplane_t12stream_write:vfx_write_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_write_planes2) { write_records<dplane_t>(Q2_LUMP_PLANES, 20, true); }
//@ contract prop=B03 replace=_ZN8dplane_t11stream_read:vfx_read_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_read_planes2) { read_records<dplane_t>(Q2_LUMP_PLANES, 20, true); }
//@ contract prop=B03
CONTRACT(b03_write_bytes) { write_records<uint8_t>(LUMP_LIGHTING, 1, false); }
//@ contract prop=B03
CONTRACT(b03_read_bytes) { read_records<uint8_t>(LUMP_LIGHTING, 1, false); }
//@ contract prop=B03 tier=thorough
CONTRACT(b03_write_shorts) { write_records<uint16_t>(LUMP_MARKSURFACES, 2, false); }
//@ contract prop=B03 tier=thorough
CONTRACT(b03_read_shorts) { read_records<uint16_t>(LUMP_MARKSURFACES, 2, false); }
//@ contract prop=B03
CONTRACT(b03_write_ints) { write_records<int32_t>(Q2_LUMP_SURFEDGES, 4, true); }
//@ contract prop=B03
CONTRACT(b03_read_ints) { read_records<int32_t>(Q2_LUMP_SURFEDGES, 4, true); }
//@ contract prop=B03 tier=thorough
CONTRACT(b03_write_uints) { write_records<uint32_t>(LUMP_MARKSURFACES, 4, false); }
//@ contract prop=B03 tier=thorough
CONTRACT(b03_read_uints) { read_records<uint32_t>(LUMP_MARKSURFACES, 4, false); }
//@ contract prop=B03
CONTRACT(b03_write_edges) { write_records<bsp29_dedge_t>(LUMP_EDGES, 4, false); }
//@ contract prop=B03
CONTRACT(b03_read_edges) { read_records<bsp29_dedge_t>(LUMP_EDGES, 4, false); }
//@ contract prop=B03 tier=thorough
CONTRACT(b03_write_edges2) { write_records<bsp2_dedge_t>(Q2_LUMP_EDGES, 8, true); }
//@ contract prop=B03 tier=thorough
CONTRACT(b03_read_edges2) { read_records<bsp2_dedge_t>(Q2_LUMP_EDGES, 8, true); }
//@ contract prop=B03 tier=thorough
CONTRACT(b03_write_vertexes) { write_records<qvec3f>(LUMP_VERTEXES, 12, false); }
//@ contract prop=B03 tier=thorough
CONTRACT(b03_read_vertexes) { read_records<qvec3f>(LUMP_VERTEXES, 12, false); }
//@ contract prop=B03 replace=_ZNK13bsp29_dnode_t12stream_write:vfx_write_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_write_nodes29) { write_records<bsp29_dnode_t>(LUMP_NODES, 24, false); }
//@ contract prop=B03 replace=_ZN13bsp29_dnode_t11stream_read:vfx_read_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_read_nodes29) { read_records<bsp29_dnode_t>(LUMP_NODES, 24, false); }
//@ contract prop=B03 replace=_ZNK15bsp2rmq_dnode_t12stream_write:vfx_write_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_write_nodes2psb) { write_records<bsp2rmq_dnode_t>(LUMP_NODES, 32, false); }
//@ contract prop=B03 replace=_ZN15bsp2rmq_dnode_t11stream_read:vfx_read_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_read_nodes2psb) { read_records<bsp2rmq_dnode_t>(LUMP_NODES, 32, false); }
//@ contract prop=B03 replace=_ZNK12bsp2_dnode_t12stream_write:vfx_write_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_write_nodesbsp2) { write_records<bsp2_dnode_t>(LUMP_NODES, 44, false); }
//@ contract prop=B03 replace=_ZN12bsp2_dnode_t11stream_read:vfx_read_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_read_nodesbsp2) { read_records<bsp2_dnode_t>(LUMP_NODES, 44, false); }
//@ contract prop=B03 replace=_ZNK10q2_dnode_t12stream_write:vfx_write_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_write_nodesq2) { write_records<q2_dnode_t>(Q2_LUMP_NODES, 28, true); }
//@ contract prop=B03 replace=_ZN10q2_dnode_t11stream_read:vfx_read_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_read_nodesq2) { read_records<q2_dnode_t>(Q2_LUMP_NODES, 28, true); }
//@ contract prop=B03 replace=_ZNK9texinfo_t12stream_write:vfx_write_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_write_texinfos) { write_records<texinfo_t>(LUMP_TEXINFO, 40, false); }
//@ contract prop=B03 replace=_ZN9texinfo_t11stream_read:vfx_read_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_read_texinfos) { read_records<texinfo_t>(LUMP_TEXINFO, 40, false); }
//@ contract prop=B03 replace=_ZNK12q2_texinfo_t12stream_write:vfx_write_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_write_texinfosq2) { write_records<q2_texinfo_t>(Q2_LUMP_TEXINFO, 76, true); }
//@ contract prop=B03 replace=_ZN12q2_texinfo_t11stream_read:vfx_read_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_read_texinfosq2) { read_records<q2_texinfo_t>(Q2_LUMP_TEXINFO, 76, true); }
//@ contract prop=B03 replace=_ZNK13bsp29_dface_t12stream_write:vfx_write_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_write_faces29) { write_records<bsp29_dface_t>(LUMP_FACES, 20, false); }
//@ contract prop=B03 replace=_ZN13bsp29_dface_t11stream_read:vfx_read_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_read_faces29) { read_records<bsp29_dface_t>(LUMP_FACES, 20, false); }
//@ contract prop=B03 replace=_ZNK12bsp2_dface_t12stream_write:vfx_write_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_write_facesbsp2) { write_records<bsp2_dface_t>(LUMP_FACES, 28, false); }
//@ contract prop=B03 replace=_ZN12bsp2_dface_t11stream_read:vfx_read_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_read_facesbsp2) { read_records<bsp2_dface_t>(LUMP_FACES, 28, false); }
//@ contract prop=B03 replace=_ZNK10q2_dface_t12stream_write:vfx_write_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_write_facesq2) { write_records<q2_dface_t>(Q2_LUMP_FACES, 20, true); }
//@ contract prop=B03 replace=_ZN10q2_dface_t11stream_read:vfx_read_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_read_facesq2) { read_records<q2_dface_t>(Q2_LUMP_FACES, 20, true); }
//@ contract prop=B03 replace=_ZNK16q2_dface_qbism_t12stream_write:vfx_write_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_write_facesqbism) { write_records<q2_dface_qbism_t>(Q2_LUMP_FACES, 28, true); }
//@ contract prop=B03 replace=_ZN16q2_dface_qbism_t11stream_read:vfx_read_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_read_facesqbism) { read_records<q2_dface_qbism_t>(Q2_LUMP_FACES, 28, true); }
//@ contract prop=B03 replace=_ZNK17bsp29_dclipnode_t12stream_write:vfx_write_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_write_clipnodes29) { write_records<bsp29_dclipnode_t>(LUMP_CLIPNODES, 8, false); }
//@ contract prop=B03 replace=_ZN17bsp29_dclipnode_t11stream_read:vfx_read_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_read_clipnodes29) { read_records<bsp29_dclipnode_t>(LUMP_CLIPNODES, 8, false); }
//@ contract prop=B03 replace=_ZNK16bsp2_dclipnode_t12stream_write:vfx_write_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_write_clipnodesbsp2) { write_records<bsp2_dclipnode_t>(LUMP_CLIPNODES, 12, false); }
//@ contract prop=B03 replace=_ZN16bsp2_dclipnode_t11stream_read:vfx_read_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_read_clipnodesbsp2) { read_records<bsp2_dclipnode_t>(LUMP_CLIPNODES, 12, false); }
//@ contract prop=B03 replace=_ZNK13bsp29_dleaf_t12stream_write:vfx_write_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_write_leafs29) { write_records<bsp29_dleaf_t>(LUMP_LEAFS, 28, false); }
//@ contract prop=B03 replace=_ZN13bsp29_dleaf_t11stream_read:vfx_read_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_read_leafs29) { read_records<bsp29_dleaf_t>(LUMP_LEAFS, 28, false); }
//@ contract prop=B03 replace=_ZNK15bsp2rmq_dleaf_t12stream_write:vfx_write_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_write_leafs2psb) { write_records<bsp2rmq_dleaf_t>(LUMP_LEAFS, 32, false); }
//@ contract prop=B03 replace=_ZN15bsp2rmq_dleaf_t11stream_read:vfx_read_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_read_leafs2psb) { read_records<bsp2rmq_dleaf_t>(LUMP_LEAFS, 32, false); }
//@ contract prop=B03 replace=_ZNK12bsp2_dleaf_t12stream_write:vfx_write_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_write_leafsbsp2) { write_records<bsp2_dleaf_t>(LUMP_LEAFS, 44, false); }
//@ contract prop=B03 replace=_ZN12bsp2_dleaf_t11stream_read:vfx_read_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_read_leafsbsp2) { read_records<bsp2_dleaf_t>(LUMP_LEAFS, 44, false); }
//@ contract prop=B03 replace=_ZNK10q2_dleaf_t12stream_write:vfx_write_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_write_leafsq2) { write_records<q2_dleaf_t>(Q2_LUMP_LEAFS, 28, true); }
//@ contract prop=B03 replace=_ZN10q2_dleaf_t11stream_read:vfx_read_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_read_leafsq2) { read_records<q2_dleaf_t>(Q2_LUMP_LEAFS, 28, true); }
//@ contract prop=B03 replace=_ZNK16q2_dleaf_qbism_t12stream_write:vfx_write_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_write_leafsqbism) { write_records<q2_dleaf_qbism_t>(Q2_LUMP_LEAFS, 52, true); }
//@ contract prop=B03 replace=_ZN16q2_dleaf_qbism_t11stream_read:vfx_read_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_read_leafsqbism) { read_records<q2_dleaf_qbism_t>(Q2_LUMP_LEAFS, 52, true); }
//@ contract prop=B03 replace=_ZNK10dmodelq1_t12stream_write:vfx_write_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_write_modelsq1) { write_records<dmodelq1_t>(LUMP_MODELS, 64, false); }
//@ contract prop=B03 replace=_ZN10dmodelq1_t11stream_read:vfx_read_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_read_modelsq1) { read_records<dmodelq1_t>(LUMP_MODELS, 64, false); }
//@ contract prop=B03 replace=_ZNK10dmodelh2_t12stream_write:vfx_write_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_write_modelsh2) { write_records<dmodelh2_t>(LUMP_MODELS, 80, false); }
//@ contract prop=B03 replace=_ZN10dmodelh2_t11stream_read:vfx_read_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_read_modelsh2) { read_records<dmodelh2_t>(LUMP_MODELS, 80, false); }
//@ contract prop=B03 replace=_ZNK11q2_dmodel_t12stream_write:vfx_write_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_write_modelsq2) { write_records<q2_dmodel_t>(Q2_LUMP_MODELS, 48, true); }
//@ contract prop=B03 replace=_ZN11q2_dmodel_t11stream_read:vfx_read_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_read_modelsq2) { read_records<q2_dmodel_t>(Q2_LUMP_MODELS, 48, true); }
//@ contract prop=B03 replace=_ZNK8dbrush_t12stream_write:vfx_write_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_write_brushes) { write_records<dbrush_t>(Q2_LUMP_BRUSHES, 12, true); }
//@ contract prop=B03 replace=_ZN8dbrush_t11stream_read:vfx_read_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_read_brushes) { read_records<dbrush_t>(Q2_LUMP_BRUSHES, 12, true); }
//@ contract prop=B03 replace=_ZNK15q2_dbrushside_t12stream_write:vfx_write_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_write_brushsidesq2) { write_records<q2_dbrushside_t>(Q2_LUMP_BRUSHSIDES, 4, true); }
//@ contract prop=B03 replace=_ZN15q2_dbrushside_t11stream_read:vfx_read_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_read_brushsidesq2) { read_records<q2_dbrushside_t>(Q2_LUMP_BRUSHSIDES, 4, true); }
//@ contract prop=B03 replace=_ZNK21q2_dbrushside_qbism_t12stream_write:vfx_write_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_write_brushsidesqbism) { write_records<q2_dbrushside_qbism_t>(Q2_LUMP_BRUSHSIDES, 8, true); }
//@ contract prop=B03 replace=_ZN21q2_dbrushside_qbism_t11stream_read:vfx_read_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_read_brushsidesqbism) { read_records<q2_dbrushside_qbism_t>(Q2_LUMP_BRUSHSIDES, 8, true); }
//@ contract prop=B03 replace=_ZNK7darea_t12stream_write:vfx_write_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_write_areas) { write_records<darea_t>(Q2_LUMP_AREAS, 8, true); }
//@ contract prop=B03 replace=_ZN7darea_t11stream_read:vfx_read_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_read_areas) { read_records<darea_t>(Q2_LUMP_AREAS, 8, true); }
//@ contract prop=B03 replace=_ZNK13dareaportal_t12stream_write:vfx_write_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_write_areaportals) { write_records<dareaportal_t>(Q2_LUMP_AREAPORTALS, 8, true); }
//@ contract prop=B03 replace=_ZN13dareaportal_t11stream_read:vfx_read_record assume="the bytes of one record (B02)" tier=thorough
CONTRACT(b03_read_areaportals) { read_records<dareaportal_t>(Q2_LUMP_AREAPORTALS, 8, true); }

// ---------------------------------------------------------------- B03: text
namespace
{
struct text_t {
    alignas(16) unsigned char mem[sizeof(std::string)]{};
    std::string &s = *(std::string *)mem;
    text_t(char *p, size_t n)
    {
        s._M_dataplus._M_p = p;
        s._M_string_length = n;
        s._M_allocated_capacity = n;
    }
};
void write_text(bool two)
{
    const bspversion_t &version = any_version(1, two);
    size_t n = vf::any_in<size_t>("length", 0, MAXFILE);
    size_t pos = vf::any_in<size_t>("pos", 0, MAXFILE);
    size_t cap = vf::any_in<size_t>("cap", 0, MAXFILE);
    vf_require(pos % 4 == 0 && pos <= cap && n + 5 <= cap - pos);
    char *p = (char *)vf_bytes("text", n + 1);
    vf_require(p[n] == 0);
    text_t text(p, n);
    char *file = (char *)vf_bytes("file", cap);
    buf_t buf((void *)file, cap, std::ios_base::out);
    buf.at(0, pos);
    alignas(16) static unsigned char mem[sizeof(bspfile_t)];
    bspfile_t &f = *(bspfile_t *)mem;
    f.version = &version;
    std::ostream &s = *new ((void *)(std::ostream *)&f.stream) std::ostream(&buf);
    s << endianness<std::endian::little>;
    size_t j = vf::any<size_t>("j"), end = (pos + n + 1 + 3) & ~(size_t)3;
    vf_require(j < cap);
    char was = file[j];
    f.write_lump(0, text.s);
    lump_t *dir = two ? f.q2header.lumps.data() : f.q1header.lumps.data();
    vf_ensure((bool)s, "writing succeeds");
    vf_ensure((size_t)dir[0].fileofs == pos && (size_t)dir[0].filelen == n + 1, "the directory says where the text is and how long with its end");
    vf_ensure((size_t)(buf.wptr() - file) == end, "the lump is followed by padding up to a multiple of four");
    if (j < pos || j >= end)
        vf_ensure(file[j] == was, "nothing else in the file is touched");
    else if (j - pos < n)
        vf_ensure(file[j] == p[j - pos], "the text is written as it is");
    else
        vf_ensure(file[j] == 0, "the end of the text and the padding are zero");
}
// into a string with room for it (growing is the business of the standard library)
void read_text()
{
    const bspversion_t &version = any_version(1, true);
    size_t filesize = vf::any_in<size_t>("filesize", 0, MAXFILE);
    char *file = (char *)vf_bytes("file", filesize);
    lump_t *dir = (lump_t *)vf_bytes("directory", 19 * sizeof(lump_t));
    std::vector<lump_t> lumps;
    view(lumps, dir, 19, 19);
    int32_t ofs = vf::any<int32_t>("ofs"), len = vf::any<int32_t>("len");
    dir[0] = {ofs, len};
    bool ok = len == 0 || (ofs >= 0 && len > 0 && (size_t)ofs + (size_t)len <= filesize);
    imemstream s(file, filesize);
    s >> endianness<std::endian::little>;
#ifdef VERIF_IR
    text_t own((char *)vf_bytes("room", MAXFILE), 0);
    own.s._M_allocated_capacity = MAXFILE - 1;
    std::string &text = own.s;
#else
    std::string text;
#endif
    lump_reader reader{s, &version, lumps};
    vf_allow_exit(!ok);
    try {
        reader.read(0, text);
    } catch (...) {
        vf_ensure(!ok, "text inside the file is read");
        view(lumps, nullptr, 0, 0);
        return;
    }
    vf_ensure(ok, "text that is cut short is refused");
    bool end = len > 0 && file[ofs + len - 1] == 0;
    vf_ensure(text.size() == (size_t)len - end, "the text ends before its terminator");
    size_t j = vf::any<size_t>("j");
    if (j < text.size())
        vf_ensure(text[j] == file[ofs + j], "the text is what the file holds");
    view(lumps, nullptr, 0, 0);
}
} // namespace
//@ contract prop=B03
CONTRACT(b03_write_text) { write_text(false); }
//@ contract prop=B03
CONTRACT(b03_write_text_q2) { write_text(true); }
//@ contract prop=B03
CONTRACT(b03_read_text) { read_text(); }

// ---------------------------------------------------------------- B03: which lump holds what
namespace
{
struct {
    const void *field[19]; // what lump i of the format holds
    int times[19]; // how often lump i was written or read
    const void *file;
} slots;
template<class T>
void q1_fields(T &b)
{
    const void *f[15] = {&b.dentdata, &b.dplanes, &b.dtex, &b.dvertexes, &b.dvisdata, &b.dnodes, &b.texinfo, &b.dfaces,
        &b.dlightdata, &b.dclipnodes, &b.dleafs, &b.dmarksurfaces, &b.dedges, &b.dsurfedges, nullptr};
    for (int i = 0; i < 15; i++)
        slots.field[i] = f[i];
}
template<class T>
void q2_fields(T &b)
{
    const void *f[19] = {&b.dentdata, &b.dplanes, &b.dvertexes, &b.dvis, &b.dnodes, &b.texinfo, &b.dfaces, &b.dlightdata,
        &b.dleafs, &b.dleaffaces, &b.dleafbrushes, &b.dedges, &b.dsurfedges, &b.dmodels, &b.dbrushes, &b.dbrushsides, nullptr, &b.dareas, &b.dareaportals};
    for (int i = 0; i < 19; i++)
        slots.field[i] = f[i];
}
} // namespace
// the contract of writing a lump: above
extern "C" __attribute__((used)) void vfx_write_lump(void *file, size_t slot, const void *field)
{
    vf_ensure(file == slots.file && slot < 19, "lumps go to the file");
    vf_ensure(slots.field[slot] == field, "every lump is written from the data it holds");
    slots.times[slot]++;
}
extern "C" __attribute__((used)) void vfx_read_lump(void *reader, size_t slot, void *field)
{
    vf_ensure(reader == slots.file && slot < 19, "lumps come from the file");
    if (slots.field[slot] == nullptr)
        slots.field[slot] = field; // the models of Quake and Hexen II: looked at afterwards
    vf_ensure(slots.field[slot] == field, "every lump is read into the data it holds");
    slots.times[slot]++;
}
namespace
{
void all_once(int n, int skip)
{
    for (int i = 0; i < 19; i++)
        vf_ensure(slots.times[i] == (i < n && i != skip), "every lump is visited once");
}
bspfile_t &any_file(const bspversion_t &v)
{
    alignas(16) static unsigned char mem[sizeof(bspfile_t)];
    bspfile_t &f = *(bspfile_t *)mem;
    f.version = &v;
    slots.file = &f;
    return f;
}
// In a native run the calls are not answered by the contracts above. Instead every field holds a number of records of its own, which
// the directory has to show, or is read from a lump that does.
#ifndef VERIF_IR
const size_t COUNT = 40; // lump i has COUNT + i records; strings and structures COUNT + i bytes
template<class T>
void fill(std::vector<T> &v, int i) { v.resize(COUNT + i); }
void fill(std::string &v, int i) { v = std::string(COUNT + i - 1, 'x'); }
template<class T>
void fill_q1(T &b)
{
    fill(b.dentdata, 0), fill(b.dplanes, 1), fill(b.dvertexes, 3), fill(b.dvisdata, 4), fill(b.dnodes, 5), fill(b.texinfo, 6), fill(b.dfaces, 7);
    fill(b.dlightdata, 8), fill(b.dclipnodes, 9), fill(b.dleafs, 10), fill(b.dmarksurfaces, 11), fill(b.dedges, 12), fill(b.dsurfedges, 13);
    if (auto *m = std::get_if<dmodelh2_vector>(&b.dmodels))
        fill(*m, 14);
    else
        fill(std::get<dmodelq1_vector>(b.dmodels), 14);
}
template<class T>
void fill_q2(T &b)
{
    fill(b.dentdata, 0), fill(b.dplanes, 1), fill(b.dvertexes, 2), fill(b.dvis.bits, 3), fill(b.dnodes, 4), fill(b.texinfo, 5), fill(b.dfaces, 6), fill(b.dlightdata, 7);
    fill(b.dleafs, 8), fill(b.dleaffaces, 9), fill(b.dleafbrushes, 10), fill(b.dedges, 11), fill(b.dsurfedges, 12), fill(b.dmodels, 13), fill(b.dbrushes, 14), fill(b.dbrushsides, 15);
    fill(b.dareas, 17), fill(b.dareaportals, 18);
}
bool same(const std::string &a, const std::string &b) { return a.size() == b.size(); }
template<class T>
bool same(const std::vector<T> &a, const std::vector<T> &b) { return a.size() == b.size(); }
template<class T>
bool same_q1(T &a, T &b)
{
    bool models = b.dmodels.index() == a.dmodels.index() && (std::holds_alternative<dmodelh2_vector>(a.dmodels) ? same(std::get<dmodelh2_vector>(a.dmodels), std::get<dmodelh2_vector>(b.dmodels)) : same(std::get<dmodelq1_vector>(a.dmodels), std::get<dmodelq1_vector>(b.dmodels)));
    return models && same(a.dentdata, b.dentdata) && same(a.dplanes, b.dplanes) && same(a.dvertexes, b.dvertexes) && same(a.dvisdata, b.dvisdata) && same(a.dnodes, b.dnodes) && same(a.texinfo, b.texinfo) && same(a.dfaces, b.dfaces) && same(a.dlightdata, b.dlightdata) &&
           same(a.dclipnodes, b.dclipnodes) && same(a.dleafs, b.dleafs) && same(a.dmarksurfaces, b.dmarksurfaces) && same(a.dedges, b.dedges) && same(a.dsurfedges, b.dsurfedges) && a.dtex.textures.size() == b.dtex.textures.size();
}
template<class T>
bool same_q2(T &a, T &b)
{
    return same(a.dentdata, b.dentdata) && same(a.dplanes, b.dplanes) && same(a.dvertexes, b.dvertexes) && same(a.dvis.bits, b.dvis.bits) && same(a.dnodes, b.dnodes) && same(a.texinfo, b.texinfo) && same(a.dfaces, b.dfaces) && same(a.dlightdata, b.dlightdata) &&
           same(a.dleafs, b.dleafs) && same(a.dleaffaces, b.dleaffaces) && same(a.dleafbrushes, b.dleafbrushes) && same(a.dedges, b.dedges) && same(a.dsurfedges, b.dsurfedges) && same(a.dmodels, b.dmodels) && same(a.dbrushes, b.dbrushes) &&
           same(a.dbrushsides, b.dbrushsides) && same(a.dareas, b.dareas) && same(a.dareaportals, b.dareaportals);
}
struct nat_t {
    std::vector<char> data = std::vector<char>(1 << 20);
    buf_t buf{(void *)data.data(), data.size(), std::ios_base::out};
    std::ostream *s;
    bspfile_t &f;
    nat_t(bspfile_t &f) : f(f)
    {
        s = new ((void *)(std::ostream *)&f.stream) std::ostream(&buf);
        *s << endianness<std::endian::little>;
    }
    // the lumps as the directory has them; the lengths it has to show, 0 for no lump, -1 for whatever there is
    std::vector<lump_t> lumps(size_t n, int skip, int any)
    {
        lump_t *dir = n == 19 ? f.q2header.lumps.data() : f.q1header.lumps.data();
        for (size_t i = 0; i < n; i++)
            vf_ensure((int)i == any ? dir[i].filelen > 0 : (size_t)dir[i].filelen == ((int)i == skip ? 0 : (COUNT + i) * f.version->lumps.begin()[i].size), "every lump is written from the data it holds");
        return {dir, dir + n};
    }
};
#endif
template<class T>
void write_q1(const bspversion_t &v, bool h2)
{
    static T b;
    if (h2)
        b.dmodels.template emplace<dmodelh2_vector>();
    else
        b.dmodels.template emplace<dmodelq1_vector>();
#ifndef VERIF_IR
    fill_q1(b);
    nat_t nat(any_file(v));
    nat.f.write_bsp(b);
    nat.lumps(15, -1, 2);
    return;
#endif
    q1_fields(b);
    slots.field[14] = h2 ? (void *)std::get_if<dmodelh2_vector>(&b.dmodels) : (void *)std::get_if<dmodelq1_vector>(&b.dmodels);
    any_file(v).write_bsp(b);
    all_once(15, -1);
}
template<class T>
void write_q2(const bspversion_t &v)
{
    static T b;
#ifndef VERIF_IR
    fill_q2(b);
    nat_t nat(any_file(v));
    nat.f.write_bsp(b);
    nat.lumps(19, 16, 3);
    return;
#endif
    q2_fields(b);
    any_file(v).write_bsp(b);
    all_once(19, 16);
}
template<class T>
void read_q1(const bspversion_t &v, bool h2)
{
    static T b;
#ifndef VERIF_IR
    T a;
    if (h2)
        a.dmodels.template emplace<dmodelh2_vector>();
    else
        a.dmodels.template emplace<dmodelq1_vector>();
    fill_q1(a);
    nat_t nat(any_file(v));
    nat.f.write_bsp(a);
    auto l = nat.lumps(15, -1, 2);
    imemstream in(nat.data.data(), nat.data.size());
    in >> endianness<std::endian::little>;
    lump_reader r2{in, &v, l};
    ReadQ1BSP(r2, b);
    vf_ensure(same_q1(a, b), "every lump is read into the data it holds");
    return;
#endif
    q1_fields(b);
    std::vector<lump_t> none;
    imemstream s(nullptr, 0);
    alignas(16) static unsigned char game[sizeof(gamedef_t)]; // (the definitions of the games are built when the program starts)
    const_cast<gameid_t &>(((gamedef_t *)game)->id) = h2 ? GAME_HEXEN_II : vf::any_in<uint8_t>("game", 0, 1) ? GAME_QUAKE : GAME_HALF_LIFE;
    const bspversion_t &own = any_version(1, false);
    const_cast<const gamedef_t *&>(own.game) = (gamedef_t *)game;
    lump_reader r{s, &own, none};
    slots.file = &r;
    ReadQ1BSP(r, b);
    all_once(15, -1);
    if (h2)
        vf_ensure(slots.field[14] == std::get_if<dmodelh2_vector>(&b.dmodels), "Hexen II models are read as such");
    else
        vf_ensure(slots.field[14] == std::get_if<dmodelq1_vector>(&b.dmodels), "Quake models are read as such");
}
template<class T>
void read_q2(const bspversion_t &v)
{
    static T b;
#ifndef VERIF_IR
    T a;
    fill_q2(a);
    nat_t nat(any_file(v));
    nat.f.write_bsp(a);
    auto l = nat.lumps(19, 16, 3);
    imemstream in(nat.data.data(), nat.data.size());
    in >> endianness<std::endian::little>;
    lump_reader r2{in, &v, l};
    ReadQ2BSP(r2, b);
    vf_ensure(same_q2(a, b), "every lump is read into the data it holds");
    return;
#endif
    q2_fields(b);
    std::vector<lump_t> none;
    imemstream s(nullptr, 0);
    lump_reader r{s, &v, none};
    slots.file = &r;
    ReadQ2BSP(r, b);
    all_once(19, 16);
}
// the formats: the size of a record in each lump
void sizes(const bspversion_t &v, std::initializer_list<size_t> want)
{
    vf_ensure(v.lumps.size() == want.size(), "as many lumps as the format has");
    bool ok = true;
    for (size_t i = 0; i < want.size(); i++)
        ok &= v.lumps.begin()[i].size == want.begin()[i];
    vf_ensure(ok, "records have the size the format gives them");
}
} // namespace
//@ contract prop=B03
CONTRACT(b03_sizes)
{
    sizes(bspver_q1, {1, 20, 1, 12, 1, 24, 40, 20, 1, 8, 28, 2, 4, 4, 64});
    sizes(bspver_hl, {1, 20, 1, 12, 1, 24, 40, 20, 1, 8, 28, 2, 4, 4, 64});
    sizes(bspver_h2, {1, 20, 1, 12, 1, 24, 40, 20, 1, 8, 28, 2, 4, 4, 80});
    sizes(bspver_bsp2, {1, 20, 1, 12, 1, 44, 40, 28, 1, 12, 44, 4, 8, 4, 64});
    sizes(bspver_h2bsp2, {1, 20, 1, 12, 1, 44, 40, 28, 1, 12, 44, 4, 8, 4, 80});
    sizes(bspver_bsp2rmq, {1, 20, 1, 12, 1, 32, 40, 28, 1, 12, 32, 4, 8, 4, 64});
    sizes(bspver_h2bsp2rmq, {1, 20, 1, 12, 1, 32, 40, 28, 1, 12, 32, 4, 8, 4, 80});
    sizes(bspver_q2, {1, 20, 12, 1, 28, 76, 20, 1, 28, 2, 2, 4, 4, 48, 12, 4, 1, 8, 8});
    sizes(bspver_qbism, {1, 20, 12, 1, 44, 76, 28, 1, 52, 4, 4, 8, 4, 48, 12, 8, 1, 8, 8});
}
//@ contract prop=B03 replace=_ZN9bspfile_t10write_lump:vfx_write_lump assume="a lump is written as b03_write_ proves"
CONTRACT(b03_slots_write_q1) { write_q1<bsp29_t>(bspver_q1, false); }
//@ contract prop=B03 replace=_ZN11lump_reader4read:vfx_read_lump assume="a lump is read as b03_read_ proves"
CONTRACT(b03_slots_read_q1) { read_q1<bsp29_t>(bspver_q1, false); }
//@ contract prop=B03 replace=_ZN9bspfile_t10write_lump:vfx_write_lump assume="a lump is written as b03_write_ proves"
CONTRACT(b03_slots_write_h2) { write_q1<bsp29_t>(bspver_h2, true); }
//@ contract prop=B03 replace=_ZN11lump_reader4read:vfx_read_lump assume="a lump is read as b03_read_ proves"
CONTRACT(b03_slots_read_h2) { read_q1<bsp29_t>(bspver_h2, true); }
//@ contract prop=B03 replace=_ZN9bspfile_t10write_lump:vfx_write_lump assume="a lump is written as b03_write_ proves"
CONTRACT(b03_slots_write_hl) { write_q1<bsp29_t>(bspver_hl, false); }
//@ contract prop=B03 replace=_ZN11lump_reader4read:vfx_read_lump assume="a lump is read as b03_read_ proves"
CONTRACT(b03_slots_read_hl) { read_q1<bsp29_t>(bspver_hl, false); }
//@ contract prop=B03 replace=_ZN9bspfile_t10write_lump:vfx_write_lump assume="a lump is written as b03_write_ proves"
CONTRACT(b03_slots_write_bsp2rmq) { write_q1<bsp2rmq_t>(bspver_bsp2rmq, false); }
//@ contract prop=B03 replace=_ZN11lump_reader4read:vfx_read_lump assume="a lump is read as b03_read_ proves"
CONTRACT(b03_slots_read_bsp2rmq) { read_q1<bsp2rmq_t>(bspver_bsp2rmq, false); }
//@ contract prop=B03 replace=_ZN9bspfile_t10write_lump:vfx_write_lump assume="a lump is written as b03_write_ proves"
CONTRACT(b03_slots_write_h2bsp2rmq) { write_q1<bsp2rmq_t>(bspver_h2bsp2rmq, true); }
//@ contract prop=B03 replace=_ZN11lump_reader4read:vfx_read_lump assume="a lump is read as b03_read_ proves"
CONTRACT(b03_slots_read_h2bsp2rmq) { read_q1<bsp2rmq_t>(bspver_h2bsp2rmq, true); }
//@ contract prop=B03 replace=_ZN9bspfile_t10write_lump:vfx_write_lump assume="a lump is written as b03_write_ proves"
CONTRACT(b03_slots_write_bsp2) { write_q1<bsp2_t>(bspver_bsp2, false); }
//@ contract prop=B03 replace=_ZN11lump_reader4read:vfx_read_lump assume="a lump is read as b03_read_ proves"
CONTRACT(b03_slots_read_bsp2) { read_q1<bsp2_t>(bspver_bsp2, false); }
//@ contract prop=B03 replace=_ZN9bspfile_t10write_lump:vfx_write_lump assume="a lump is written as b03_write_ proves"
CONTRACT(b03_slots_write_h2bsp2) { write_q1<bsp2_t>(bspver_h2bsp2, true); }
//@ contract prop=B03 replace=_ZN11lump_reader4read:vfx_read_lump assume="a lump is read as b03_read_ proves"
CONTRACT(b03_slots_read_h2bsp2) { read_q1<bsp2_t>(bspver_h2bsp2, true); }
//@ contract prop=B03 replace=_ZN9bspfile_t10write_lump:vfx_write_lump assume="a lump is written as b03_write_ proves"
CONTRACT(b03_slots_write_q2) { write_q2<q2bsp_t>(bspver_q2); }
//@ contract prop=B03 replace=_ZN11lump_reader4read:vfx_read_lump assume="a lump is read as b03_read_ proves"
CONTRACT(b03_slots_read_q2) { read_q2<q2bsp_t>(bspver_q2); }
//@ contract prop=B03 replace=_ZN9bspfile_t10write_lump:vfx_write_lump assume="a lump is written as b03_write_ proves"
CONTRACT(b03_slots_write_qbism) { write_q2<q2bsp_qbism_t>(bspver_qbism); }
//@ contract prop=B03 replace=_ZN11lump_reader4read:vfx_read_lump assume="a lump is read as b03_read_ proves"
CONTRACT(b03_slots_read_qbism) { read_q2<q2bsp_qbism_t>(bspver_qbism); }
