// In-memory streams and the binary on-disk layout of every BSP record.
#include "vf.hh"
#include "vf_ios.hh"
#include <common/cmdlib.hh>
#include "common/cmdlib.cc"

// ---------------------------------------------------------------- M01: in-memory streams over a buffer of any size
struct buf_t : membuf
{
    using membuf::membuf;
    using membuf::seekoff;
    using membuf::seekpos;
    using membuf::xsgetn;
    using membuf::xsputn;
    using membuf::overflow;
    using membuf::underflow;
    size_t rpos() const { return gptr() - eback(); }
    size_t wpos() const { return pptr() - pbase(); }
    void at(size_t r, size_t w) // any state the public operations can reach
    {
        setg(eback(), eback() + r, egptr());
        setpptrs(pbase(), pbase() + w, epptr());
    }
};
static const size_t MAXBUF = 0x7fffffff;
//@ contract prop=M01
CONTRACT(m01_read)
{
    size_t size = vf::any_in<size_t>("size", 0, MAXBUF);
    size_t pos = vf::any_in<size_t>("pos", 0, size);
    std::streamsize n = vf::any_in<std::streamsize>("n", 0, MAXBUF);
    unsigned char *p = (unsigned char *)vf_bytes("data", size);
    unsigned char *d = (unsigned char *)vf_bytes("dest", n);
    buf_t b((const void *)p, size);
    b.at(pos, 0);
    std::streamsize left = size - pos, want = n < left ? n : left;
    size_t i = vf::any<size_t>("i"), j = vf::any<size_t>("j");
    vf_require(want == 0 || i < (size_t)want);
    vf_require(want == n || (j >= (size_t)want && j < (size_t)n));
    unsigned char before = want < n ? d[j] : 0;
    std::streamsize r = b.xsgetn((char *)d, n);
    vf_ensure(r == want, "a read delivers as many bytes as asked for and available");
    vf_ensure(b.rpos() == pos + want, "a read advances by what it delivered");
    if (want)
        vf_ensure(d[i] == p[pos + i], "a read delivers the buffer's bytes in order");
    if (want < n)
        vf_ensure(d[j] == before, "a short read leaves the rest of the destination alone");
}
//@ contract prop=M01
CONTRACT(m01_read_exact)
{
    size_t size = vf::any_in<size_t>("size", 0, MAXBUF);
    size_t pos = vf::any_in<size_t>("pos", 0, size);
    std::streamsize n = vf::any_in<std::streamsize>("n", 0, size - pos);
    unsigned char *p = (unsigned char *)vf_bytes("data", size);
    unsigned char *d = (unsigned char *)vf_bytes("dest", n);
    imemstream s(p, size);
    s.seekg(pos);
    vf_ensure((bool)s && (size_t)s.tellg() == pos, "seeking inside the buffer succeeds");
    size_t i = vf::any<size_t>("i");
    vf_require(n == 0 || i < (size_t)n);
    s.read((char *)d, n);
    vf_ensure((bool)s && s.gcount() == n, "a read that fits succeeds");
    if (n)
        vf_ensure(d[i] == p[pos + i], "a read delivers the buffer's bytes in order");
    vf_ensure((size_t)s.tellg() == pos + n, "the position advances by the bytes read");
}
//@ contract prop=M01
CONTRACT(m01_read_past_end)
{
    size_t size = vf::any_in<size_t>("size", 0, MAXBUF);
    size_t pos = vf::any_in<size_t>("pos", 0, size);
    std::streamsize n = vf::any_in<std::streamsize>("n", 1, MAXBUF);
    vf_require((size_t)n > size - pos);
    unsigned char *p = (unsigned char *)vf_bytes("data", size);
    unsigned char *d = (unsigned char *)vf_bytes("dest", n);
    imemstream s(p, size);
    s.seekg(pos);
    s.read((char *)d, n);
    vf_ensure(!s, "a read past the end is reported");
}
//@ contract prop=M01
CONTRACT(m01_write)
{
    size_t size = vf::any_in<size_t>("size", 0, MAXBUF);
    size_t pos = vf::any_in<size_t>("pos", 0, size);
    std::streamsize n = vf::any_in<std::streamsize>("n", 0, MAXBUF);
    unsigned char *p = (unsigned char *)vf_bytes("data", size);
    unsigned char *d = (unsigned char *)vf_bytes("src", n);
    buf_t b((void *)p, size, std::ios_base::out);
    b.at(0, pos);
    std::streamsize left = size - pos, want = n < left ? n : left;
    size_t i = vf::any<size_t>("i"), j = vf::any<size_t>("j");
    bool other = (size_t)want < size;
    vf_require(!other || (j < size && (j < pos || j >= pos + want)));
    vf_require(want == 0 || i < (size_t)want);
    unsigned char before = other ? p[j] : 0;
    std::streamsize r = b.xsputn((char *)d, n);
    vf_ensure(r == want, "a write stores as many bytes as given and fit");
    vf_ensure(b.wpos() == pos + want, "a write advances by what it stored");
    if (other)
        vf_ensure(p[j] == before, "a write changes nothing outside its range");
    if (want)
        vf_ensure(p[pos + i] == d[i], "a write stores the bytes in order");
}
//@ contract prop=M01
CONTRACT(m01_write_exact)
{
    size_t size = vf::any_in<size_t>("size", 0, MAXBUF);
    size_t pos = vf::any_in<size_t>("pos", 0, size);
    std::streamsize n = vf::any_in<std::streamsize>("n", 0, MAXBUF);
    unsigned char *p = (unsigned char *)vf_bytes("data", size);
    unsigned char *d = (unsigned char *)vf_bytes("src", n);
    omemstream s(p, size, std::ios_base::out | std::ios_base::binary);
    s.seekp(pos);
    vf_ensure((bool)s && (size_t)s.tellp() == pos, "seeking inside the buffer succeeds");
    s.write((char *)d, n);
    vf_ensure((bool)s == ((size_t)n <= size - pos), "a write fails exactly when it does not fit");
    if (s)
        vf_ensure((size_t)s.tellp() == pos + n, "the position advances by the bytes written");
}
static void seek_contract(std::ios_base::openmode m)
{
    size_t size = vf::any_in<size_t>("size", 0, MAXBUF);
    size_t pos = vf::any_in<size_t>("pos", 0, size);
    int64_t off = vf::any<int64_t>("off");
    int d = vf::any_in<int>("dir", 0, 2);
    auto dir = d == 0 ? std::ios_base::beg : d == 1 ? std::ios_base::cur : std::ios_base::end;
    unsigned char *p = (unsigned char *)vf_bytes("data", size);
    buf_t b((void *)p, size);
    b.at(pos, pos);
    int64_t from = d == 0 ? 0 : d == 1 ? (int64_t)pos : (int64_t)size;
    bool ok = off >= -from && off <= (int64_t)size - from;
    int64_t r = b.seekoff(off, dir, m);
    size_t np = ok ? from + off : pos;
    vf_ensure(r == (ok ? (int64_t)np : -1), "a seek outside the buffer is refused, any other returns its target");
    vf_ensure(b.rpos() == ((m & std::ios_base::in) ? np : pos), "read position after a seek");
    vf_ensure(b.wpos() == ((m & std::ios_base::out) ? np : pos), "write position after a seek");
}
//@ contract prop=M01
CONTRACT(m01_seek_in) { seek_contract(std::ios_base::in); }
//@ contract prop=M01
CONTRACT(m01_seek_out) { seek_contract(std::ios_base::out); }
//@ contract prop=M01
CONTRACT(m01_seek_both) { seek_contract(std::ios_base::in | std::ios_base::out); }
//@ contract prop=M01
CONTRACT(m01_seekpos)
{
    size_t size = vf::any_in<size_t>("size", 0, MAXBUF);
    int64_t off = vf::any<int64_t>("off");
    unsigned char *p = (unsigned char *)vf_bytes("data", size);
    buf_t b((void *)p, size);
    bool ok = off >= 0 && off <= (int64_t)size;
    int64_t r = b.seekpos(off, std::ios_base::in | std::ios_base::out);
    vf_ensure(r == (ok ? off : -1), "an absolute seek lands on its target or is refused");
    vf_ensure(b.rpos() == (ok ? (size_t)off : 0) && b.wpos() == (ok ? (size_t)off : 0), "positions after an absolute seek");
}
//@ contract prop=M01
CONTRACT(m01_no_room)
{
    buf_t b((void *)nullptr, 0);
    vf_ensure(b.overflow(vf::any<int>("c")) == EOF && b.underflow() == EOF, "a full or empty buffer reports the end");
}
