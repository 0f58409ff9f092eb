// Bit sets over leafs (include/vis/leafbits.hh), of any size.
#include "vf.hh"
#include <memory>
#include "vis/leafbits.hh"

static const size_t MAXBITS = 1ull << 32;

// an arbitrary set of n bits, held by an arbitrary array of the right size
struct set_t
{
    leafbits_t v;
    const uint32_t *p;
    set_t(const char *name, size_t n)
        : v(n)
    {
        size_t bytes = (n + 31) / 32 * 4;
        memcpy(v.bits.get(), vf_bytes(name, bytes), bytes);
        p = v.bits.get();
    }
};
static bool bit(const leafbits_t &v, size_t i) { return (v.data()[i / 32] >> (i % 32)) & 1; }

//@ contract prop=V03
CONTRACT(v03_new)
{
    size_t n = vf::any_in<size_t>("n", 1, MAXBITS), i = vf::any_in<size_t>("i", 0, n - 1);
    leafbits_t v(n);
    vf_ensure(v.size() == n, "a new set has the size asked for");
    vf_ensure(!((const leafbits_t &)v)[i] && !bit(v, i), "a new set is empty");
    leafbits_t d;
    vf_ensure(d.size() == 0, "a default set has no bits");
}
//@ contract prop=V03
CONTRACT(v03_get)
{
    size_t n = vf::any_in<size_t>("n", 1, MAXBITS), i = vf::any_in<size_t>("i", 0, n - 1);
    set_t s("set", n);
    vf_ensure(((const leafbits_t &)s.v)[i] == bit(s.v, i), "a bit reads as what is stored");
    vf_ensure((bool)s.v[i] == bit(s.v, i), "a bit reference reads as what is stored");
}
//@ contract prop=V03
CONTRACT(v03_set)
{
    size_t n = vf::any_in<size_t>("n", 1, MAXBITS), i = vf::any_in<size_t>("i", 0, n - 1), j = vf::any_in<size_t>("j", 0, n - 1);
    set_t s("set", n);
    bool on = vf::any<bool>("on"), before = bit(s.v, j);
    s.v[i] = on;
    vf_ensure(((const leafbits_t &)s.v)[i] == on, "a bit reads as what was assigned");
    vf_ensure(j == i || bit(s.v, j) == before, "assigning a bit leaves all others alone");
    vf_ensure(s.v.size() == n, "assigning a bit keeps the size");
}
//@ contract prop=V03
CONTRACT(v03_copy)
{
    size_t n = vf::any_in<size_t>("n", 1, MAXBITS), i = vf::any_in<size_t>("i", 0, n - 1);
    set_t s("set", n);
    bool was = bit(s.v, i);
    leafbits_t c(s.v);
    vf_ensure(c.size() == n && bit(c, i) == was, "a copy holds the same bits");
    c[i] = !was;
    vf_ensure(s.v.size() == n && bit(s.v, i) == was, "changing a copy leaves the original alone");
}
//@ contract prop=V03
CONTRACT(v03_assign)
{
    size_t n = vf::any_in<size_t>("n", 1, MAXBITS), m = vf::any_in<size_t>("m", 1, MAXBITS), i = vf::any_in<size_t>("i", 0, n - 1);
    set_t s("set", n), c("old", m);
    bool was = bit(s.v, i);
    c.v = s.v;
    vf_ensure(c.v.size() == n && bit(c.v, i) == was, "an assigned set holds the same bits");
    c.v[i] = !was;
    vf_ensure(s.v.size() == n && bit(s.v, i) == was, "changing an assigned set leaves the original alone");
}
//@ contract prop=V03
CONTRACT(v03_move)
{
    size_t n = vf::any_in<size_t>("n", 1, MAXBITS), m = vf::any_in<size_t>("m", 1, MAXBITS), i = vf::any_in<size_t>("i", 0, n - 1);
    set_t s("set", n), c("old", m);
    bool was = bit(s.v, i);
    c.v = std::move(s.v);
    vf_ensure(c.v.size() == n && bit(c.v, i) == was, "a moved set holds the same bits");
    vf_ensure(s.v.size() == 0, "a set moved from is empty");
    leafbits_t d(std::move(c.v));
    vf_ensure(d.size() == n && bit(d, i) == was, "a moved set holds the same bits");
    vf_ensure(c.v.size() == 0, "a set moved from is empty");
}
//@ contract prop=V03
CONTRACT(v03_resize)
{
    size_t n = vf::any_in<size_t>("n", 1, MAXBITS), m = vf::any_in<size_t>("m", 1, MAXBITS), i = vf::any_in<size_t>("i", 0, m - 1);
    set_t s("set", n);
    s.v.resize(m);
    vf_ensure(s.v.size() == m && !bit(s.v, i), "resizing gives an empty set of the new size");
}
//@ contract prop=V03
CONTRACT(v03_clear)
{
    size_t n = vf::any_in<size_t>("n", 1, MAXBITS), i = vf::any_in<size_t>("i", 0, n - 1);
    set_t s("set", n);
    s.v.clear();
    vf_ensure(s.v.size() == n && !bit(s.v, i), "clearing empties the set");
    s.v.setall();
    vf_ensure(s.v.size() == n && bit(s.v, i), "setall sets every bit");
}
