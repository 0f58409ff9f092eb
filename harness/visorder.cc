// Handing out portals and passing on what they no longer see (vis/vis.cc), for any number of portals and leafs and any
// schedule: every function is verified from an arbitrary state at the moment it takes the lock.
#include "vf.hh"
#include <algorithm>
#include <iterator>
#include <vector>
#include "vis/vis.cc"
#include "common/bspfile_generic.cc"
#ifndef VERIF_SPEC
#include "common/bsputils.cc"
#endif

#ifdef VERIF_SPEC
namespace
{
struct {
    bool locked, unlocked; // taken; given back
    // GetNextPortal
    visportal_t *list, *atlock; // the portals; what they are when the lock is taken
    size_t n, k; // how many; an arbitrary one
    size_t i, r; // portals before i have been looked at; the r-th has been chosen
    size_t byte; // an arbitrary byte of portal k
    uint8_t k_after; // that byte, and the state of portal r, when the lock is given back
    pstatus_t r_after;
    int num_r;
    // UpdateMightsee, PortalCompleted
    visportal_t *const *plist;
    size_t nplist, a, b; // the portals of the leaf; two arbitrary different places in the list
    visportal_t *pa, *pb, *pq, *completed; // the portals there; any other one; the one completed
    size_t m, leaf; // the leaf that is finished; an arbitrary leaf
    size_t nleafs;
    bool was, was2; // bits of pa
    int num;
    size_t other;
    size_t ci, cj; // current place and block
    bool called, witness; // what portal a no longer sees of the leaf was passed on; another portal still sees it
    pstatus_t was_status;
} g;
bool bit(const leafbits_t &l, size_t n) { return (l.data()[n >> 5] >> (n & 31)) & 1; }
bool waiting(const visportal_t &p) { return p.status == pstat_none; }
bool sees(const visportal_t &p, size_t l) { return bit(p.status == pstat_done ? p.visbits : p.mightsee, l); }
bool lost() { return g.pa->status == pstat_done && bit(g.pa->mightsee, g.leaf) && !bit(g.pa->visbits, g.leaf); }
template<class T>
void view(std::vector<T> &v, void *p, size_t n, size_t cap)
{
    v._M_impl._M_start = (T *)p;
    v._M_impl._M_finish = (T *)p + n;
    v._M_impl._M_end_of_storage = (T *)p + cap;
}
} // namespace
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) noexcept
{
    vf_ensure(m == portal_mutex.native_handle() && !g.locked && !g.unlocked, "the lock is taken once");
    g.locked = true;
    if (g.atlock) // any other thread may have been at work
        memcpy((void *)g.list, (void *)g.atlock, g.n * sizeof(visportal_t));
    if (g.completed)
        vf_ensure(g.completed->status == g.was_status, "the state of the portal changes with the lock held");
    return 0;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) noexcept
{
    vf_ensure(m == portal_mutex.native_handle() && g.locked, "the lock is given back once");
    g.locked = false;
    g.unlocked = true;
    if (g.atlock) {
        // from now on another thread may change everything
        g.k_after = ((uint8_t *)&g.list[g.k])[g.byte];
        g.r_after = g.r < g.n ? g.list[g.r].status : pstat_none;
    }
    if (g.completed)
        vf_ensure(g.completed->status == pstat_done, "the portal is marked as finished before the lock is given back");
    return 0;
}
bool vf_pred(int id, uint64_t a, uint64_t b) noexcept
{
    if (id == 10) {
        if (a != (uintptr_t)(g.list + g.i) || g.i >= g.n || !g.locked)
            return false;
        return b == 0 ? true : g.r < g.i && b == (uintptr_t)(g.list + g.r);
    }
    if (id == 11) { // a: min, b: the portal chosen
        const visportal_t &k = g.list[g.k];
        if (b ? !(g.r < g.n && waiting(g.list[g.r]) && (uint32_t)g.list[g.r].nummightsee == (uint32_t)a && (int)a >= 0) : a != INT_MAX)
            return false;
        return !(g.k < g.i && waiting(k) && k.nummightsee >= 0 && k.nummightsee < INT_MAX) || (b && (int)a <= k.nummightsee);
    }
    if (id == 12) {
        size_t off = a - (uintptr_t)g.plist, i = off / 8;
        bool changed = g.a < i && g.pa->status == pstat_none;
        return off % 8 == 0 && i < g.nplist && bit(g.pa->mightsee, g.m) == (g.was && !changed) && bit(g.pa->mightsee, g.other) == g.was2 &&
               g.pa->nummightsee == g.num - (changed && g.was);
    }
    bool told = !lost() || g.called || g.witness;
    if (id == 13)
        return (int64_t)a >= 0 && !(g.a < a && !told);
    if (id == 14)
        return (int64_t)b >= 0 && g.ci == a && !(g.a < a && !told) && !(g.a == a && (g.leaf >> 5) < b && !told);
    if (id == 15 || id == 16) {
        if (id == 15 && (int64_t)b < 0)
            return false;
        if (g.a < g.ci || (g.a == g.ci && (g.leaf >> 5) < g.cj))
            return told;
        if (g.a != g.ci || (g.leaf >> 5) != g.cj)
            return true;
        bool in = (a >> (g.leaf & 31)) & 1;
        return in ? lost() && !(g.b != g.a && (id == 16 || g.b < b) && sees(*g.pb, g.leaf)) : told;
    }
    return true;
}
void vf_ghost(int id, uint64_t a, uint64_t b) noexcept
{
    if (id == 10) {
        if (a == b)
            g.r = g.i;
        g.i++;
    }
    if (id == 13) {
        g.ci = a;
        vf_ensure(g.locked, "the portals are looked at with the lock held");
    }
    if (id == 14)
        g.cj = a;
}
void vf_name(int id, const void *p) noexcept
{
    if (id == 15 && g.ci == g.a && g.cj == (g.leaf >> 5) && sees(*(const visportal_t *)p, g.leaf))
        g.witness = true;
}
void vf_hint(int id, uint64_t a, uint64_t) noexcept
{
    if (id == 10)
        vf_require(((const visportal_t *)a)->nummightsee >= 0);
}
// contract of UpdateMightsee, see v07_update
extern "C" __attribute__((used)) void vfx_update_mightsee(visstats_t &stats, const leaf_t &source, const leaf_t &dest)
{
    vf_ensure(g.locked, "eliminations are passed on with the lock held");
    vf_ensure(&dest == leafs.data() + g.m, "eliminations are passed on to the leaf that is finished");
    if (&source == leafs.data() + g.leaf && g.ci == g.a) {
        vf_ensure(g.leaf < g.nleafs, "eliminations concern existing leafs");
        vf_ensure(lost(), "what is passed on was ruled out by a finished portal");
        vf_ensure(g.b == g.a || !sees(*g.pb, g.leaf), "what is passed on is seen by no other portal of the leaf");
        g.called = true;
    }
    if (&source == &dest && g.pb->status == pstat_none)
        g.pb->mightsee[g.m] = false;
}
static void bitset(leafbits_t &l, const char *name, size_t n)
{
    size_t words = (n + 31) / 32;
    l._size = n;
    new (&l.bits) std::unique_ptr<uint32_t[]>((uint32_t *)vf_bytes(name, words * 4));
}
static visportal_t *any_portal(visportal_t &p, const char *vis, const char *might)
{
    p.status = vf::any<pstatus_t>("status");
    p.nummightsee = vf::any<int>("nummightsee");
    bitset(p.visbits, vis, portalleafs);
    bitset(p.mightsee, might, portalleafs);
    return &p;
}
static const size_t MAXLEAFS = 1 << 24, MAXPORTALS = 1 << 24;
#else
static const size_t MAXLEAFS = 100, MAXPORTALS = 12;
#endif

//@ contract prop=V07
CONTRACT(v07_next)
{
    size_t n = vf::any_in<size_t>("n", 1, MAXPORTALS), k = vf::any_in<size_t>("k", 0, n - 1);
    vf_require(n >= 1 && n <= MAXPORTALS && k < n);
#ifdef VERIF_SPEC
    size_t bytes = n * sizeof(visportal_t);
    visportal_t *l = (visportal_t *)vf_bytes("before", bytes), *at = (visportal_t *)vf_bytes("portals", bytes);
    view(portals, l, n, n);
    g.list = l;
    g.atlock = at;
    g.n = n;
    g.k = k;
    g.i = g.r = 0;
    g.completed = nullptr;
    g.locked = g.unlocked = false;
    vf_require(at[k].nummightsee >= 0);
    pstatus_t was = at[k].status;
    int num = at[k].nummightsee;
    size_t byte = vf::any_in<size_t>("byte", 0, sizeof(visportal_t) - 1);
    g.byte = byte;
    uint8_t byte_was = ((uint8_t *)&at[k])[byte];
    visportal_t *r = GetNextPortal();
    vf_ensure(!g.locked && g.unlocked, "the lock is given back");
    bool idle = was == pstat_none && num < INT_MAX;
    if (!r) {
        vf_ensure(!idle, "no portal is handed out only when none is waiting");
        vf_ensure(g.k_after == byte_was && ((uint8_t *)&l[k])[byte] == byte_was, "all other portals stay as they are");
        return;
    }
    vf_ensure(r == l + g.r && g.r < n, "a portal is handed out");
    vf_ensure(g.r_after == pstat_working, "the portal handed out is marked before the lock is given back");
    vf_ensure(!idle || at[g.r].nummightsee <= num, "the simplest waiting portal is handed out");
    if (g.r == k)
        vf_ensure(was == pstat_none, "no portal is handed out twice");
    else
        vf_ensure(g.k_after == byte_was && ((uint8_t *)&l[k])[byte] == byte_was, "all other portals stay as they are");
#else
    portals.clear();
    portals.resize(n);
    std::vector<std::pair<int, int>> was;
    for (auto &p : portals) {
        p.status = (pstatus_t)vf::any_in<int>("status", pstat_none, pstat_done);
        p.nummightsee = vf::any_in<int>("nummightsee", 0, 1000);
        vf_require(p.nummightsee >= 0);
        was.push_back({p.status, p.nummightsee});
    }
    visportal_t *r = GetNextPortal();
    for (size_t i = 0; i < n; i++) {
        bool idle = was[i].first == pstat_none && was[i].second < INT_MAX;
        vf_ensure(r || !idle, "no portal is handed out only when none is waiting");
        vf_ensure(!r || !idle || r->nummightsee <= was[i].second, "the simplest waiting portal is handed out");
        if (r == &portals[i])
            vf_ensure(was[i].first == pstat_none && r->status == pstat_working, "no portal is handed out twice");
        else
            vf_ensure(portals[i].status == was[i].first, "all other portals stay as they are");
        vf_ensure(portals[i].nummightsee == was[i].second, "all other portals stay as they are");
    }
    vf_ensure(!r || (r >= portals.data() && r < portals.data() + n), "a portal is handed out");
    vf_ensure(portal_mutex.try_lock(), "the lock is given back");
    portal_mutex.unlock();
#endif
}

#ifndef VERIF_SPEC
// a small set of leafs and portals
static void some_portals(size_t n)
{
    portalleafs = n;
    leafs.clear();
    leafs.resize(n);
    size_t np = vf::any_in<size_t>("portals", 0, MAXPORTALS);
    vf_require(np <= MAXPORTALS);
    portals.clear();
    portals.resize(np);
    for (size_t i = 0; i < np; i++) {
        auto &p = portals[i];
        p.status = (pstatus_t)vf::any_in<int>("status", pstat_none, pstat_done);
        size_t from = vf::any_in<size_t>("from", 0, std::min<size_t>(n - 1, 3)), to = vf::any_in<size_t>("to", 0, std::min<size_t>(n - 1, 3));
        vf_require(from < n && to < n);
        leafs[from].portals.push_back(&p);
        p.leaf = to;
        p.visbits.resize(n);
        p.mightsee.resize(n);
        const uint8_t *v = (const uint8_t *)vf_bytes("bits", n);
        p.nummightsee = 0;
        for (size_t l = 0; l < n; l++) {
            p.mightsee[l] = v[l] & 1;
            p.visbits[l] = (v[l] & 7) == 7;
            p.nummightsee += v[l] & 1;
        }
    }
}
struct state_t
{
    std::vector<pstatus_t> status;
    std::vector<int> num;
    std::vector<std::vector<bool>> might, vis;
    state_t()
    {
        for (auto &p : portals) {
            status.push_back(p.status);
            num.push_back(p.nummightsee);
            might.emplace_back();
            vis.emplace_back();
            for (int l = 0; l < portalleafs; l++) {
                might.back().push_back(((const leafbits_t &)p.mightsee)[l]);
                vis.back().push_back(((const leafbits_t &)p.visbits)[l]);
            }
        }
    }
    void update(size_t source, size_t dest)
    {
        for (auto *p : leafs[source].portals) {
            size_t i = p - portals.data();
            if (status[i] == pstat_none && might[i][dest]) {
                might[i][dest] = false;
                num[i]--;
            }
        }
    }
    bool operator==(const state_t &o) const { return status == o.status && num == o.num && might == o.might && vis == o.vis; }
};
#endif

// what a leaf no longer sees
//@ contract prop=V07
CONTRACT(v07_update)
{
    size_t n = vf::any_in<size_t>("portalleafs", 1, MAXLEAFS), m = vf::any_in<size_t>("m", 0, n - 1);
    vf_require(n >= 1 && n <= MAXLEAFS && m < n);
    visstats_t stats;
#ifdef VERIF_SPEC
    portalleafs = n;
    static visportal_t pa, pq;
    g.pa = any_portal(pa, "vis a", "might a");
    g.pq = any_portal(pq, "vis", "might");
    g.nplist = vf::any_in<size_t>("portals", 0, MAXPORTALS);
    g.a = vf::any_in<size_t>("a", 0, MAXPORTALS);
    vf_require(g.nplist == 0 || g.a < g.nplist);
    g.plist = (visportal_t *const *)vf_ptrs("list", g.nplist, g.a, &pa, &pq);
    static leaf_t source, dest;
    view(source.portals, (void *)g.plist, g.nplist, g.nplist);
    leafs._M_impl._M_start = &dest - m;
    leafs._M_impl._M_finish = &dest - m + n;
    g.m = m;
    g.was = bit(pa.mightsee, m);
    g.other = vf::any_in<size_t>("other", 0, n - 1);
    vf_require(g.other != m);
    g.was2 = bit(pa.mightsee, g.other);
    g.num = pa.nummightsee;
    bool vis = bit(pa.visbits, m);
    pstatus_t status = pa.status;
    UpdateMightsee(stats, source, dest);
    bool changed = g.nplist && status == pstat_none;
    vf_ensure(bit(pa.mightsee, m) == (g.was && !changed), "the waiting portals of the leaf, and only those, no longer look for the other leaf");
    vf_ensure(pa.nummightsee == g.num - (changed && g.was), "the number of leafs a portal looks for is kept up to date");
    vf_ensure(bit(pa.mightsee, g.other) == g.was2 && bit(pa.visbits, m) == vis && pa.status == status, "nothing else changes");
    pa.mightsee.bits.release();
    pa.visbits.bits.release();
    pq.mightsee.bits.release();
    pq.visbits.bits.release();
#else
    some_portals(n);
    size_t s = vf::any_in<size_t>("source", 0, n - 1);
    vf_require(s < n);
    state_t want;
    want.update(s, m);
    UpdateMightsee(stats, leafs[s], leafs[m]);
    vf_ensure(state_t() == want, "the waiting portals of the leaf, and only those, no longer look for the other leaf");
#endif
}

//@ contract prop=V07 replace=_ZL14UpdateMightsee:vfx_update_mightsee assume="no portal is listed twice for a leaf or leads back into its own leaf; the padding of the sets is empty"
CONTRACT(v07_completed)
{
    size_t n = vf::any_in<size_t>("portalleafs", 1, MAXLEAFS), m = vf::any_in<size_t>("m", 0, n - 1);
    vf_require(n >= 1 && n <= MAXLEAFS && m < n);
    visstats_t stats;
#ifdef VERIF_SPEC
    portalleafs = n;
    static visportal_t pa, pb, pq, completed;
    g.pa = any_portal(pa, "vis a", "might a");
    g.pb = any_portal(pb, "vis b", "might b");
    g.pq = any_portal(pq, "vis", "might");
    completed.status = vf::any<pstatus_t>("status");
    completed.leaf = m;
    g.was_status = completed.status;
    g.completed = &completed;
    g.nplist = vf::any_in<size_t>("portals", 1, MAXPORTALS);
    g.a = vf::any_in<size_t>("a", 0, g.nplist - 1);
    g.b = vf::any_in<size_t>("b", 0, g.nplist - 1);
    g.plist = (visportal_t *const *)vf_ptrs2("list", g.nplist, g.a, &pa, g.b, &pb, &pq);
    static leaf_t myleaf;
    view(myleaf.portals, (void *)g.plist, g.nplist, g.nplist);
    leafs._M_impl._M_start = &myleaf - m;
    leafs._M_impl._M_finish = &myleaf - m + n;
    g.m = m;
    g.nleafs = n;
    g.leaf = vf::any_in<size_t>("leaf", 0, MAXLEAFS + 31);
    vf_require((g.leaf >> 5) < (n + 31) >> 5);
    vf_require(g.leaf < n || !bit(pa.mightsee, g.leaf));
    g.locked = g.unlocked = g.called = g.witness = false;
    g.atlock = nullptr;
    pstatus_t sa = pa.status, sb = pb.status;
    PortalCompleted(stats, &completed);
    vf_ensure(!g.locked && g.unlocked, "the lock is given back");
    vf_ensure(completed.status == pstat_done, "the portal is finished");
    vf_ensure(!lost() || g.witness || g.called, "everything ruled out for the leaf is passed on");
    vf_ensure(pa.status == sa && pb.status == sb, "the state of other portals stays");
    for (auto *p : {&pa, &pb, &pq}) {
        p->mightsee.bits.release();
        p->visbits.bits.release();
    }
#else
    some_portals(n);
    vf_require(!portals.empty());
    size_t c = vf::any_in<size_t>("completed", 0, portals.size() - 1);
    vf_require(c < portals.size());
    state_t want;
    want.status[c] = pstat_done;
    m = portals[c].leaf;
    auto at = [&](size_t i) -> size_t { return leafs[m].portals[i] - portals.data(); };
    for (size_t i = 0; i < leafs[m].portals.size(); i++) {
        if (want.status[at(i)] != pstat_done)
            continue;
        for (size_t l = 0; l < n; l++) {
            bool gone = want.might[at(i)][l] && !want.vis[at(i)][l];
            for (size_t k = 0; k < leafs[m].portals.size(); k++)
                if (k != i && (want.status[at(k)] == pstat_done ? want.vis[at(k)][l] : want.might[at(k)][l]))
                    gone = false;
            if (gone)
                want.update(l, m);
        }
    }
    PortalCompleted(stats, &portals[c]);
    vf_ensure(state_t() == want, "exactly what no portal of the leaf can see is passed on");
    vf_ensure(portal_mutex.try_lock(), "the lock is given back");
    portal_mutex.unlock();
#endif
}
