// Content flags algebra: native conversion, portal visibility, faces, combining.
#include "vf.hh"
#include <common/bspfile.hh>
#include "common/bspfile.cc"
#include "common/bspfile_common.cc"

using ci = contents_int_t;
static contentflags_t any_c(const char *n) { return contentflags_t{static_cast<contents_t>(vf::any<ci>(n))}; }
static contentflags_t mk(ci v) { return contentflags_t{static_cast<contents_t>(v)}; }

// the vocabulary of the specification, independent of the code's own masks
static constexpr ci SOLID = 1, SKY = 2, DWALL = 4, WINDOW = 8, AUX = 16, LAVA = 32, SLIME = 64, WATER = 128, MIST = 256;
static constexpr ci VIS = 511, LIQ = LAVA | SLIME | WATER;
static constexpr ci ORIGIN = 1 << 9, PCLIP = 1 << 10, MCLIP = 1 << 11, APORTAL = 1 << 12, IVB = 1 << 13;
static constexpr ci DETAIL = 1 << 14, MIRROR = 1 << 15, MIRROR_SET = 1 << 16, NOCLIPSAME = 1 << 17, TRANSLUCENT = 1 << 24;
static ci lowest(ci v) { return v & (~v + 1); }

// virtual dispatch through the interface every tool uses
static ci call_native(const gamedef_t &g, int n) { return g.create_contents_from_native(n).flags; }

template<class G>
static void q1_native(const G &g0)
{
    const gamedef_t &g = g0;
    int n = vf::any<int>("native");
    bool ok = n <= -1 && n >= -6;
    bool threw = false;
    contentflags_t c{};
    try {
        c = g.create_contents_from_native(n);
    } catch (...) {
        threw = true;
    }
    vf_ensure(threw == !ok, "a native value is refused exactly when the format has no such leaf type");
    if (!threw) {
        vf_cover("accepted");
        vf_ensure(g.contents_to_native(c) == n, "native value survives the round trip");
        vf_ensure(g.contents_are_empty(c) == (n == -1), "-1 is exactly empty");
        vf_ensure(g.contents_are_solid(c) == (n == -2), "-2 is exactly solid");
        vf_ensure(g.contents_are_liquid(c) == (n == -3 || n == -4 || n == -5), "-3..-5 are exactly the liquids");
        vf_ensure(g.contents_are_sky(c) == (n == -6), "-6 is exactly sky");
        vf_ensure(!g.contents_are_any_detail(c), "native leaf types carry no detail flag");
    }
}
template<class G>
static void q1_to_native(const G &g0)
{
    const gamedef_t &g = g0;
    contentflags_t c = any_c("flags");
    ci v = c.flags & VIS;
    int want = (v & SOLID) ? -2 : (v & SKY) ? -6 : (v & (DWALL | WINDOW | AUX)) ? 0 : (v & LAVA) ? -5 :
               (v & SLIME) ? -4 : (v & WATER) ? -3 : (v & MIST) ? 0 : -1;
    int got = 0;
    try {
        got = g.contents_to_native(c);
    } catch (const std::invalid_argument &) {
    }
    vf_ensure(got == want, "written leaf type is the strongest visible content, and refused when the format lacks it");
}
//@ contract prop=C01
CONTRACT(c01_q1) { gamedef_q1_like_t<GAME_QUAKE> g; q1_native(g); }
//@ contract prop=C01
CONTRACT(c01_h2) { gamedef_h2_t g; q1_native(g); }
//@ contract prop=C01
CONTRACT(c01_hl) { gamedef_hl_t g; q1_native(g); }
//@ contract prop=C01
CONTRACT(c01_q1_to) { gamedef_q1_like_t<GAME_QUAKE> g; q1_to_native(g); }
//@ contract prop=C01
CONTRACT(c01_h2_to) { gamedef_h2_t g; q1_to_native(g); }
//@ contract prop=C01
CONTRACT(c01_hl_to) { gamedef_hl_t g; q1_to_native(g); }
// Quake II: every 32-bit value survives; the engine's published bit assignment for the visible/solid/clip/detail bits
//@ contract prop=C01
CONTRACT(c01_q2)
{
    gamedef_q2_t g0;
    const gamedef_t &g = g0;
    int n = vf::any<int>("native");
    contentflags_t c = g.create_contents_from_native(n);
    vf_ensure(g.contents_to_native(c) == n, "native value survives the round trip");
    vf_ensure(((c.flags & SOLID) != 0) == ((n & 1) != 0), "bit 0 is solid");
    vf_ensure(((c.flags & WINDOW) != 0) == ((n & 2) != 0), "bit 1 is window");
    vf_ensure(((c.flags & AUX) != 0) == ((n & 4) != 0), "bit 2 is aux");
    vf_ensure(((c.flags & LAVA) != 0) == ((n & 8) != 0), "bit 3 is lava");
    vf_ensure(((c.flags & SLIME) != 0) == ((n & 16) != 0), "bit 4 is slime");
    vf_ensure(((c.flags & WATER) != 0) == ((n & 32) != 0), "bit 5 is water");
    vf_ensure(((c.flags & MIST) != 0) == ((n & 64) != 0), "bit 6 is mist");
    vf_ensure(((c.flags & APORTAL) != 0) == ((n & 0x8000) != 0), "bit 15 is areaportal");
    vf_ensure(((c.flags & PCLIP) != 0) == ((n & 0x10000) != 0), "bit 16 is playerclip");
    vf_ensure(((c.flags & MCLIP) != 0) == ((n & 0x20000) != 0), "bit 17 is monsterclip");
    vf_ensure(((c.flags & ORIGIN) != 0) == ((n & 0x1000000) != 0), "bit 24 is origin");
    vf_ensure(((c.flags & DETAIL) != 0) == ((n & 0x8000000) != 0), "bit 27 is detail");
    vf_ensure(((c.flags & TRANSLUCENT) != 0) == ((n & 0x10000000) != 0), "bit 28 is translucent");
    vf_ensure((c.flags & (SKY | DWALL | IVB | MIRROR | MIRROR_SET | NOCLIPSAME)) == 0, "no compiler-only flag is invented");
}
//@ contract prop=C01
CONTRACT(c01_q2_to)
{
    gamedef_q2_t g0;
    const gamedef_t &g = g0;
    contentflags_t c = any_c("flags");
    vf_require((c.flags >> 38) == 0); // the flags that exist
    bool threw = false;
    int n = 0;
    try {
        n = g.contents_to_native(c);
    } catch (const std::invalid_argument &) {
        threw = true;
    }
    vf_ensure(threw == ((c.flags & (SKY | DWALL | IVB)) != 0), "refused exactly for contents Quake II does not have");
    if (!threw) {
        contentflags_t d = g.create_contents_from_native(n);
        vf_ensure(d.flags == (c.flags & ~(MIRROR | MIRROR_SET | NOCLIPSAME)), "everything the format can hold is written");
    }
}

// ---------------------------------------------------------------- C02: portal transparency
template<class G>
static void see_through(const G &g0, bool q2)
{
    const gamedef_t &g = g0;
    contentflags_t a = any_c("a"), b = any_c("b");
    bool tw = vf::any<bool>("transwater");
    bool r = g.portal_can_see_through(a, b, tw);
    vf_ensure(r == g.portal_can_see_through(b, a, tw), "visibility through a portal is symmetric");
    bool ta = (a.flags & DETAIL) || (q2 ? (a.flags & TRANSLUCENT) != 0 : tw && (a.flags & LIQ));
    bool tb = (b.flags & DETAIL) || (q2 ? (b.flags & TRANSLUCENT) != 0 : tw && (b.flags & LIQ));
    bool solid = ((a.flags | b.flags) & SOLID) != 0;
    ci va = a.flags & VIS, vb = b.flags & VIS;
    bool same = va == vb || (ta ? 0 : va) == (tb ? 0 : vb);
    if (solid)
        vf_ensure(!r, "nothing is seen through solid");
    if (!solid && same)
        vf_ensure(r, "no visible difference left after ignoring see-through contents: transparent");
    if (!solid && !same)
        vf_ensure(!r, "a visible difference that is not see-through blocks");
    vf_cover("end");
}
//@ contract prop=C02
CONTRACT(c02_q1) { gamedef_q1_like_t<GAME_QUAKE> g; see_through(g, false); }
//@ contract prop=C02
CONTRACT(c02_h2) { gamedef_h2_t g; see_through(g, false); }
//@ contract prop=C02
CONTRACT(c02_hl) { gamedef_hl_t g; see_through(g, false); }
//@ contract prop=C02
CONTRACT(c02_q2) { gamedef_q2_t g; see_through(g, true); }
template<class G>
static void opaque_q1(const G &g0)
{
    const gamedef_t &g = g0;
    contentflags_t a = any_c("a");
    bool tw = vf::any<bool>("transwater");
    ci s = lowest(a.flags & VIS);
    bool want = s == SOLID || s == SKY || s == DWALL || (!tw && (s & LIQ));
    vf_ensure(g.contents_are_opaque(a, tw) == want, "opaque exactly for solid, sky, detail wall and non-transparent liquids");
}
//@ contract prop=C02
CONTRACT(c02_opaque_q1) { gamedef_q1_like_t<GAME_QUAKE> g; opaque_q1(g); }
//@ contract prop=C02
CONTRACT(c02_opaque_q2)
{
    gamedef_q2_t g0;
    const gamedef_t &g = g0;
    contentflags_t a = any_c("a");
    bool tw = vf::any<bool>("transwater");
    vf_ensure(g.contents_are_opaque(a, tw) == ((a.flags & VIS) && !(a.flags & TRANSLUCENT)),
        "opaque exactly when visible and not translucent");
}

// ---------------------------------------------------------------- C03: faces at a boundary
template<class G>
static void faces(const G &g0, bool q2)
{
    const gamedef_t &g = g0;
    contentflags_t a = any_c("a"), b = any_c("b");
    ci r = g.portal_visible_contents(a, b).flags, r2 = g.portal_visible_contents(b, a).flags;
    vf_ensure(r == r2, "the content shown at a boundary does not depend on the order of its sides");
    ci diff = ((a.flags | b.flags) & NOCLIPSAME) ? (a.flags | b.flags) : (a.flags ^ b.flags);
    ci want = lowest(diff & VIS);
    if (!q2 && (a.flags & (SOLID | SKY)) && (b.flags & (SOLID | SKY)))
        want = 0;
    vf_ensure(r == want, "the content shown is the single strongest visible content that changes there");
    contentflags_t brush = any_c("brush");
    bool front = g.portal_generates_face(mk(r), brush, SIDE_FRONT);
    bool back = g.portal_generates_face(mk(r), brush, SIDE_BACK);
    bool has = r != 0 && (brush.flags & r) != 0;
    vf_ensure(front == has, "a brush shows its outside face exactly when it holds the content the boundary shows");
    bool dflt = q2 ? !(r & (WINDOW | AUX)) : (brush.flags & LIQ) != 0;
    bool wantback = has && ((brush.flags & MIRROR_SET) ? (brush.flags & MIRROR) != 0 : dflt);
    vf_ensure(back == wantback, "inside faces follow the explicit mirror setting, else the game's default");
    if (a.flags == b.flags && !(a.flags & NOCLIPSAME))
        vf_ensure(!front && !back, "no face between two identical contents");
}
//@ contract prop=C03
CONTRACT(c03_q1) { gamedef_q1_like_t<GAME_QUAKE> g; faces(g, false); }
//@ contract prop=C03
CONTRACT(c03_h2) { gamedef_h2_t g; faces(g, false); }
//@ contract prop=C03
CONTRACT(c03_hl) { gamedef_hl_t g; faces(g, false); }
//@ contract prop=C03
CONTRACT(c03_q2) { gamedef_q2_t g; faces(g, true); }
//@ contract prop=C03
CONTRACT(c03_mirror)
{
    contentflags_t a = any_c("a");
    int k = vf::any_in<int>("setting", 0, 2);
    contentflags_t b = a;
    if (k == 0)
        b.set_mirrored(std::nullopt);
    else
        b.set_mirrored(k == 2);
    auto m = b.mirror_inside();
    vf_ensure(m.has_value() == (k != 0) && (k == 0 || *m == (k == 2)), "the mirror setting reads back as set");
    vf_ensure((b.flags & ~(MIRROR | MIRROR_SET)) == (a.flags & ~(MIRROR | MIRROR_SET)), "setting it changes nothing else");
    contentflags_t c = a;
    int j = vf::any_in<int>("clip", 0, 2);
    if (j == 0)
        c.set_clips_same_type(std::nullopt);
    else
        c.set_clips_same_type(j == 2);
    vf_ensure((c.flags | NOCLIPSAME) == (a.flags | NOCLIPSAME), "setting clipping changes nothing else");
    if (j == 1)
        vf_ensure(c.clips_same_type().has_value() && !*c.clips_same_type(), "clipping disabled reads back as disabled");
    else
        vf_ensure(c.flags == a.flags, "clipping left at its default");
}
template<class G>
static void clip_same(const G &g0, bool q2)
{
    const gamedef_t &g = g0;
    contentflags_t a = any_c("a"), b = any_c("b");
    bool same = q2 ? (a.flags & VIS) == (b.flags & VIS) : a.flags == b.flags;
    vf_ensure(a.will_clip_same_type(&g, b) == (same && !(a.flags & NOCLIPSAME)),
        "equal contents clip each other unless that was disabled");
}
//@ contract prop=C03
CONTRACT(c03_clip_q1) { gamedef_q1_like_t<GAME_QUAKE> g; clip_same(g, false); }
//@ contract prop=C03
CONTRACT(c03_clip_q2) { gamedef_q2_t g; clip_same(g, true); }

// ---------------------------------------------------------------- C04: combining contents in a leaf / cluster, export
template<class G>
static void combine(const G &g0, bool q2)
{
    const gamedef_t &g = g0;
    contentflags_t a = any_c("a"), b = any_c("b");
    ci r = g.combine_contents(a, b).flags;
    vf_ensure(r == g.combine_contents(b, a).flags, "combining does not depend on the order");
    auto structural = [](contentflags_t x) { return (x.flags & SOLID) && !(x.flags & DETAIL); };
    bool s = structural(a) || structural(b);
    if (s)
        vf_ensure(r == SOLID, "structural solid wins over everything");
    else if (!q2 && ((a.flags | b.flags) & SKY))
        vf_ensure(r == SKY, "sky wins over everything but structural solid");
    else
        vf_ensure(r == (a.flags | b.flags), "otherwise no content is lost or invented");
    ci k = g.cluster_contents(a, b).flags;
    vf_ensure((k & ~SOLID) == ((a.flags | b.flags) & ~SOLID), "a cluster keeps every non-solid content of its leafs");
    vf_ensure(((k & SOLID) != 0) == ((a.flags & b.flags & SOLID) != 0), "a cluster is solid only if all its leafs are");
}
//@ contract prop=C04
CONTRACT(c04_q1) { gamedef_q1_like_t<GAME_QUAKE> g; combine(g, false); }
//@ contract prop=C04
CONTRACT(c04_h2) { gamedef_h2_t g; combine(g, false); }
//@ contract prop=C04
CONTRACT(c04_hl) { gamedef_hl_t g; combine(g, false); }
//@ contract prop=C04
CONTRACT(c04_q2) { gamedef_q2_t g; combine(g, true); }
template<class G>
static void details(const G &g0, bool q2)
{
    const gamedef_t &g = g0;
    contentflags_t o = any_c("original");
    if (q2)
        vf_require((o.flags & (DETAIL | VIS | ~((ci(1) << 38) - 1))) == SOLID); // a plain structural brush
    else
        vf_require((o.flags & ~(MIRROR | MIRROR_SET | NOCLIPSAME)) == SOLID);
    contentflags_t f = g.create_detail_fence_contents(o), w = g.create_detail_wall_contents(o),
                   i = g.create_detail_illusionary_contents(o), s = g.create_detail_solid_contents(o);
    vf_ensure(f.is_detail_fence(&g) && !f.is_detail_wall(&g) && !f.is_detail_solid(&g) && !f.is_detail_illusionary(&g),
        "detail fence is exactly a detail fence");
    vf_ensure(w.is_detail_wall(&g) && !w.is_detail_fence(&g) && !w.is_detail_solid(&g) && !w.is_detail_illusionary(&g),
        "detail wall is exactly a detail wall");
    vf_ensure(i.is_detail_illusionary(&g) && !i.is_detail_wall(&g) && !i.is_detail_solid(&g) && !i.is_detail_fence(&g),
        "detail illusionary is exactly detail illusionary");
    vf_ensure(s.is_detail_solid(&g) && !s.is_detail_wall(&g) && !s.is_detail_fence(&g) && !s.is_detail_illusionary(&g),
        "detail solid is exactly detail solid");
    vf_ensure(f.is_any_detail(&g) && w.is_any_detail(&g) && i.is_any_detail(&g) && s.is_any_detail(&g),
        "each kind is detail");
    vf_ensure(!g.contents_seals_map(f) && !g.contents_seals_map(w) && !g.contents_seals_map(i) && !g.contents_seals_map(s),
        "detail never seals the map");
    vf_ensure(f.is_fence(&g) && i.is_fence(&g) && !w.is_fence(&g) && !s.is_fence(&g), "fence-like kinds");
    vf_ensure(!f.is_empty(&g) && !w.is_empty(&g) && !i.is_empty(&g) && !s.is_empty(&g), "no detail kind counts as empty");
}
//@ contract prop=C04
CONTRACT(c04_detail_q1) { gamedef_q1_like_t<GAME_QUAKE> g; details(g, false); }
//@ contract prop=C04
CONTRACT(c04_detail_q2) { gamedef_q2_t g; details(g, true); }
template<class G>
static void detail_bit(const G &g0)
{
    const gamedef_t &g = g0;
    contentflags_t o = any_c("o");
    vf_ensure(g.set_detail(o).flags == (o.flags | DETAIL) && g.clear_detail(o).flags == (o.flags & ~DETAIL),
        "setting or clearing detail changes only that flag");
    vf_ensure(o.is_any_detail(&g) == ((o.flags & DETAIL) != 0), "detail is exactly the detail flag");
    vf_ensure(o.is_solid(&g) == ((o.flags & SOLID) && !(o.flags & DETAIL)), "structural solid excludes detail");
    vf_ensure(o.is_any_solid(&g) == ((o.flags & SOLID) != 0), "any solid includes detail solid");
    vf_ensure(g.contents_seals_map(o) == (o.is_solid(&g) || o.is_sky(&g)), "exactly structural solid and sky seal the map");
    vf_ensure(g.create_empty_contents().is_empty(&g) && g.create_solid_contents().is_solid(&g), "empty is empty, solid is solid");
    vf_ensure(o.is_origin(&g) == ((o.flags & ORIGIN) != 0), "origin flag");
    vf_ensure(o.visible_contents().flags == lowest(o.flags & VIS), "strongest visible content is the lowest set bit");
}
//@ contract prop=C04
CONTRACT(c04_bits_q1) { gamedef_q1_like_t<GAME_QUAKE> g; detail_bit(g); }
//@ contract prop=C04
CONTRACT(c04_bits_q2) { gamedef_q2_t g; detail_bit(g); }
// what the compiler can put in a Quake leaf is always representable after the export remap
//@ contract prop=C04
CONTRACT(c04_remap_q1)
{
    gamedef_q1_like_t<GAME_QUAKE> g0;
    const gamedef_t &g = g0;
    auto one = [&](const char *n) {
        contentflags_t o = any_c("orig");
        switch (vf::any_in<int>(n, 0, 9)) {
            case 0: return g.create_contents_from_native(-1);
            case 1: return g.create_contents_from_native(-2);
            case 2: return g.create_contents_from_native(-3);
            case 3: return g.create_contents_from_native(-4);
            case 4: return g.create_contents_from_native(-5);
            case 5: return g.create_contents_from_native(-6);
            case 6: return g.create_detail_fence_contents(o);
            case 7: return g.create_detail_wall_contents(o);
            case 8: return g.create_detail_illusionary_contents(o);
            default: return g.create_detail_solid_contents(o);
        }
    };
    contentflags_t c = g.combine_contents(g.combine_contents(one("k1"), one("k2")), one("k3"));
    contentflags_t r = g.contents_remap_for_export(c, gamedef_t::remap_type_t::leaf);
    bool threw = false;
    int n = 0;
    try {
        n = g.contents_to_native(r);
    } catch (...) {
        threw = true;
    }
    vf_ensure(!threw, "every leaf the compiler can build is representable on export");
    if (!threw) {
        if (c.flags & (DWALL | WINDOW))
            vf_ensure(n == -2, "detail walls and fences are written as solid leafs");
        if ((c.flags & VIS) == MIST)
            vf_ensure(n == -1, "detail illusionary alone is written as an empty leaf");
        if ((c.flags & LIQ) && !(c.flags & (SOLID | SKY | DWALL | WINDOW)))
            vf_ensure(n <= -3 && n >= -5, "a liquid stays a liquid");
    }
}
//@ contract prop=C04
CONTRACT(c04_remap_q2)
{
    gamedef_q2_t g0;
    const gamedef_t &g = g0;
    contentflags_t c = any_c("c");
    vf_require((c.flags & (SKY | IVB)) == 0 && (c.flags >> 38) == 0);
    contentflags_t r = g.contents_remap_for_export(c, gamedef_t::remap_type_t::leaf);
    contentflags_t rb = g.contents_remap_for_export(c, gamedef_t::remap_type_t::brush);
    bool threw = false;
    int n = 0;
    try {
        n = g.contents_to_native(r);
        g.contents_to_native(rb);
    } catch (...) {
        threw = true;
    }
    vf_ensure(!threw, "every leaf or brush the compiler can build is representable on export");
    if (!threw && (c.flags & (SOLID | DWALL)))
        vf_ensure(n == 1, "solid wipes out other contents in a leaf");
    if (!(c.flags & DWALL))
        vf_ensure(rb.flags == c.flags, "brush contents are written unchanged");
}
//@ contract prop=C04
CONTRACT(c04_valid_q2)
{
    gamedef_q2_t g0;
    const gamedef_t &g = g0;
    contentflags_t c = any_c("c"), d = c;
    g.contents_make_valid(d);
    vf_ensure(g.contents_are_valid(d, false), "made valid");
    vf_ensure(d.visible_contents().flags == c.visible_contents().flags, "the strongest visible content is kept");
    vf_ensure((d.flags & ~VIS) == (c.flags & ~VIS), "nothing but visible contents is touched");
}
