seed('c01-lava-mist', 'C01', [('common/bspfile.cc',
"        if (contents.flags & EWT_CFLAG_TRANSLUCENT) result |= Q2_CONTENTS_TRANSLUCENT;\n        if (contents.flags & EWT_CFLAG_LADDER)",
"        if ((contents.flags & EWT_CFLAG_TRANSLUCENT) && (contents.flags & ~EWT_VISCONTENTS_MIST)) result |= Q2_CONTENTS_TRANSLUCENT;\n        if ((contents.flags & EWT_CFLAG_LADDER) && !(contents.flags & EWT_VISCONTENTS_LAVA))")],
'''#include <common/bspfile.hh>
int main(){ const gamedef_t*g=bspver_q2.game; int v=0x20000008; auto c=g->create_contents_from_native(v); return g->contents_to_native(c)==v?0:1;}
''', 'a Quake II brush that is both lava and a ladder', 'writing drops the ladder bit, so the native value does not survive')
seed('c02-detail-solid', 'C02', [('common/bspfile.cc',
"        if ((bits_a & EWT_CFLAG_DETAIL) || a_translucent)\n            bits_a = 0;\n        if ((bits_b & EWT_CFLAG_DETAIL) || b_translucent)\n            bits_b = 0;\n\n        if ((bits_a ^ bits_b) == 0)\n            return true; // identical on both sides\n\n        if (((bits_a ^ bits_b) & EWT_ALL_VISIBLE_CONTENTS) == 0)\n            return true;\n        return false;",
"        if ((bits_a & EWT_CFLAG_DETAIL) || a_translucent)\n            bits_a = 0;\n        if ((bits_b & EWT_CFLAG_DETAIL) || b_translucent)\n            bits_b = 0;\n\n        if ((bits_a ^ bits_b) == 0)\n            return true; // identical on both sides\n\n        // only the strongest contents of each side can block the view\n        if (contentflags_t::make(bits_a).visible_contents().flags == contentflags_t::make(bits_b).visible_contents().flags)\n            return true;\n        return false;")],
'''#include <common/bspfile.hh>
int main(){ const gamedef_t*g=bspver_q1.game;
 auto m=[](contents_int_t v){return contentflags_t{(contents_t)v};};
 return g->portal_can_see_through(m(EWT_VISCONTENTS_LAVA), m(EWT_VISCONTENTS_LAVA|EWT_VISCONTENTS_MIST), false) ? 1 : 0;}
''', 'two leafs that share their strongest visible content while a weaker one differs', 'visibility passes between lava and lava with mist')
seed('c03-mirror-window', 'C03', [('common/bspfile.cc',
"            if (portal_visible_contents.flags & (EWT_VISCONTENTS_WINDOW | EWT_VISCONTENTS_AUX)) {",
"            if (bits_brush & (EWT_VISCONTENTS_WINDOW | EWT_VISCONTENTS_AUX)) {")],
'''#include <common/bspfile.hh>
int main(){ const gamedef_t*g=bspver_q2.game;
 auto m=[](contents_int_t v){return contentflags_t{(contents_t)v};};
 return g->portal_generates_face(m(EWT_VISCONTENTS_WATER), m(EWT_VISCONTENTS_WATER|EWT_VISCONTENTS_AUX), SIDE_BACK) ? 0 : 1;}
''', 'a Quake II brush that is both water and aux, seen from inside where only the water changes', 'the inside face of the water is missing')
seed('b01-node-mins', 'B01', [('common/bspfile_q1.cc',
"bsp2rmq_dnode_t::bsp2rmq_dnode_t(const bsp2_dnode_t &model)\n    : planenum(model.planenum),\n      children(model.children),\n      mins(aabb_mins_cast<int16_t>(model.mins, \"dnode_t::mins\")),",
"bsp2rmq_dnode_t::bsp2rmq_dnode_t(const bsp2_dnode_t &model)\n    : planenum(model.planenum),\n      children(model.children),\n      mins(aabb_maxs_cast<int16_t>(model.mins, \"dnode_t::mins\")),")],
'''#include <common/bspfile.hh>
#include <common/bspfile_q1.hh>
int main(){ bsp2_dnode_t n{}; n.mins={-10.5f,0,0}; n.maxs={1,1,1}; bsp2rmq_dnode_t d(n); return d.mins[0]==-11?0:1;}
''', 'a 2PSB node with a fractional lower bound', 'the stored lower bound is above the real one')
seed('n01-unsigned-high', 'N01', [('include/common/numeric_cast.hh',
"    // signed <-- unsigned\n    else if constexpr (DstLim::is_signed && (!SrcLim::is_signed)) {\n        if constexpr (positive_overflow_possible) {\n            if (value > DstLim::max()) {",
"    // signed <-- unsigned\n    else if constexpr (DstLim::is_signed && (!SrcLim::is_signed)) {\n        if constexpr (positive_overflow_possible) {\n            if (static_cast<std::make_signed_t<Src>>(value) > DstLim::max()) {"),
 ('include/common/numeric_cast.hh', "#include <limits>\n", "#include <limits>\n#include <type_traits>\n")],
"""#include <common/qvec.hh>
#include <common/numeric_cast.hh>
int main(){ try { numeric_cast<int16_t>(0xffff0000u); } catch (const std::overflow_error &) { return 0; } return 1; }
""", 'an unsigned value with its top bit set narrowed to a signed type', 'the narrowing is accepted and the value changes')
seed('g01-union-encloses', 'G01', [('include/common/aabb.hh',
"            m_corners[0][i] = std::min({m_corners[0][i], other.mins()[i], other.maxs()[i]});\n            m_corners[1][i] = std::max({m_corners[1][i], other.mins()[i], other.maxs()[i]});",
"            if (other.mins()[i] < m_corners[0][i]) {\n                m_corners[0][i] = other.mins()[i];\n                if (m_corners[1][i] < m_corners[0][i])\n                    m_corners[1][i] = other.maxs()[i];\n            } else if (other.maxs()[i] > m_corners[1][i]) {\n                m_corners[1][i] = other.maxs()[i];\n            }")],
"""#include <common/aabb.hh>
int main(){ aabb<double,3> a({0,0,0},{1,1,1}), b({-1,0,0},{2,1,1}); a += b; return a.contains(b) ? 0 : 1; }
""", 'an in-place union with a box that is larger on both ends of an axis', 'the union does not contain the second box')
seed('m01-short-read', 'M01', [('common/cmdlib.cc',
"    if (which & std::ios_base::in) {\n        return gptr() - eback();\n    } else {\n        return pptr() - pbase();\n    }\n}",
"    if (which & std::ios_base::out) {\n        return pptr() - pbase();\n    } else {\n        return eback() == egptr() ? pos_type(off_type(-1)) : pos_type(gptr() - eback());\n    }\n}")],
"""#include <common/cmdlib.hh>
int main(){ char b[1]; imemstream s(b, 0); s.seekg(0); return s ? 0 : 1; }
""", 'an empty buffer', 'seeking to the start of an empty buffer is refused')
seed('b02-face-side', 'B02', [('common/bspfile_q1.cc',
"XX","YY")], '', '', '')
SEEDS.pop()
