VIS = '_build/vis/liblibvis.a _build/common/libcommon.a -lfmt -ltbb -ltbbmalloc -ltbb -lpthread'
seed('v01-run-256', 'V01', [('common/bsputils.cc', "            if (vis[i] || rep == 255) {", "            if (vis[i] || rep > 255) {")],
'''#include <common/bsputils.hh>
#include <iterator>
int main(){ std::vector<uint8_t> row(300), c, d(300, 7); row[299]=1; CompressRow(row.data(), row.size(), std::back_inserter(c));
 c.push_back(0x55); DecompressVis(c.data(), c.data()+c.size(), d.data(), d.data()+d.size()); return d==row?0:1; }
''', 'a run of more than 255 empty bytes (more than 2040 leafs not seen in a row)', 'the run length does not fit its byte, so the row decompresses to something else')
seed('v01-overrun', 'V01', [('common/bsputils.cc',
"            if (out == outend) {\n                logging::print(\"DecompressVis: output overrun",
"            if (out > outend) {\n                logging::print(\"DecompressVis: output overrun")],
'''#include <common/bsputils.hh>
int main(){ uint8_t in[]={0,9,0,0}, out[8]; memset(out,7,8); DecompressVis(in, in+2, out, out+4); for(int i=4;i<8;i++) if(out[i]!=7) return 1; return 0; }
''', 'corrupt visibility data whose last run is longer than the row', 'one byte is written past the end of the row')
seed('v02-plain-last', 'V02', [('vis/state.cc', "    if (dst - out < numbytes)\n        return dst - out;", "    if (dst - out <= numbytes)\n        return dst - out;")],
'''#include "vis/state.cc"
int main(){ portalleafs=32; leafbits_t b(32), c(32); b.data()[0]=0x000000ff; // ff 01 00 03: exactly as long
 uint8_t buf[64]={}; int n=CompressBits(buf,b);
 if (n < 4) DecompressBits(c, buf, buf+n); else CopyLeafBits(c, buf, 32);
 return c.data()[0]==b.data()[0]?0:1; }
''', 'a bit string whose coded form is exactly as long as the plain one', 'the coded form is stored where the loader takes it for the plain one', libs=VIS)
seed('v03-setbit', 'V03', [('include/vis/leafbits.hh', "            else\n                bits[block_index] &= ~mask;", "            else\n                bits[block_index] ^= mask;")],
'''#include <vis/leafbits.hh>
int main(){ leafbits_t b(40); b[33]=false; const leafbits_t &c=b; return c[33]?1:0; }
''', 'a bit cleared that is not set', 'clearing a bit that is not set sets it')
seed('v03-copy-clear', 'V03', [('include/vis/leafbits.hh', "    inline void clear() { memset(bits.get(), 0, byte_size()); }", "    inline void clear() { memset(bits.get(), 0, (_size + 7) / 8); }"),
 ('include/vis/leafbits.hh', "    inline void setall() { memset(bits.get(), 0xff, byte_size()); }", "    inline void setall() { memset(bits.get(), 0xff, _size / 8); }")],
'''#include <vis/leafbits.hh>
int main(){ leafbits_t b(41); b.setall(); const leafbits_t &c=b; for(int i=0;i<41;i++) if(!c[i]) return 1; return 0; }
''', 'a number of leafs that is no multiple of 8', 'filling the set leaves out the last leafs')
seed('v04-offset', 'V04', [('vis/soundpvs.cc', "                DecompressVis(src_compressed, bsp->dvis.bits.data() + bsp->dvis.bits.size(), uncompressed_2.data(),\n                    uncompressed_2.data() + uncompressed_2.size());",
 "                if (index != i)\n                DecompressVis(src_compressed, bsp->dvis.bits.data() + bsp->dvis.bits.size(), uncompressed_2.data(),\n                    uncompressed_2.data() + uncompressed_2.size());"),
 ('vis/soundpvs.cc', "            uint8_t bitbyte = scan[j];", "            uint8_t bitbyte = uncompressed[j];")],
'''#include <vis/vis.hh>
#include <common/bspfile.hh>
#include <common/bsputils.hh>
#include <iterator>
extern int portalleafs;
int main(){ // each leaf sees itself and the next one
 const int N=12; portalleafs=N; mbsp_t b; b.dvis.resize(N); std::vector<std::vector<uint8_t>> rows;
 for(int i=0;i<N;i++){ std::vector<uint8_t> r(2); r[i>>3]|=1<<(i&7); if(i+1<N) r[(i+1)>>3]|=1<<((i+1)&7); b.dvis.set_bit_offset(VIS_PVS,i,b.dvis.bits.size()); CompressRow(r.data(),2,std::back_inserter(b.dvis.bits)); }
 CalcPHS(&b);
 for(int i=0;i<N;i++){ uint8_t o[2]; DecompressVis(b.dvis.bits.data()+b.dvis.get_bit_offset(VIS_PHS,i), b.dvis.bits.data()+b.dvis.bits.size(), o, o+2);
  for(int k=0;k<N;k++) if(!!(o[k>>3]&(1<<(k&7))) != (k>=i && k<=i+2)) return 1; }
 return 0; }
''', 'a chain of leafs each seeing the next one, across a byte boundary', 'the hearable set takes in leafs two steps and more away', libs=VIS)
seed('s02-comment-eof', 'S02', [('common/parser.cc', "                        // \\\" and then a new line\n", "                        // \\\" and then a new line\n")] , '', '', '')
SEEDS.pop()
seed('s01-copy-source', 'S01', [('include/common/settings.hh', "            _value = casted->_value;\n            _source = casted->_source;", "            _value = casted->_value;\n            if (casted->_source > _source)\n                _source = casted->_source;")],
'''#include <common/settings.hh>
using namespace settings;
int main(){ setting_int32 a(nullptr,"a",1), b(nullptr,"a",1); b.set_value(5,source::COMMANDLINE); b.copy_from(a); b.set_value(9,source::MAP); return b.value()==9?0:1; }
''', 'settings copied over ones that came from a more authoritative source', 'the copied setting keeps the old source and refuses later values')
seed('s01-clamp-default', 'S01', [('include/common/settings.hh', "        this->setting_value<T>::set_value(std::clamp(f, _min, _max), new_source);", "        if (f < _min || f > _max) {\n            // take the nearest value, but let a later, proper value win\n            this->setting_value<T>::set_value(f < _min ? _min : _max, std::min(new_source, source::MAP));\n            return;\n        }\n        this->setting_value<T>::set_value(f, new_source);")],
'''#include <common/settings.hh>
using namespace settings;
int main(){ setting_int32 a(nullptr,"a",1,0,10); a.set_value(50,source::COMMANDLINE); a.set_value(3,source::MAP); return a.value()==10?0:1; }
''', 'an out-of-range number on the command line and another value in the map', 'the map overrides the command line')
seed('s02-escape-crlf', 'S02', [('common/parser.cc', "XX", "YY")], '', '', '')
SEEDS.pop()
seed('s02-backslash', 'S02', [('common/parser.cc', "                    case 't':\n                    case '\\\\':\n", "                    case 't':\n")],
'''#include <common/parser.hh>
int main(){ std::string t = "\\"a\\\\\\\\\\" b"; parser_t p(t, {}); if(!p.parse_token() || p.token != "a\\\\\\\\") return 1; return p.parse_token() && p.token=="b" ? 0 : 1; }
''', 'a quoted text that ends in an escaped backslash', 'the closing quote is taken for an escaped one')
seed('b02-numbrushes', 'B02', [('common/bspxfile.cc', "    s <= static_cast<uint16_t>(faces.size());", "    s <= std::tuple<uint8_t, uint8_t>(static_cast<uint8_t>(faces.size()), 0);")],
'''#include <common/bspfile.hh>
#include <common/bspxfile.hh>
#include <sstream>
int main(){ bspxbrushes_perbrush b{}; b.faces.resize(260); std::stringstream s; s << endianness<std::endian::little>; s <= b; bspxbrushes_perbrush c; s.seekg(0); s >= c; return c.faces.size()==260?0:1; }
''', 'a BSPX brush with more than 255 faces', 'the face count is cut to its low byte')
seed('c04-remap-mist', 'C04', [('common/bspfile.cc', "        // structural solid (but not detail solid) eats any other contents\n        if (contents_are_solid(a) || contents_are_solid(b)) {", "        // structural solid (but not detail solid) eats any other contents\n        if (contents_are_solid(a) || (contents_are_solid(b) && !(a.flags & EWT_CFLAG_DETAIL))) {")],
'''#include <common/bspfile.hh>
int main(){ const gamedef_t*g=bspver_q2.game; auto m=[](contents_int_t v){return contentflags_t{(contents_t)v};};
 auto s=g->create_solid_contents(), d=m(EWT_VISCONTENTS_WINDOW|EWT_CFLAG_DETAIL);
 return g->combine_contents(d,s).flags==g->combine_contents(s,d).flags?0:1; }
''', 'a Quake II detail brush inside structural solid, in that order', 'the result depends on the order and the map leaks')
seed('v04-base', 'V04', [('common/bspfile_generic.cc', "    return sizeof(int32_t) + (sizeof(int32_t) * bit_offsets.size() * 2);", "    return sizeof(int32_t) + (bit_offsets.size() * sizeof(int64_t) & 0xffff);")],
'''#include <common/bspfile.hh>
int main(){ mvis_t v; v.resize(9000); v.set_bit_offset(VIS_PVS, 8999, 5); return v.header_offset()==4+9000*8 ? 0 : 1; }
''', 'a map with more than 8191 clusters', 'the offsets of the rows are off')
D6='''#include "/repo/vis/vis.cc"
static int run(int nclusters, int nleafs, int c, int sees, bool q2)
{
    portalleafs = nclusters; portalleafs_real = nleafs;
    leafbytes = ((portalleafs + 63) & ~63) >> 3; leafbytes_real = ((portalleafs_real + 63) & ~63) >> 3;
    static mbsp_t bsp; bsp = mbsp_t(); bsp.loadversion = q2 ? &bspver_q2 : &bspver_q1;
    bsp.dleafs.resize(nleafs + 1); bsp.dvis.resize(nclusters);
    for (int i = 0; i < nleafs; i++) { bsp.dleafs[i + 1].cluster = i % nclusters; bsp.dleafs[i + 1].visofs = -1; }
    uncompressed.assign(nclusters * (q2 ? leafbytes : leafbytes_real), 0); vismap.clear();
    static std::vector<visportal_t> ps; ps = std::vector<visportal_t>(2); leafs = std::vector<leaf_t>(nclusters);
    for (int k = 0; k < 2; k++) { ps[k].status = pstat_done; ps[k].visbits.resize(nclusters); ps[k].visbits[k ? sees : 0] = true; leafs[c].portals.push_back(&ps[k]); }
    leafbits_t buffer(nclusters);
    ClusterFlow(c, buffer, &bsp);
    int n = q2 ? nclusters : nleafs; std::vector<uint8_t> o((n + 7) / 8);
    DecompressVis(vismap.data() + bsp.dvis.get_bit_offset(VIS_PVS, c), vismap.data() + vismap.size(), o.data(), o.data() + o.size());
    for (int i = 0; i < n; i++) { int k = q2 ? i : bsp.dleafs[i + 1].cluster; if (((o[i >> 3] >> (i & 7)) & 1) != (k == c || k == sees || k == 0)) return 1; }
    if (!q2) for (int i = 0; i < nleafs; i++) if ((bsp.dleafs[i + 1].visofs == 0) != (bsp.dleafs[i + 1].cluster == c)) return 1;
    return 0;
}
int main() { for (bool q2 : {false, true}) { if (run(33, 50, 3, 32, q2) || run(40, 100, 39, 38, q2) || run(7, 7, 2, 5, q2) || run(33, 50, 5, 4, q2)) return 1; } return 0; }
'''
seed('v06-blocks', 'V06', [('vis/vis.cc', "    int numblocks = (portalleafs + leafbits_t::mask) >> leafbits_t::shift;\n    for (const visportal_t *", "    int numblocks = (portalleafs + leafbits_t::mask - 1) >> leafbits_t::shift;\n    for (const visportal_t *")],
D6, 'a map whose number of clusters leaves one over after division by 32', 'the last cluster is never seen', libs=VIS)
seed('v06-leafs', 'V06', [('vis/vis.cc', "            if (buffer[bsp->dleafs[i + 1].cluster]) {", "            const int sees = bsp->dleafs[i + 1].cluster;\n            if (sees < i + 1 && buffer[sees]) {")],
D6.replace('i % nclusters','nclusters - 1 - i % nclusters'), 'a leaf with a lower number than the cluster it lies in', 'leafs whose cluster has a higher number are dropped from the row', libs=VIS)
