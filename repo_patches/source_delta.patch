From 701e884122e2aed4456e260fc89a383416a79cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:06 +0000
Subject: [PATCH 01/15] fix: Quake II portals block vis when the visible
 contents differ

portal_can_see_through ended with an inverted test: a boundary between air and
an opaque liquid was see-through, while one that differed only in invisible
contents (e.g. detail vs. playerclip) blocked vis.
---
 common/bspfile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bspfile.cc b/common/bspfile.cc
index f79d0ec..7a1d40c 100644
--- a/common/bspfile.cc
+++ b/common/bspfile.cc
@@ -1184,7 +1184,7 @@ struct gamedef_q2_t : public gamedef_t
         if (!(c0 ^ c1))
             return true;
 
-        return (((c0 ^ c1) & EWT_ALL_VISIBLE_CONTENTS) != 0);
+        return (((c0 ^ c1) & EWT_ALL_VISIBLE_CONTENTS) == 0);
     }
 
     bool contents_seals_map(const contentflags_t &contents) const override
-- 
2.43.0


From 4561d8f184a3ca3519b0881ae0c2bb755cb90086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:30 +0000
Subject: [PATCH 02/15] fix: round Quake II leaf maxs outwards when converting
 to 16 bit bounds

q2_dleaf_t rounded maxs down, so the written bounds could exclude up to a
unit of the leaf; every other leaf and node format rounds maxs up.
---
 common/bspfile_q2.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bspfile_q2.cc b/common/bspfile_q2.cc
index a49816b..06dadfc 100644
--- a/common/bspfile_q2.cc
+++ b/common/bspfile_q2.cc
@@ -180,7 +180,7 @@ q2_dleaf_t::q2_dleaf_t(const mleaf_t &model)
       cluster(numeric_cast<int16_t>(model.cluster, "dleaf_t::cluster")),
       area(numeric_cast<int16_t>(model.area, "dleaf_t::area")),
       mins(aabb_mins_cast<int16_t>(model.mins, "dleaf_t::mins")),
-      maxs(aabb_mins_cast<int16_t>(model.maxs, "dleaf_t::maxs")),
+      maxs(aabb_maxs_cast<int16_t>(model.maxs, "dleaf_t::maxs")),
       firstleafface(numeric_cast<uint16_t>(model.firstmarksurface, "dleaf_t::firstmarksurface")),
       numleaffaces(numeric_cast<uint16_t>(model.nummarksurfaces, "dleaf_t::nummarksurfaces")),
       firstleafbrush(numeric_cast<uint16_t>(model.firstleafbrush, "dleaf_t::firstleafbrush")),
-- 
2.43.0


From 2483fad3543ec344853da07a897d597ffe81fabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:18 +0000
Subject: [PATCH 03/15] fix: keep in-memory stream reads, writes and seeks
 inside the buffer

---
 common/cmdlib.cc | 41 ++++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/common/cmdlib.cc b/common/cmdlib.cc
index f90d9b2..110d09a 100644
--- a/common/cmdlib.cc
+++ b/common/cmdlib.cc
@@ -152,23 +152,26 @@ void membuf::setpptrs(char *first, char *next, char *end)
 
 membuf::pos_type membuf::seekpos(pos_type off, std::ios_base::openmode which)
 {
+    return membuf::seekoff(off, std::ios_base::beg, which);
+}
+
+membuf::pos_type membuf::seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode which)
+{
+    // reject seeks that would leave the buffer
     if (which & std::ios_base::in) {
-        setg(eback(), eback() + off, egptr());
+        const char *from = dir == std::ios_base::cur ? gptr() : dir == std::ios_base::end ? egptr() : eback();
+        if (off < eback() - from || off > egptr() - from) {
+            return pos_type(off_type(-1));
+        }
     }
 
     if (which & std::ios_base::out) {
-        setpptrs(pbase(), pbase() + off, epptr());
-    }
-
-    if (which & std::ios_base::in) {
-        return gptr() - eback();
-    } else {
-        return pptr() - pbase();
+        const char *from = dir == std::ios_base::cur ? pptr() : dir == std::ios_base::end ? epptr() : pbase();
+        if (off < pbase() - from || off > epptr() - from) {
+            return pos_type(off_type(-1));
+        }
     }
-}
 
-membuf::pos_type membuf::seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode which)
-{
     if (which & std::ios_base::in) {
         if (dir == std::ios_base::cur)
             gbump(off);
@@ -196,15 +199,11 @@ membuf::pos_type membuf::seekoff(off_type off, std::ios_base::seekdir dir, std::
 
 std::streamsize membuf::xsputn(const char_type *s, std::streamsize n)
 {
-    if (pptr() == epptr()) {
-        return traits_type::eof();
-    }
-
     std::streamsize free_space = epptr() - pptr();
     std::streamsize num_write = std::min(free_space, n);
 
-    memcpy(pptr(), s, n);
-    setpptrs(pbase(), pptr() + n, epptr());
+    memcpy(pptr(), s, num_write);
+    setpptrs(pbase(), pptr() + num_write, epptr());
 
     return num_write;
 }
@@ -216,15 +215,11 @@ membuf::int_type membuf::overflow(int_type ch)
 
 std::streamsize membuf::xsgetn(char_type *s, std::streamsize n)
 {
-    if (gptr() == egptr()) {
-        return traits_type::eof();
-    }
-
     std::streamsize free_space = egptr() - gptr();
     std::streamsize num_read = std::min(free_space, n);
 
-    memcpy(s, gptr(), n);
-    setg(eback(), gptr() + n, egptr());
+    memcpy(s, gptr(), num_read);
+    setg(eback(), gptr() + num_read, egptr());
 
     return num_read;
 }
-- 
2.43.0


From 01270c561558d541d383878167f2f4a8f0a742a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:42 +0000
Subject: [PATCH 04/15] Loop contracts for the run-length coding of visibility
 rows (VERIF_SPEC)

---
 common/bsputils.cc | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/common/bsputils.cc b/common/bsputils.cc
index 2b04800..8fefacc 100644
--- a/common/bsputils.cc
+++ b/common/bsputils.cc
@@ -586,6 +586,13 @@ CompressRow
 void CompressRow(const uint8_t *vis, const size_t numbytes, std::back_insert_iterator<std::vector<uint8_t>> it)
 {
     for (size_t i = 0; i < numbytes; i++) {
+#ifdef VERIF_SPEC
+        vf_ghost(1, it.container->size(), i); // a run starts here
+        vf_inv(it.container->size() <= 2 * i);
+        vf_inv(vf_pred(1, it.container->size(), i));
+        vf_cut(numbytes - i);
+        const size_t vf_start = i;
+#endif
         it++ = vis[i];
 
         if (vis[i]) {
@@ -595,6 +602,11 @@ void CompressRow(const uint8_t *vis, const size_t numbytes, std::back_insert_ite
         int32_t rep = 1;
 
         for (i++; i < numbytes; i++) {
+#ifdef VERIF_SPEC
+            vf_inv(rep >= 1 && rep <= 255 && i == vf_start + rep);
+            vf_inv(vf_pred(2, vf_start, i));
+            vf_cut(numbytes - i);
+#endif
             if (vis[i] || rep == 255) {
                 break;
             }
@@ -662,7 +674,17 @@ void DecompressVis(const uint8_t *in, const uint8_t *inend, uint8_t *out, uint8_
 {
     int c;
     uint8_t *outstart = out;
+#ifdef VERIF_SPEC
+    const uint8_t *vf_instart = in;
+#endif
     while (out < outend) {
+#ifdef VERIF_SPEC
+        vf_inv((size_t)(in - vf_instart) <= (size_t)(inend - vf_instart));
+        vf_inv((size_t)(out - outstart) < (size_t)(outend - outstart));
+        vf_inv(vf_pred(3, in - vf_instart, out - outstart));
+        vf_cut(outend - out);
+        vf_hint(1, in - vf_instart, out - outstart);
+#endif
         if (in == inend) {
             logging::print("DecompressVis: input underrun (decompressed {} of {} output bytes)\n", (out - outstart),
                 (outend - outstart));
@@ -687,7 +709,16 @@ void DecompressVis(const uint8_t *in, const uint8_t *inend, uint8_t *out, uint8_
             return;
         }
 
+#ifdef VERIF_SPEC
+        const uint8_t *vf_runstart = out;
+#endif
         for (c = run_length; c > 0; c--) {
+#ifdef VERIF_SPEC
+            vf_inv(c <= run_length && out == vf_runstart + (run_length - c));
+            vf_inv((size_t)(out - outstart) <= (size_t)(outend - outstart));
+            vf_inv(vf_pred(4, vf_runstart - outstart, out - outstart));
+            vf_cut(c);
+#endif
             if (out == outend) {
                 logging::print("DecompressVis: output overrun (decompressed {} of {} output bytes)\n", (out - outstart),
                     (outend - outstart));
-- 
2.43.0


From 03491359ce06963b34f8d0422064e06ed0ac2f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:36 +0000
Subject: [PATCH 05/15] fix: refuse corrupt vis state files instead of
 overrunning buffers

---
 vis/state.cc | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/vis/state.cc b/vis/state.cc
index 6059c64..8be0f6c 100644
--- a/vis/state.cc
+++ b/vis/state.cc
@@ -94,21 +94,27 @@ static int CompressBits(uint8_t *out, const leafbits_t &in)
     return numbytes;
 }
 
-static void DecompressBits(leafbits_t &dst, const uint8_t *src)
+static void DecompressBits(leafbits_t &dst, const uint8_t *src, const uint8_t *srcend)
 {
     const size_t numbytes = (portalleafs + 7) >> 3;
 
     dst.resize(portalleafs);
 
     for (size_t i = 0; i < numbytes; i++) {
+        if (src == srcend)
+            FError("underflow");
+
         uint8_t val = *src++;
         uint32_t shift = (i << 3) & leafbits_t::mask;
         dst.data()[i >> (leafbits_t::shift - 3)] |= (uint32_t)val << shift;
         if (val != 0 && val != 0xff)
             continue;
 
+        if (src == srcend)
+            FError("underflow");
+
         int32_t rep = *src++;
-        if (i + rep > numbytes)
+        if (rep < 1 || i + rep > numbytes)
             FError("overflow");
 
         /* Already wrote the first byte, add (rep - 1) copies */
@@ -197,7 +203,7 @@ void CleanVisState()
 bool LoadVisState()
 {
     fs::file_time_type prt_time, state_time;
-    int numbytes;
+    uint32_t numbytes;
     dvisstate_t state;
     dportal_t pstate;
 
@@ -249,15 +255,21 @@ bool LoadVisState()
     for (auto &p : portals) {
         in >= pstate;
 
+        if (!in || pstate.might > numbytes || pstate.vis > numbytes) {
+            FError("state file {} is corrupt", statefile);
+        }
+
         p.status = static_cast<pstatus_t>(pstate.status);
         p.nummightsee = pstate.nummightsee;
         p.numcansee = pstate.numcansee;
 
-        in.read((char *)compressed.data(), pstate.might);
+        if (!in.read((char *)compressed.data(), pstate.might)) {
+            FError("state file {} is corrupt", statefile);
+        }
         p.mightsee.resize(portalleafs);
 
         if (pstate.might < numbytes) {
-            DecompressBits(p.mightsee, compressed.data());
+            DecompressBits(p.mightsee, compressed.data(), compressed.data() + pstate.might);
         } else {
             CopyLeafBits(p.mightsee, compressed.data(), portalleafs);
         }
@@ -265,9 +277,11 @@ bool LoadVisState()
         p.visbits.resize(portalleafs);
 
         if (pstate.vis) {
-            in.read((char *)compressed.data(), pstate.vis);
+            if (!in.read((char *)compressed.data(), pstate.vis)) {
+                FError("state file {} is corrupt", statefile);
+            }
             if (pstate.vis < numbytes) {
-                DecompressBits(p.visbits, compressed.data());
+                DecompressBits(p.visbits, compressed.data(), compressed.data() + pstate.vis);
             } else {
                 CopyLeafBits(p.visbits, compressed.data(), portalleafs);
             }
-- 
2.43.0


From f73e9549db1892150c1c0888390f2e9a5d40c61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:24 +0000
Subject: [PATCH 06/15] Loop contracts for compressed bit strings of the vis
 state (VERIF_SPEC)

---
 vis/state.cc | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/vis/state.cc b/vis/state.cc
index 8be0f6c..d70a2bf 100644
--- a/vis/state.cc
+++ b/vis/state.cc
@@ -62,6 +62,13 @@ static int CompressBits(uint8_t *out, const leafbits_t &in)
     dst = out;
     numbytes = (portalleafs + 7) >> 3;
     for (i = 0; i < numbytes && dst - out < numbytes; i++) {
+#ifdef VERIF_SPEC
+        vf_ghost(1, dst - out, i); // a run starts here
+        vf_inv(vf_i(i) >= 0 && vf_i(dst - out) >= 0 && dst - out <= 2 * i);
+        vf_inv(vf_pred(1, dst - out, i));
+        vf_cut(numbytes - i);
+        const int vf_start = i;
+#endif
         shift = (i << 3) & leafbits_t::mask;
         val = (in.data()[i >> (leafbits_t::shift - 3)] >> shift) & 0xff;
         *dst++ = val;
@@ -72,6 +79,11 @@ static int CompressBits(uint8_t *out, const leafbits_t &in)
 
         rep = 1;
         for (i++; i < numbytes; i++) {
+#ifdef VERIF_SPEC
+            vf_inv(rep >= 1 && rep <= 255 && i == vf_start + rep);
+            vf_inv(vf_pred(2, vf_start, i));
+            vf_cut(numbytes - i);
+#endif
             shift = (i << 3) & leafbits_t::mask;
             repval = (in.data()[i >> (leafbits_t::shift - 3)] >> shift) & 0xff;
             if (repval != val || rep == 255)
@@ -88,6 +100,11 @@ static int CompressBits(uint8_t *out, const leafbits_t &in)
     /* Compression ineffective, just copy the data */
     dst = out;
     for (i = 0; i < numbytes; i++) {
+#ifdef VERIF_SPEC
+        vf_inv(vf_i(i) >= 0 && dst - out == i);
+        vf_inv(vf_pred(3, i, 0));
+        vf_cut(numbytes - i);
+#endif
         shift = (i << 3) & leafbits_t::mask;
         *dst++ = (in.data()[i >> (leafbits_t::shift - 3)] >> shift) & 0xff;
     }
@@ -100,7 +117,17 @@ static void DecompressBits(leafbits_t &dst, const uint8_t *src, const uint8_t *s
 
     dst.resize(portalleafs);
 
+#ifdef VERIF_SPEC
+    const uint8_t *vf_src = src;
+#endif
     for (size_t i = 0; i < numbytes; i++) {
+#ifdef VERIF_SPEC
+        vf_inv((size_t)(src - vf_src) <= (size_t)(srcend - vf_src));
+        vf_inv(vf_pred(4, src - vf_src, i));
+        vf_cut(numbytes - i);
+        vf_hint(1, src - vf_src, i);
+        const size_t vf_start = i;
+#endif
         if (src == srcend)
             FError("underflow");
 
@@ -118,7 +145,15 @@ static void DecompressBits(leafbits_t &dst, const uint8_t *src, const uint8_t *s
             FError("overflow");
 
         /* Already wrote the first byte, add (rep - 1) copies */
+#ifdef VERIF_SPEC
+        const int32_t vf_rep = rep;
+#endif
         while (--rep) {
+#ifdef VERIF_SPEC
+            vf_inv(rep >= 1 && rep < vf_rep && i == vf_start + (vf_rep - 1 - rep));
+            vf_inv(vf_pred(5, vf_start, i));
+            vf_cut(rep);
+#endif
             i++;
             shift = (i << 3) & leafbits_t::mask;
             dst.data()[i >> (leafbits_t::shift - 3)] |= (uint32_t)val << shift;
@@ -131,7 +166,15 @@ static void CopyLeafBits(leafbits_t &dst, const uint8_t *src, size_t numleafs)
     const size_t numbytes = (numleafs + 7) >> 3;
     dst.resize(numleafs);
 
+#ifdef VERIF_SPEC
+    const uint8_t *vf_src = src;
+#endif
     for (size_t i = 0; i < numbytes; i++) {
+#ifdef VERIF_SPEC
+        vf_inv(src == vf_src + i);
+        vf_inv(vf_pred(6, i, 0));
+        vf_cut(numbytes - i);
+#endif
         const uint32_t shift = (i << 3) & leafbits_t::mask;
         dst.data()[i >> (leafbits_t::shift - 3)] |= (uint32_t)(*src++) << shift;
     }
-- 
2.43.0


From ac338da9b2637466baf6dd6a1304c3079886eeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:28 +0000
Subject: [PATCH 07/15] fix: include the last leafs in the PHS when the row is
 no multiple of 8 bytes

---
 vis/soundpvs.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/vis/soundpvs.cc b/vis/soundpvs.cc
index 225ca62..121de88 100644
--- a/vis/soundpvs.cc
+++ b/vis/soundpvs.cc
@@ -166,7 +166,6 @@ void CalcPHS(mbsp_t *bsp)
     logging::funcheader();
 
     const int32_t leafbytes = (portalleafs + 7) >> 3;
-    const int32_t leaflongs = leafbytes / sizeof(long);
 
     // increase the bits size with approximately how much space we'll need
     bsp->dvis.bits.reserve(bsp->dvis.bits.size() * 2);
@@ -200,10 +199,8 @@ void CalcPHS(mbsp_t *bsp)
                 const uint8_t *src_compressed = bsp->dvis.bits.data() + bsp->dvis.get_bit_offset(VIS_PVS, index);
                 DecompressVis(src_compressed, bsp->dvis.bits.data() + bsp->dvis.bits.size(), uncompressed_2.data(),
                     uncompressed_2.data() + uncompressed_2.size());
-                const long *src = reinterpret_cast<long *>(uncompressed_2.data());
-                long *dest = reinterpret_cast<long *>(uncompressed.data());
-                for (int32_t l = 0; l < leaflongs; l++)
-                    dest[l] |= src[l];
+                for (int32_t l = 0; l < leafbytes; l++)
+                    uncompressed[l] |= uncompressed_2[l];
             }
         }
         for (int32_t j = 0; j < portalleafs; j++)
-- 
2.43.0


From 35d9ab1468a2800c940a4c9de7ec13bfef6da4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:45 +0000
Subject: [PATCH 08/15] Loop contracts for CalcPHS (VERIF_SPEC)

---
 vis/soundpvs.cc | 44 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/vis/soundpvs.cc b/vis/soundpvs.cc
index 121de88..067ffa9 100644
--- a/vis/soundpvs.cc
+++ b/vis/soundpvs.cc
@@ -175,8 +175,21 @@ void CalcPHS(mbsp_t *bsp)
     std::vector<uint8_t> compressed(leafbytes * 2);
     std::vector<uint8_t> uncompressed_orig(leafbytes);
 
+#ifdef VERIF_SPEC
+    vf_name(1, uncompressed.data());
+    vf_name(2, uncompressed_2.data());
+    vf_name(3, uncompressed_orig.data());
+    vf_name(4, compressed.data());
+#endif
     int32_t count = 0;
     for (int32_t i = 0; i < portalleafs; i++) {
+#ifdef VERIF_SPEC
+        vf_ghost(1, i, 0); // the current leaf
+        vf_inv(vf_i(i) >= 0);
+        vf_inv(vf_pred(1, i, 0));
+        vf_cut(portalleafs - i);
+        vf_ghost(2, i, true);
+#endif
         const uint8_t *scan = bsp->dvis.bits.data() + bsp->dvis.get_bit_offset(VIS_PVS, i);
 
         DecompressVis(scan, bsp->dvis.bits.data() + bsp->dvis.bits.size(), uncompressed.data(),
@@ -186,26 +199,53 @@ void CalcPHS(mbsp_t *bsp)
         scan = uncompressed_orig.data();
 
         for (int32_t j = 0; j < leafbytes; j++) {
+#ifdef VERIF_SPEC
+            vf_inv(vf_i(j) >= 0);
+            vf_inv(vf_pred(2, j, 0));
+            vf_cut(leafbytes - j);
+#endif
             uint8_t bitbyte = scan[j];
             if (!bitbyte)
                 continue;
             for (int32_t k = 0; k < 8; k++) {
+#ifdef VERIF_SPEC
+                vf_inv(vf_i(k) >= 0);
+                vf_inv(vf_pred(4, j, k));
+                vf_cut(8 - k);
+#endif
                 if (!(bitbyte & nth_bit(k)))
                     continue;
                 // OR this pvs row into the phs
                 int32_t index = ((j << 3) + k);
                 if (index >= portalleafs)
                     FError("Bad bit in PVS"); // pad bits should be 0
+#ifdef VERIF_SPEC
+                vf_ghost(2, index, !!(scan[index >> 3] & nth_bit(index & 7))); // the leaf whose row is wanted
+#endif
                 const uint8_t *src_compressed = bsp->dvis.bits.data() + bsp->dvis.get_bit_offset(VIS_PVS, index);
                 DecompressVis(src_compressed, bsp->dvis.bits.data() + bsp->dvis.bits.size(), uncompressed_2.data(),
                     uncompressed_2.data() + uncompressed_2.size());
-                for (int32_t l = 0; l < leafbytes; l++)
+#ifdef VERIF_SPEC
+                vf_ghost(3, 0, 0);
+#endif
+                for (int32_t l = 0; l < leafbytes; l++) {
+#ifdef VERIF_SPEC
+                    vf_inv(vf_i(l) >= 0);
+                    vf_inv(vf_pred(3, l, 0));
+                    vf_cut(leafbytes - l);
+#endif
                     uncompressed[l] |= uncompressed_2[l];
+                }
             }
         }
-        for (int32_t j = 0; j < portalleafs; j++)
+        for (int32_t j = 0; j < portalleafs; j++) {
+#ifdef VERIF_SPEC
+            vf_inv(vf_i(j) >= 0);
+            vf_cut(portalleafs - j);
+#endif
             if (uncompressed[j >> 3] & nth_bit(j & 7))
                 count++;
+        }
 
         //
         // compress the bit string
-- 
2.43.0


From 211213b9f3fb2e55f2a73b3bb245db545512a6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:22 +0000
Subject: [PATCH 09/15] fix: never parse tokens past the end of unterminated
 data

---
 common/parser.cc | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/common/parser.cc b/common/parser.cc
index c3df3e4..eb78cec 100644
--- a/common/parser.cc
+++ b/common/parser.cc
@@ -96,6 +96,9 @@ bool parser_t::parse_token(parseflags flags)
     token.clear();
     auto token_p = std::back_inserter(token);
 
+    // the character `ofs` ahead, or 0 past the end; the data need not be terminated
+    auto peek = [this](ptrdiff_t ofs = 0) { return ofs < end - pos ? pos[ofs] : '\0'; };
+
 skipspace:
     /* skip space */
     while (at_end() || *pos <= 32) {
@@ -117,9 +120,9 @@ skipspace:
     }
 
     /* comment field */
-    if ((pos[0] == '/' && pos[1] == '/') || pos[0] == ';') { // quark writes ; comments in q2 maps
+    if ((pos[0] == '/' && peek(1) == '/') || pos[0] == ';') { // quark writes ; comments in q2 maps
         if (flags & PARSE_COMMENT) {
-            while (*pos && *pos != '\n') {
+            while (peek() && *pos != '\n') {
                 *token_p++ = *pos++;
             }
             goto out;
@@ -129,7 +132,7 @@ skipspace:
         if (flags & PARSE_SAMELINE)
             FError("{}: Line is incomplete", location);
         while (*pos++ != '\n') {
-            if (!*pos) {
+            if (!peek()) {
                 if (flags & PARSE_SAMELINE)
                     FError("{}: Line is incomplete", location);
                 return false;
@@ -146,15 +149,15 @@ skipspace:
     if (*pos == '"') {
         was_quoted = true;
         pos++;
-        while (*pos != '"') {
-            if (!*pos)
+        while (peek() != '"') {
+            if (!peek())
                 FError("{}: EOF inside quoted token", location);
             if (*pos == '\\') {
                 // small note. the vanilla quake engine just parses the "foo" stuff then goes and looks for \n
                 // explicitly within strings. this means ONLY \n works, and double-quotes cannot be used either in maps
                 // _NOR SAVED GAMES_. certain editors can write "wad" "c:\foo\" which is completely fucked. so lets try
                 // to prevent more brokenness and encourage map editors to switch to using sane wad keys.
-                switch (pos[1]) {
+                switch (peek(1)) {
                     case 'n':
                     case '\'':
                     case 'r':
@@ -177,14 +180,14 @@ skipspace:
                     case '9': // too lazy to validate these. doesn't break stuff.
                         break;
                     case '\"':
-                        if (pos[2] == '\r' || pos[2] == '\n') {
+                        if (peek(2) == '\r' || peek(2) == '\n') {
                             logging::print("WARNING: {}: escaped double-quote at end of string\n", location);
                         } else {
                             *token_p++ = *pos++;
                         }
                         break;
                     default:
-                        logging::print("WARNING: {}: Unrecognised string escape - \\{}\n", location, pos[1]);
+                        logging::print("WARNING: {}: Unrecognised string escape - \\{}\n", location, peek(1));
                         break;
                 }
             }
@@ -192,7 +195,7 @@ skipspace:
         }
         pos++;
     } else {
-        while (*pos > 32) {
+        while (peek() > 32) {
             *token_p++ = *pos++;
         }
     }
-- 
2.43.0


From a18575edad19c176b0bf916fe698f9f6bd003993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:22 +0000
Subject: [PATCH 10/15] fix: trim trailing whitespace of entity keys at the
 end, not the start

---
 common/entdata.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/entdata.cc b/common/entdata.cc
index cbc72e5..ea2fc94 100644
--- a/common/entdata.cc
+++ b/common/entdata.cc
@@ -169,11 +169,11 @@ void entdict_t::parse(parser_base_t &parser)
             FError("closing brace without data");
 
         // trim whitespace from start/end
-        while (std::isspace(keystr.front())) {
+        while (!keystr.empty() && std::isspace(keystr.front())) {
             keystr.erase(keystr.begin());
         }
-        while (std::isspace(keystr.back())) {
-            keystr.erase(keystr.cbegin());
+        while (!keystr.empty() && std::isspace(keystr.back())) {
+            keystr.pop_back();
         }
 
         set(keystr, parser.token);
-- 
2.43.0


From 7c171ca16f3459f1850d36c143991145d38ed07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 11/15] Loop contracts for the tokenizer (VERIF_SPEC)

---
 common/parser.cc | 47 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/common/parser.cc b/common/parser.cc
index eb78cec..26b5509 100644
--- a/common/parser.cc
+++ b/common/parser.cc
@@ -100,8 +100,17 @@ bool parser_t::parse_token(parseflags flags)
     auto peek = [this](ptrdiff_t ofs = 0) { return ofs < end - pos ? pos[ofs] : '\0'; };
 
 skipspace:
+#ifdef VERIF_SPEC
+    vf_inv(vf_pred(1, (uintptr_t)pos, (uintptr_t)end));
+    vf_cut(end - pos);
+    vf_ghost(1, end - pos, 0); // nothing below goes back behind this
+#endif
     /* skip space */
     while (at_end() || *pos <= 32) {
+#ifdef VERIF_SPEC
+        vf_inv(vf_pred(1, (uintptr_t)pos, (uintptr_t)end));
+        vf_cut(end - pos);
+#endif
         if (at_end() || !*pos) {
             if (flags & PARSE_OPTIONAL)
                 return false;
@@ -119,10 +128,19 @@ skipspace:
         pos++;
     }
 
+#ifdef VERIF_SPEC
+    vf_ghost(1, end - pos, 0); // a token or comment starts here
+#endif
     /* comment field */
     if ((pos[0] == '/' && peek(1) == '/') || pos[0] == ';') { // quark writes ; comments in q2 maps
         if (flags & PARSE_COMMENT) {
             while (peek() && *pos != '\n') {
+#ifdef VERIF_SPEC
+                vf_inv(vf_pred(2, (uintptr_t)pos, (uintptr_t)end));
+                vf_inv(vf_pred(12, (uintptr_t)pos, (uintptr_t)end));
+                vf_inv(vf_pred(22, (uintptr_t)pos, (uintptr_t)end));
+                vf_cut(end - pos);
+#endif
                 *token_p++ = *pos++;
             }
             goto out;
@@ -132,12 +150,20 @@ skipspace:
         if (flags & PARSE_SAMELINE)
             FError("{}: Line is incomplete", location);
         while (*pos++ != '\n') {
+#ifdef VERIF_SPEC
+            vf_inv(vf_pred(3, (uintptr_t)pos, (uintptr_t)end));
+            vf_inv(vf_pred(23, (uintptr_t)pos, (uintptr_t)end));
+            vf_cut(end - pos);
+#endif
             if (!peek()) {
                 if (flags & PARSE_SAMELINE)
                     FError("{}: Line is incomplete", location);
                 return false;
             }
         }
+#ifdef VERIF_SPEC
+        vf_ghost(2, end - pos, 0); // the comment ends here
+#endif
         location.line_number.value()++; // count the \n the preceding while() loop just consumed
         goto skipspace;
     }
@@ -149,7 +175,17 @@ skipspace:
     if (*pos == '"') {
         was_quoted = true;
         pos++;
-        while (peek() != '"') {
+        while (
+#ifdef VERIF_SPEC
+                vf_inv(vf_pred(4, (uintptr_t)pos, (uintptr_t)end)),
+                vf_inv(vf_pred(14, (uintptr_t)pos, (uintptr_t)end)),
+                vf_inv(vf_pred(24, (uintptr_t)pos, (uintptr_t)end)),
+                vf_cut(end - pos),
+#endif
+                peek() != '"') {
+#ifdef VERIF_SPEC
+            vf_ghost(3, end - pos, 0); // a character or escape starts here
+#endif
             if (!peek())
                 FError("{}: EOF inside quoted token", location);
             if (*pos == '\\') {
@@ -195,7 +231,14 @@ skipspace:
         }
         pos++;
     } else {
-        while (peek() > 32) {
+        while (
+#ifdef VERIF_SPEC
+                vf_inv(vf_pred(5, (uintptr_t)pos, (uintptr_t)end)),
+                vf_inv(vf_pred(15, (uintptr_t)pos, (uintptr_t)end)),
+                vf_inv(vf_pred(25, (uintptr_t)pos, (uintptr_t)end)),
+                vf_cut(end - pos),
+#endif
+                peek() > 32) {
             *token_p++ = *pos++;
         }
     }
-- 
2.43.0


From f2e7511fbeb05c056bbb809c727b6607276df4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:39 +0000
Subject: [PATCH 12/15] fix: let "_no..." keys switch invertible settings off
 like "no..." ones do

---
 common/settings.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/settings.cc b/common/settings.cc
index c08fe4d..3e9079f 100644
--- a/common/settings.cc
+++ b/common/settings.cc
@@ -178,7 +178,10 @@ setting_invertible_bool::setting_invertible_bool(
 
 bool setting_invertible_bool::parse(const std::string &setting_name, parser_base_t &parser, source source)
 {
-    return parseInternal(parser, source, setting_name.compare(0, 2, "no") == 0 ? false : true);
+    // leading underscores are not part of the name (see find_setting)
+    const size_t start = std::min(setting_name.find_first_not_of('_'), setting_name.size());
+
+    return parseInternal(parser, source, setting_name.compare(start, 2, "no") == 0 ? false : true);
 }
 
 // setting_redirect
-- 
2.43.0


From 6558cd130ca5b21c7dc0e9c07bb1288b3a7a9bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:38 +0000
Subject: [PATCH 13/15] Loop contracts for ClusterFlow (VERIF_SPEC)

---
 vis/vis.cc | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/vis/vis.cc b/vis/vis.cc
index e657558..89825cf 100644
--- a/vis/vis.cc
+++ b/vis/vis.cc
@@ -397,11 +397,26 @@ static void ClusterFlow(int clusternum, leafbits_t &buffer, mbsp_t *bsp)
      */
     leaf_t *leaf = &leafs[clusternum];
     int numblocks = (portalleafs + leafbits_t::mask) >> leafbits_t::shift;
-    for (const visportal_t *p : leaf->portals) {
+    for (const visportal_t *
+#ifdef VERIF_SPEC
+         const & // (the iterator is needed below)
+#endif
+             p : leaf->portals) {
+#ifdef VERIF_SPEC
+        vf_inv(vf_pred(1, (uintptr_t)&p, 0));
+        vf_cut((uintptr_t)&*leaf->portals.end() - (uintptr_t)&p);
+        vf_name(1, p);
+#endif
         if (p->status != pstat_done)
             FError("portal not done");
-        for (int j = 0; j < numblocks; j++)
+        for (int j = 0; j < numblocks; j++) {
+#ifdef VERIF_SPEC
+            vf_inv(vf_i(j) >= 0);
+            vf_inv(vf_pred(2, j, 0));
+            vf_cut(numblocks - j);
+#endif
             buffer.data()[j] |= p->visbits.data()[j];
+        }
     }
 
     if (buffer[clusternum])
@@ -418,6 +433,11 @@ static void ClusterFlow(int clusternum, leafbits_t &buffer, mbsp_t *bsp)
     if (bsp->loadversion->game->id == GAME_QUAKE_II) {
         outbuffer = uncompressed.data() + clusternum * leafbytes;
         for (int i = 0; i < portalleafs; i++) {
+#ifdef VERIF_SPEC
+            vf_inv(vf_i(i) >= 0 && numvis >= 0 && numvis <= i);
+            vf_inv(vf_pred(3, i, 0));
+            vf_cut(portalleafs - i);
+#endif
             if (buffer[i]) {
                 outbuffer[i >> 3] |= nth_bit(i & 7);
                 numvis++;
@@ -426,6 +446,12 @@ static void ClusterFlow(int clusternum, leafbits_t &buffer, mbsp_t *bsp)
     } else {
         outbuffer = uncompressed.data() + clusternum * leafbytes_real;
         for (int i = 0; i < portalleafs_real; i++) {
+#ifdef VERIF_SPEC
+            vf_inv(vf_i(i) >= 0 && numvis >= 0 && numvis <= i);
+            vf_inv(vf_pred(4, i, 0));
+            vf_cut(portalleafs_real - i);
+            vf_hint(1, i, 0); // every leaf belongs to a cluster
+#endif
             if (buffer[bsp->dleafs[i + 1].cluster]) {
                 outbuffer[i >> 3] |= nth_bit(i & 7);
                 numvis++;
@@ -447,6 +473,10 @@ static void ClusterFlow(int clusternum, leafbits_t &buffer, mbsp_t *bsp)
         totalvis += numvis;
     } else {
         for (int i = 0; i < portalleafs_real; i++) {
+#ifdef VERIF_SPEC
+            vf_inv(vf_i(i) >= 0);
+            vf_cut(portalleafs_real - i);
+#endif
             if (bsp->dleafs[i + 1].cluster == clusternum) {
                 totalvis += numvis;
             }
@@ -470,6 +500,11 @@ static void ClusterFlow(int clusternum, leafbits_t &buffer, mbsp_t *bsp)
     // Set pointers
     if (bsp->loadversion->game->id != GAME_QUAKE_II) {
         for (int i = 0; i < portalleafs_real; i++) {
+#ifdef VERIF_SPEC
+            vf_inv(vf_i(i) >= 0);
+            vf_inv(vf_pred(6, i, 0));
+            vf_cut(portalleafs_real - i);
+#endif
             if (bsp->dleafs[i + 1].cluster == clusternum) {
                 bsp->dleafs[i + 1].visofs = visofs;
             }
-- 
2.43.0


From 558390edeef9ba78fe6fdfafb7b8dfe09ef257a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:34 +0000
Subject: [PATCH 14/15] Loop contracts for handing out portals (VERIF_SPEC)

---
 vis/vis.cc | 40 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/vis/vis.cc b/vis/vis.cc
index 89825cf..ba38dca 100644
--- a/vis/vis.cc
+++ b/vis/vis.cc
@@ -239,10 +239,19 @@ visportal_t *GetNextPortal()
     portal_mutex.lock();
 
     for (auto &p : portals) {
+#ifdef VERIF_SPEC
+        vf_inv(vf_pred(10, (uintptr_t)&p, (uintptr_t)ret));
+        vf_inv(vf_pred(11, min, (uintptr_t)ret));
+        vf_cut((uintptr_t)&*portals.end() - (uintptr_t)&p);
+        vf_hint(10, (uintptr_t)&p, 0); // the numbers are not negative
+#endif
         if (p.nummightsee < min && p.status == pstat_none) {
             min = p.nummightsee;
             ret = &p;
         }
+#ifdef VERIF_SPEC
+        vf_ghost(10, (uintptr_t)&p, (uintptr_t)ret);
+#endif
     }
 
     if (ret) {
@@ -269,7 +278,15 @@ visportal_t *GetNextPortal()
 static void UpdateMightsee(visstats_t &stats, const leaf_t &source, const leaf_t &dest)
 {
     size_t leafnum = &dest - leafs.data();
-    for (visportal_t *p : source.portals) {
+    for (visportal_t *
+#ifdef VERIF_SPEC
+         const & // (the iterator is needed below)
+#endif
+             p : source.portals) {
+#ifdef VERIF_SPEC
+        vf_inv(vf_pred(12, (uintptr_t)&p, 0));
+        vf_cut((uintptr_t)&*source.portals.end() - (uintptr_t)&p);
+#endif
         if (p->status != pstat_none) {
             continue;
         }
@@ -303,6 +320,11 @@ static void PortalCompleted(visstats_t &stats, visportal_t *completed)
      */
     const leaf_t &myleaf = leafs[completed->leaf];
     for (int i = 0; i < myleaf.portals.size(); i++) {
+#ifdef VERIF_SPEC
+        vf_inv(vf_i(i) >= 0 && vf_pred(13, i, 0));
+        vf_cut(myleaf.portals.size() - i);
+        vf_ghost(13, i, 0);
+#endif
         const visportal_t *p = myleaf.portals[i];
         if (p->status != pstat_done)
             continue;
@@ -311,6 +333,11 @@ static void PortalCompleted(visstats_t &stats, visportal_t *completed)
         auto vis = p->visbits.data();
         int numblocks = (portalleafs + leafbits_t::mask) >> leafbits_t::shift;
         for (int j = 0; j < numblocks; j++) {
+#ifdef VERIF_SPEC
+            vf_inv(vf_i(j) >= 0 && vf_pred(14, i, j));
+            vf_cut(numblocks - j);
+            vf_ghost(14, j, 0);
+#endif
             uint32_t changed = might[j] & ~vis[j];
             if (!changed)
                 continue;
@@ -320,9 +347,16 @@ static void PortalCompleted(visstats_t &stats, visportal_t *completed)
              * portal, we can't update yet.
              */
             for (int k = 0; k < myleaf.portals.size(); k++) {
+#ifdef VERIF_SPEC
+                vf_inv(vf_i(k) >= 0 && vf_pred(15, changed, k));
+                vf_cut(myleaf.portals.size() - k);
+#endif
                 if (k == i)
                     continue;
                 const visportal_t *p2 = myleaf.portals[k];
+#ifdef VERIF_SPEC
+                vf_name(15, p2);
+#endif
                 if (p2->status == pstat_done)
                     changed &= ~p2->visbits.data()[j];
                 else
@@ -335,6 +369,10 @@ static void PortalCompleted(visstats_t &stats, visportal_t *completed)
              * Update mightsee for any of the changed bits that survived
              */
             while (changed) {
+#ifdef VERIF_SPEC
+                vf_inv(vf_pred(16, changed, 0));
+                vf_cut(changed);
+#endif
                 int bit = std::countr_zero(changed);
                 changed &= ~nth_bit(bit);
                 int leafnum = (j << leafbits_t::shift) + bit;
-- 
2.43.0


From d8c1ef238cbe4741801628257019cee5afab91a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:47 +0000
Subject: [PATCH 15/15] Loop contracts for reading and writing lumps
 (VERIF_SPEC)

---
 common/bspfile.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/common/bspfile.cc b/common/bspfile.cc
index 7a1d40c..ec7293f 100644
--- a/common/bspfile.cc
+++ b/common/bspfile.cc
@@ -2072,7 +2072,15 @@ struct lump_reader
         s.seekg(lump.fileofs);
 
         if (lumpspec.size > 1) {
+#ifdef VERIF_SPEC
+            vf_name(21, buffer.data());
+#endif
             for (size_t i = 0; i < length; i++) {
+#ifdef VERIF_SPEC
+                vf_inv(vf_pred(21, i, length));
+                vf_cut(length - i);
+                vf_ghost(21, i, length);
+#endif
                 T &val = buffer.emplace_back();
                 s >= val;
             }
@@ -2352,7 +2360,16 @@ private:
         lump.fileofs = stream.tellp();
 
         for (auto &v : data)
+#ifdef VERIF_SPEC
+        {
+            vf_inv(vf_pred(20, (uintptr_t)&v, 0));
+            vf_cut((uintptr_t)&*data.end() - (uintptr_t)&v);
+            vf_ghost(20, 0, 0);
+#endif
             stream <= v;
+#ifdef VERIF_SPEC
+        }
+#endif
 
         auto written = static_cast<int32_t>(stream.tellp()) - lump.fileofs;
 
-- 
2.43.0

