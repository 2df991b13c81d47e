From 3a78cfef2e69e17243f06babd6ae8e29b8947cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 01/54] fix: face extraction when a face type has no internal
 or no boundary face

---
 cfdtools/meshbase/_connectivity.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index e3be8d9..294b935 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -373,14 +373,14 @@ class elem_connectivity:
                 for tface in listfaces:
                     face_pairs[tuple(sorted(tface[0]))].append(tface)  # 50% COST
                 nf_unique = len(face_pairs)
-                assert nf_unique < nf_all
                 assert 2 * nf_unique >= nf_all
                 # extract all unique face
                 #   since reversed when created, boco faces are pointing outward
                 uniqueface_dict = dict(
                     filter(lambda tup: len(tup[1]) == 1, face_pairs.items())
                 )  # tup[1] is the value of key
-                boundaryfaces.add_elems(ftype, face_from_ufacedict(uniqueface_dict))
+                if uniqueface_dict:
+                    boundaryfaces.add_elems(ftype, face_from_ufacedict(uniqueface_dict))
                 f2c = np.full((len(uniqueface_dict), 2), -1)
                 # get index of connected cells
                 f2c[:, 0] = list(map(lambda flist: flist[0][1], uniqueface_dict.values()))
@@ -389,8 +389,9 @@ class elem_connectivity:
                 for uface in uniqueface_dict.keys():
                     face_pairs.pop(uface)
                 # get all first face of each pair of tuple (face,ielem)
-                intfaces = face_from_ufacedict(face_pairs)  # 10% COST
-                internalfaces.add_elems(ftype, intfaces)
+                if face_pairs:
+                    intfaces = face_from_ufacedict(face_pairs)  # 10% COST
+                    internalfaces.add_elems(ftype, intfaces)
                 # get all elements connections via faces
                 # get index of connected cells # 25% COST
                 f2c = np.array(
@@ -399,8 +400,9 @@ class elem_connectivity:
                             lambda flist: [flist[0][1], flist[1][1]],
                             face_pairs.values(),
                         )
-                    )
-                )
+                    ),
+                    dtype=int,
+                ).reshape(-1, 2)
                 iface2cell.append(f2c)
 
             return internalfaces, iface2cell, boundaryfaces, bface2cell
-- 
2.43.0


From 1f56e17b69dbcb3f6ccac817a90e50a80c5ec88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 02/54] fix: triangle edges missing from the default (CGNS)
 element face table

---
 cfdtools/meshbase/_elements.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfdtools/meshbase/_elements.py b/cfdtools/meshbase/_elements.py
index be7a482..7ab302b 100644
--- a/cfdtools/meshbase/_elements.py
+++ b/cfdtools/meshbase/_elements.py
@@ -62,6 +62,7 @@ def group_faces_by_type(connectivity):
 # see https://cgns.github.io/CGNS_docs_current/sids/conv.html#unst_quad
 # QUAD 4 2D
 cgns_elem2faces = {
+    'tri3': {'bar2': [[0, 1], [1, 2], [2, 0]]},
     'quad4': {'bar2': [[0, 1], [1, 2], [2, 3], [3, 0]]},
 }
 
-- 
2.43.0


From c34905ce84817788477f73f51bda9ff419ec591c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 03/54] fix: completing boundary marks replaced an existing
 mark of the same name

---
 cfdtools/meshbase/_mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index a4b57bf..bb62322 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -233,6 +233,10 @@ class Mesh:
             list_marked = self.list_boco_index()
             list_missing = list(set(self._faces['boundary']['face2node'].all_index()) - set(list_marked))
             if list_missing:
+                basename, i = name, 0
+                while name in self._bocos:  # must not replace an existing mark
+                    i += 1
+                    name = f"{basename}{i}"
                 boco = submeshmark(name)
                 boco.geodim = 'bdface'
                 boco.type = 'boundary'
-- 
2.43.0


From 3723ca07c06522d5c741caf0ee6954d032655f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 04/54] fix: empty index lists cannot be compressed nor printed

---
 cfdtools/meshbase/_connectivity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 294b935..a6e360d 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -89,7 +89,7 @@ class indexlist:
 
     def compress(self):
         """try to make it a range"""
-        if self._type == 'list':
+        if self._type == 'list' and self._list:
             if np.all(self._list == np.arange(self._list[0], self._list[0] + len(self._list))):
                 self.set_range([self._list[0], self._list[-1]])
         # else no error, keep list
@@ -105,6 +105,8 @@ class indexlist:
         if self._type == 'range':
             return f"range {self._range[0]} to {self._range[1]}"
         elif self._type == 'list':
+            if not self._list:
+                return "empty list"
             n = np.array(self._list)
             return "list min:max:size = {}:{}:{}".format(n.min(), n.max(), n.size)
 
-- 
2.43.0


From 7daad58d131de98e65740ae851667245db670ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 05/54] fix: face numbers unpacked from a flat connectivity
 were nested lists, which broke merging

---
 cfdtools/meshbase/_connectivity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index a6e360d..702c73f 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -272,8 +272,8 @@ class elem_connectivity:
         uniq, counts = np.unique(nodeperface, return_counts=True)
         for facesize, nface in zip(uniq, counts):
             typef = _elem.face_from_nnode[facesize]
-            index = np.argwhere(nodeperface == facesize)
-            zind = zconn._index[index]
+            index = np.flatnonzero(nodeperface == facesize)
+            zind = zconn._index[index].reshape(-1, 1)
             nodes = np.hstack(tuple(zconn._value[zind + i] for i in range(facesize)))
             self.add_elems(typef, nodes, indexlist(ilist=index))
 
-- 
2.43.0


From a46beb3259cff497f4a3bd1bd9826131bd3ae0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 06/54] fix: connectivity check refused valid numberings that
 are not sorted by element type

---
 cfdtools/meshbase/_connectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 702c73f..ed7a1f7 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -217,7 +217,7 @@ class elem_connectivity:
         uniq = np.unique(index)
         assert index.min() == 0
         assert index.max() == index.size - 1
-        assert np.all(uniq == index)
+        assert uniq.size == index.size
         return True
 
     # def reindexed_elems(self, etype):
-- 
2.43.0


From a31b5b924013a0ff5615df0f43fc7aaaedc721e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 07/54] fix: merging more than two connectivities gave
 overlapping numbers

---
 cfdtools/meshbase/_connectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index ed7a1f7..649add0 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -292,7 +292,7 @@ class elem_connectivity:
             np.sum([np.array(e2n['index'].list()).size for _, e2n in elemcon.items()])
             for elemcon in list_elem
         ]
-        sizes = [0] + sizes[:-1]  # start with 0, last is useless
+        sizes = [0] + np.cumsum(sizes[:-1], dtype=int).tolist()  # start with 0, last is useless
         mergedict = defaultdict(dict)
         for shift, elemcon in zip(sizes, list_elem):
             for key, elemtype in elemcon.items():
-- 
2.43.0


From d1015a446e9d3177dd737c2722c32e4af22bd1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 08/54] fix: extruded triangles had an element type unknown to
 the rest of the package

---
 cfdtools/meshbase/_elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_elements.py b/cfdtools/meshbase/_elements.py
index 7ab302b..973bfda 100644
--- a/cfdtools/meshbase/_elements.py
+++ b/cfdtools/meshbase/_elements.py
@@ -7,7 +7,7 @@ geodim = {'point': 0, 'line': 1, 'surface': 2, 'volume': 3}
 elem_properties = [
     (0, '   node1', 1, 0, '    bar2'),
     (0, '    bar2', 2, 1, '   quad4'),
-    (0, '    tri3', 3, 2, '  penta6'),
+    (0, '    tri3', 3, 2, '  prism6'),
     (0, '   quad4', 4, 2, '   hexa8'),
     (0, '  tetra4', 4, 3, '    none'),
     (0, '   pyra5', 5, 3, '    none'),
-- 
2.43.0


From d910dc3a846fab16b1572bfe7462f3bf05594ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 09/54] fix: extruded cells were numbered with the node shift
 instead of the number of cells

---
 cfdtools/meshbase/_connectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 649add0..d3f4d7f 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -439,6 +439,6 @@ class elem_connectivity:
             # print(etype, econ['elem2node'], elemcon)
             index = np.tile(econ['index'].list(), (ncell))
             for i in range(ncell):
-                index[i * nelem : (i + 1) * nelem] += i * inodeshift
+                index[i * nelem : (i + 1) * nelem] += i * self.nelem
             newcon.add_elems(_elem.extruded_face[etype], elemcon, indexlist(ilist=index.tolist()))
         return newcon
-- 
2.43.0


From 9d02c557e7031b5c3d038342933124846f5d73fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 10/54] fix: a mark without face made the IC3 export fail

---
 cfdtools/ic3/writerV2.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cfdtools/ic3/writerV2.py b/cfdtools/ic3/writerV2.py
index a7ac120..e461a7c 100644
--- a/cfdtools/ic3/writerV2.py
+++ b/cfdtools/ic3/writerV2.py
@@ -114,7 +114,11 @@ class writer:
         The bocos slicing is expressed in terms of faces.
         """
         log.info("Setting boundary conditions")
-        self.bocos = {key: boco for key, boco in self._mesh._bocos.items() if not boco.type == 'internal'}
+        self.bocos = {
+            key: boco
+            for key, boco in self._mesh._bocos.items()
+            if not boco.type == 'internal' and boco.index.size > 0  # a zone cannot be empty
+        }
         # self.bocos.pop("nfa_b")
         # self.bocos.pop("nfa_bp")
 
-- 
2.43.0


From 5018ab7a99cc781dd8bd38b19d7dbfdf046b7f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 11/54] fix: IC3 fields were attached to nodes, faces or cells
 according to their size only

---
 cfdtools/ic3/reader_legacy.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index a224267..c02f25d 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -453,6 +453,9 @@ class reader(binreader):
         fa_count = self.mesh["params"]["fa_count"]
         cv_count = self.mesh["params"]["cv_count"]
 
+        # the section id gives the location of data since sizes may be identical
+        location = {code: key[7:9] for key, code in ic3_restart_codes.items()}  # NO, FA or CV
+
         # First come the scalars
         log.info("  First the scalars...")
         reset_offset = True
@@ -477,14 +480,14 @@ class reader(binreader):
             typesize = properties_ugpcode[h.id[0]]['size']
             nptype = properties_ugpcode[h.id[0]]['numpytype']
             #
-            if h.idata[0] == no_count:
+            if location[h.id[0]] == 'NO' and h.idata[0] == no_count:
                 s = BinaryRead(self.fid, "%d" % no_count + typechar, self.byte_swap, typesize * no_count)
                 scalar = self.variables["nodes"][h.name] = np.asarray(s).astype(nptype)
                 self.nodedata.add_data(h.name, scalar)
-            elif h.idata[0] == fa_count:
+            elif location[h.id[0]] == 'FA' and h.idata[0] == fa_count:
                 s = BinaryRead(self.fid, "%d" % fa_count + typechar, self.byte_swap, typesize * fa_count)
                 scalar = self.variables["faces"][h.name] = np.asarray(s).astype(nptype)
-            elif h.idata[0] == cv_count:
+            elif location[h.id[0]] == 'CV' and h.idata[0] == cv_count:
                 ndof = self._set_ndof_properties(h.idata[1])
                 if ndof > 1:
                     self.celldata.Xrep = 'spectralcell'
@@ -526,18 +529,18 @@ class reader(binreader):
                 break
             reset_offset = False
             #
-            if h.idata[0] == no_count:
+            if location[h.id[0]] == 'NO' and h.idata[0] == no_count:
                 s = BinaryRead(
                     self.fid, "%dd" % (no_count * 3), self.byte_swap, type2nbytes["float64"] * no_count * 3
                 )
                 vector = self.variables["nodes"][h.name] = np.asarray(s).reshape((no_count, 3))
-            elif h.idata[0] == fa_count:
+            elif location[h.id[0]] == 'FA' and h.idata[0] == fa_count:
                 self.variables["faces"][h.name] = np.zeros((fa_count, 3), dtype=np.float64)
                 s = BinaryRead(
                     self.fid, "%dd" % (fa_count * 3), self.byte_swap, type2nbytes["float64"] * fa_count * 3
                 )
                 vector = self.variables["faces"][h.name] = np.asarray(s).reshape((fa_count, 3))
-            elif h.idata[0] == cv_count:
+            elif location[h.id[0]] == 'CV' and h.idata[0] == cv_count:
                 ndof = self._set_ndof_properties(h.idata[1])
                 if ndof > 1:
                     self.celldata.Xrep = 'spectralcell'
-- 
2.43.0


From 5e4eb3cfc4508b903626876549c2a0d3b9b66cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 12/54] fix: node vectors read from IC3 files were lost

---
 cfdtools/ic3/reader_legacy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index c02f25d..430561b 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -534,6 +534,7 @@ class reader(binreader):
                     self.fid, "%dd" % (no_count * 3), self.byte_swap, type2nbytes["float64"] * no_count * 3
                 )
                 vector = self.variables["nodes"][h.name] = np.asarray(s).reshape((no_count, 3))
+                self.nodedata.add_data(h.name, vector)
             elif location[h.id[0]] == 'FA' and h.idata[0] == fa_count:
                 self.variables["faces"][h.name] = np.zeros((fa_count, 3), dtype=np.float64)
                 s = BinaryRead(
-- 
2.43.0


From 7b6e9787ac697e1a148952f8e8431d423f353cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 13/54] fix: statistics weights read from an IC3 file were not
 written back

---
 cfdtools/ic3/writerV2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cfdtools/ic3/writerV2.py b/cfdtools/ic3/writerV2.py
index e461a7c..1431a96 100644
--- a/cfdtools/ic3/writerV2.py
+++ b/cfdtools/ic3/writerV2.py
@@ -138,6 +138,9 @@ class writer:
             for key in self.simstate.keys():
                 if key in refdict.keys():
                     self.simstate[key] = refdict[key]
+        # statistics weights are stored as <name>_wgt parameters by the reader
+        weights = {key[:-4]: val for key, val in self._mesh._params.items() if key.endswith('_wgt')}
+        self.simstate["wgt"] = {**weights, **self.simstate["wgt"]}
 
     def set_vars(self):
         """
-- 
2.43.0


From c2ecc5681d4ec554262367775ad808951b5b5f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 14/54] fix: zones of IC3 files were only read when they follow
 CVOFA and precede the internal zone

---
 cfdtools/ic3/reader_legacy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index 430561b..a0e000f 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -319,10 +319,12 @@ class reader(binreader):
         log.info("  Parsing boundary conditions...")
         sys.stdout.flush()
         self.mesh['bocos'] = []  # init list of bocos
+        reset_offset = True  # sections may be in any order
         while True:
             h = restartSectionHeader()
-            if not h.readVar(self.fid, self.byte_swap, ["UGP_IO_FA_ZONE"], reset_offset=False):
+            if not h.readVar(self.fid, self.byte_swap, ["UGP_IO_FA_ZONE"], reset_offset=reset_offset):
                 break
+            reset_offset = False
             # UGP_IO_FA_ZONE header
             # 3 ints: kind, face range (begin, start)
             self.mesh["params"]["nboco"] += 1
@@ -341,8 +343,6 @@ class reader(binreader):
             #
             boco.properties["slicing"] = np.unique(face2node_value[sta:sto])
             self.mesh['bocos'].append(boco)
-            if h.idata[0] == 6:
-                break
         log.info("end of boundary conditions")
         sys.stdout.flush()
 
-- 
2.43.0


From b34f5741a7ef3eb3868a9eec5bf64344f5c8f999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 15/54] fix: number of cells of the IC3 V4 reader was not set
 without solution file

---
 cfdtools/ic3/readerV4.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index fce4423..546850d 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -109,6 +109,8 @@ class reader:
             log.info("Reading connectivity...")
             self._read_connectivity(fid)
 
+        self._ncell = self.mesh['params']['cv_count']  # for generic writer and timer
+
         if self._solution_filename is None:
             return
 
@@ -120,8 +122,6 @@ class reader:
             log.info("Reading informative values...")
             self._read_informative_values(fid)
 
-            self._ncell = self.mesh['params']['cv_count']  # for generic writer and timer
-
     def export_mesh(self):
         """Export Mesh."""
         meshdata = _mesh.Mesh(self.mesh['params']['cv_count'], self.mesh['params']['no_count'])
-- 
2.43.0


From b1c0f25cc1f3cc8a39237d6d0c7ce8abbe08c79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 16/54] fix: meshes read from IC3 V4 could not be written
 (partition set to None)

---
 cfdtools/ic3/readerV4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index 546850d..80ea134 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -137,7 +137,7 @@ class reader:
         meshdata.set_facedata(self.facedata)
         meshdata.set_params(self.mesh['params'])
         meshdata.update_params(self.simulation_state)
-        if 'partition' in self.mesh.keys():
+        if self.mesh.get('partition') is not None:
             meshdata.set_partition(self.mesh['partition'])
         return meshdata
 
-- 
2.43.0


From b6af81b9f64040f82c2292119d085df5268d1609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 17/54] fix: IC3 V4 solution files without conservative
 variables could not be read back

---
 cfdtools/ic3/readerV4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index 80ea134..a8adeb2 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -300,7 +300,7 @@ class reader:
                 else:
                     print_stats_scalar(var_up, field)
 
-        read_vars(fid, ['rho', 'rhou', 'rhoe'])
+        read_vars(fid, [var for var in ['rho', 'rhou', 'rhoe'] if var in fid])
 
         if 'VolumeStats' in fid:
             read_vars(fid['VolumeStats'], fid['VolumeStats'].keys())
-- 
2.43.0


From 3f8a95b753993cb557cf764104f8d1a9bf0b24c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:06 +0000
Subject: [PATCH 18/54] fix: spectrum ignored the selected samples, refused
 selections without time and modified the caller's list

---
 cfdtools/data.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index ed853a8..6b96eca 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -124,10 +124,9 @@ class DataSet(DataSetBase):
         f = fftm.fftfreq(n, dtavg)
         newdataset = DataSet(self.Xrep, self.ndof, Trep='spectrum')
         newdataset.add_data('freq', f)
-        datalist = datafilter if datafilter else list(self.keys())
-        datalist.remove('time')
+        datalist = [name for name in (datafilter if datafilter else self.keys()) if name != 'time']
         for name in datalist:
-            newdataset.add_data(name, np.abs(fftm.fft(self[name])))
+            newdataset.add_data(name, np.abs(fftm.fft(self[name][imin:imax])))
         return newdataset
 
     def dataSet_spectrogram(self, datafilter=None, window=None):
-- 
2.43.0


From 8204a78825fc42f2b45e7a3e50203bab5440b62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:24 +0000
Subject: [PATCH 19/54] fix: spectrogram failed or had frequencies of another
 window length for most window sizes

---
 cfdtools/data.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 6b96eca..dda411c 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -131,18 +131,18 @@ class DataSet(DataSetBase):
 
     def dataSet_spectrogram(self, datafilter=None, window=None):
         lowcrop = 2
-        datalist = datafilter if datafilter else list(self.keys())
-        datalist.remove('time')
+        datalist = [name for name in (datafilter if datafilter else self.keys()) if name != 'time']
         dtavg, dtdev, ntot = self.dtstats()  # check 'timeevol'
         if dtdev / dtavg > 1.0e-6:
             log.warning(f"dt standard deviation is significant: {100*dtdev / dtavg:.4f}%")
         newdataset = DataSet(self.Xrep, self.ndof, Trep='spectrogram')
         nwind = window if window else int(ntot / 100)
         hwin = int(nwind / 2)
-        f = fftm.fftfreq(nwind, dtavg)
-        newdataset.add_data('freq', f[lowcrop : hwin + 1])
-        nit = int(2 * ntot / nwind) - 1
-        newdataset.add_data('time', (self['time'][hwin::hwin])[:-1])
+        # windows have 2*hwin+1 samples and are centered every hwin samples
+        f = fftm.rfftfreq(2 * hwin + 1, dtavg)
+        newdataset.add_data('freq', f[lowcrop:])
+        nit = (ntot - 1) // hwin - 1
+        newdataset.add_data('time', self['time'][hwin::hwin][:nit])
         for name in datalist:
             v = np.zeros((nit, hwin + 1 - lowcrop))
             # print(ntot, nit, nwind, hwin, newdataset['freq'].shape, f.shape)
-- 
2.43.0


From f54181ef1d2ac70bebdd9a2e696e39436e1a551e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:33 +0000
Subject: [PATCH 20/54] fix: time 0 of a data set was dropped

---
 cfdtools/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index dda411c..edca5a6 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -84,7 +84,7 @@ class DataSet(DataSetBase):
         self._data = dict()
 
     def add_data(self, name, data, time=None):
-        if time:
+        if time is not None:
             self._properties['time'] = time
         self._data[name] = data
 
@@ -174,7 +174,7 @@ class DataSetList(DataSetBase):
         self._datalist = []
 
     def add_datalist(self, datalist: dict, time=None):
-        if time:
+        if time is not None:
             datalist['time'] = time
         self._datalist.append(datalist)
 
-- 
2.43.0


From 40fcb37936a00e0b18685c3b136e7971de54bcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:33 +0000
Subject: [PATCH 21/54] fix: y and z coordinates of a data set could not be
 given as arrays

---
 cfdtools/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index edca5a6..08975b3 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -66,9 +66,9 @@ class DataSetBase:
     def set_nodes(self, x, y=None, z=None):
         """ """
         self._geoprop['x'] = x
-        if y:
+        if y is not None:
             self._geoprop['y'] = y
-        if z:
+        if z is not None:
             self._geoprop['z'] = z
 
     def set_mesh(self, mesh):
-- 
2.43.0


From 92073103f5fe81b9c52194b48e2f82f0aa25da10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 22/54] fix: cfdtools.data could not be imported first
 (circular import)

---
 cfdtools/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 08975b3..8b63145 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -6,7 +6,6 @@ import matplotlib.pyplot as plt
 
 import cfdtools.api as api
 import cfdtools.hdf5 as hdf5
-import cfdtools.meshbase as meshbase
 
 log = logging.getLogger(__name__)
 
@@ -244,6 +243,8 @@ class DataSetList(DataSetBase):
             file.find_safe_newfile()
         file.open(mode="w", datatype='datalist', version=self._version)
         # map element types from vtk type to cfdtools type
+        import cfdtools.meshbase as meshbase  # not at import time: meshbase needs this module
+
         if isinstance(self._geoprop['mesh'], meshbase.Mesh):
             celldict = dict(self._geoprop['mesh']._cell2node)
         else:
-- 
2.43.0


From 453a4030f51ce0cb75ba56c4736626db30bff7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 23/54] fix: a refused creation of an HDF5 file truncated the
 existing file and left it open

---
 cfdtools/hdf5/_hdf5.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/cfdtools/hdf5/_hdf5.py b/cfdtools/hdf5/_hdf5.py
index 39220d0..a9ff2e6 100755
--- a/cfdtools/hdf5/_hdf5.py
+++ b/cfdtools/hdf5/_hdf5.py
@@ -37,26 +37,27 @@ class h5File(_files):
             datatype (_type_, optional): _description_. Defaults to None.
             version (_type_, optional): _description_. Defaults to None.
         """
+        # check arguments before any file is created or truncated
+        if mode in ('w', 'w-', 'x'):
+            assert datatype in _available_types
+            if version is None:
+                error_stop('an existing cfdtools datatype must provide a version number for writing')
+        elif mode not in ('r', 'r+'):
+            error_stop("unknown mode for opening h5 file")
         try:
             self._h5file = h5py.File(self._path, mode=mode)
         except NameError:
             raise NameError(f"{self._path} can not be open in {mode} mode.")
         if mode in ('w', 'w-', 'x'):
-            assert datatype in _available_types
             self._h5file.attrs.update({'cfdtools_version': __version__, 'cfd_datatype': datatype})
-            if datatype is not None and (version is None):
-                error_stop('an existing cfdtools datatype must provide a version number for writing')
-            if datatype is not None:
-                self._h5file.attrs.update({'data_version': version})
-        elif mode in ('r', 'r+'):
+            self._h5file.attrs.update({'data_version': version})
+        else:
             # only for cgns file (I guess)
             self._h5ver = self._h5file.get(' hdf5version', None)
             self._datatype = self._h5file.attrs.get('cfd_datatype', None)
             self._cfdtools_version = self._h5file.attrs.get('cfdtools_version', None)
             # if datatype, read or set to 0 (backward compatibility) else ignore
             self._version = self._h5file.attrs.get('data_version', 0 if self._datatype else None)
-        else:
-            error_stop("unknown mode for opening h5 file")
         self._openedmode = mode
 
     def close(self):
-- 
2.43.0


From a4d554abe1d5689bdb8c3331fb0a6b604e08e320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:09 +0000
Subject: [PATCH 24/54] fix: information on an HDF5 file being written could
 not be printed

---
 cfdtools/hdf5/_hdf5.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfdtools/hdf5/_hdf5.py b/cfdtools/hdf5/_hdf5.py
index a9ff2e6..20da933 100755
--- a/cfdtools/hdf5/_hdf5.py
+++ b/cfdtools/hdf5/_hdf5.py
@@ -28,6 +28,8 @@ class h5File(_files):
         self._openedmode = None
         self._datatype = None
         self._cfdtools_version = None
+        self._h5ver = None
+        self._version = None
 
     def open(self, mode='r', datatype=None, version=None):
         """open hdf5 file and parse some version info
-- 
2.43.0


From 58b0bc146a5334eb07d496e4f7ab97223bf927d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 25/54] fix: cfdwritecube ignored the output folder and
 overwrote existing files

---
 cfdtools/_cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cfdtools/_cli.py b/cfdtools/_cli.py
index 044cf32..8fdb6b5 100644
--- a/cfdtools/_cli.py
+++ b/cfdtools/_cli.py
@@ -319,6 +319,10 @@ def cfdwritecube(argv=None):
     mesh = cube.export_mesh()
     #
     file = api._files(parser.args().filename)
+    if parser.args().outpath is not None:
+        file.change_dir(parser.args().outpath)
+    if file.find_safe_newfile():
+        log.info("change output to safe new name " + file.filename)
     w = parser._writer(mesh)
     w.write_data(file.filename)
     return file.filename  # filename needed for pytest (for eventual rm)
-- 
2.43.0


From 3d00e3314f7bf661962b0d30dff1174239512dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:48 +0000
Subject: [PATCH 26/54] fix: probe maps used a colormap function removed from
 matplotlib

---
 cfdtools/plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cfdtools/plot.py b/cfdtools/plot.py
index 6e378e3..34009a6 100644
--- a/cfdtools/plot.py
+++ b/cfdtools/plot.py
@@ -1,10 +1,11 @@
 # plot.py
 import matplotlib
+import matplotlib.pyplot as plt
 
 
 def normalizeCmap(cmapStr, nBins):
-    colormap = matplotlib.cm.get_cmap(cmapStr, nBins)
+    colormap = plt.get_cmap(cmapStr, nBins)
     if isinstance(colormap, matplotlib.colors.LinearSegmentedColormap):
         return matplotlib.colors.LinearSegmentedColormap(cmapStr, segmentdata=colormap._segmentdata, N=nBins)
     else:
-        return matplotlib.colors.ListedColormap(matplotlib.cm.get_cmap(cmapStr, nBins).colors)
+        return matplotlib.colors.ListedColormap(plt.get_cmap(cmapStr, nBins).colors)
-- 
2.43.0


From ff425416b374d4432017f226b8db508c8d1b6379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:48 +0000
Subject: [PATCH 27/54] fix: probe maps only took the first letter of the
 variable name

---
 cfdtools/probes/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/probes/plot.py b/cfdtools/probes/plot.py
index 8a3e373..d6cce02 100644
--- a/cfdtools/probes/plot.py
+++ b/cfdtools/probes/plot.py
@@ -29,7 +29,7 @@ def check_axis(axisdata):
 def plot_timemap(data, **kwargs):
     basename = kwargs.get('prefix')
     axis = kwargs.get('axis')
-    var = kwargs.get('datalist')[0]
+    var = kwargs.get('datalist')
     cmap, nlevels = kwargs['cmap'], kwargs['nlevels']
     figname = basename + "." + var + ".time.png"
     fig = plt.figure(1, figsize=(10, 8))
@@ -63,7 +63,7 @@ def plot_timemap(data, **kwargs):
 def plot_freqmap(data, **kwargs):
     basename = kwargs.get('prefix')
     axis = kwargs.get('axis')
-    var = kwargs.get('datalist')[0]
+    var = kwargs.get('datalist')
     cmap, nlevels = kwargs['cmap'], kwargs['nlevels']
     figname = basename + "." + var + ".freq.png"
     t = data.alldata["time"]
-- 
2.43.0


From faf1d7c2a3cf6b580e43caca4cfb6ed9f467b4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:48 +0000
Subject: [PATCH 28/54] fix: probe maps failed when the axis file has several
 lines

---
 cfdtools/probes/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/probes/plot.py b/cfdtools/probes/plot.py
index d6cce02..7f82702 100644
--- a/cfdtools/probes/plot.py
+++ b/cfdtools/probes/plot.py
@@ -15,7 +15,7 @@ def check_axis(axisdata):
         axis = np.mean(axisdata, axis=0)
         # print(axis.shape)
         err = np.mean(axisdata**2, axis=0) - axis**2
-        log.info(f"min:avg:max change of several axis {err.shape}: {list(*minavgmax(err))}")
+        log.info(f"min:avg:max change of several axis {err.shape}: {list(minavgmax(err))}")
         log.warning(
             "several lines for axis: they are merged (average change is {:.2e})".format(
                 np.sqrt(np.mean(np.abs(err)))
-- 
2.43.0


From 6f4cae5d70c9912fa70db17259974f58532af079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:48 +0000
Subject: [PATCH 29/54] fix: verbose frequency maps logged a malformed message

---
 cfdtools/probes/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/probes/plot.py b/cfdtools/probes/plot.py
index 7f82702..2264300 100644
--- a/cfdtools/probes/plot.py
+++ b/cfdtools/probes/plot.py
@@ -85,7 +85,7 @@ def plot_freqmap(data, **kwargs):
     f = fftm.fftfreq(n, dtavg)
     psdmap = np.abs(fftm.fft(data.alldata[var] - np.average(data.alldata[var]), axis=0))
     if kwargs['verbose']:
-        log.info(data.alldata[var].shape, n, psdmap.shape, f.shape)
+        log.info('- sizes are (data, n, psd, freq) %r %r %r %r', data.alldata[var].shape, n, psdmap.shape, f.shape)
     colmap = cfdplt.normalizeCmap(cmap, nlevels)
     axis = check_axis(data.alldata[axis])
     plt.contourf(
-- 
2.43.0


From 63dc185e0b2ce32ddd48da447031506e9686f7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 30/54] fix: cell volumes of a VTK mesh could not be asked
 twice

---
 cfdtools/vtk/_vtk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index c2d25ad..24c97a2 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -169,7 +169,7 @@ class vtkMesh:
         return lines
 
     def volumes(self):
-        if not self._volume:
+        if self._volume is None:
             self._volume = self._grid.compute_cell_sizes().cell_data["Volume"]
         return self._volume
 
-- 
2.43.0


From 58840384210f525d23c0584bb60b7ab523d846ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:05 +0000
Subject: [PATCH 31/54] fix: VTK series accepted a grid that does not cover all
 cells of the first one

---
 cfdtools/vtk/_vtkList.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cfdtools/vtk/_vtkList.py b/cfdtools/vtk/_vtkList.py
index e89705e..293d2a8 100644
--- a/cfdtools/vtk/_vtkList.py
+++ b/cfdtools/vtk/_vtkList.py
@@ -84,6 +84,8 @@ class vtkList:
             namelist = filterdata if filterdata else vtk.cell_data.keys()
             Tcomp.start()
             ctr = vtk.cell_centers().points
+            if ctr.shape != ctrRef.shape:
+                raise ValueError(f"  {name} has {ctr.shape[0]} cells instead of {self._ncell}")
             d = np.max(maths.distance(ctrRef, ctr))
             Tcomp.pause()
             if d > tol:  # should be sized by domain size
@@ -103,6 +105,8 @@ class vtkList:
                     log.error(f"  max distance is above tolerance {tol}: {np.count_nonzero(dfinal > tol)} cells incriminated")
                     log.error(f"  min:avg:max = {dmin:.2e}:{davg:.2e}:{dmax:.2e}")
                     raise ValueError("  max distance is above tolerance")
+                if np.unique(index).size != self._ncell:
+                    raise ValueError("  several cells match the same reference cell")
                 Tsort.pause()
                 # automatically deals with different shapes
                 datalist = {name: vtk.cell_data[name][rindex] for name in namelist}
-- 
2.43.0


From fa2d82c3545aa3332fce12afbf39654301c68b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:26 +0000
Subject: [PATCH 32/54] fix: the XDMF index of a packed series overwrote an
 existing file

---
 cfdtools/vtk/_vtkList.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cfdtools/vtk/_vtkList.py b/cfdtools/vtk/_vtkList.py
index 293d2a8..d791e83 100644
--- a/cfdtools/vtk/_vtkList.py
+++ b/cfdtools/vtk/_vtkList.py
@@ -134,10 +134,10 @@ class vtkList:
         self._data.set_mesh(vtkmesh.export_mesh())
         actual_filename = self._data.dumphdf(filename, overwrite=overwrite, **options)
         if xdmf:
-            self._dumpxdmf(actual_filename, vtkmesh, self._data)
+            self._dumpxdmf(actual_filename, vtkmesh, self._data, overwrite=overwrite)
         return actual_filename
 
-    def _dumpxdmf(self, filepath: str, vtkmesh: vtkMesh, data: DataSetList):
+    def _dumpxdmf(self, filepath: str, vtkmesh: vtkMesh, data: DataSetList, overwrite: bool = False):
         """Create the XMF file associated to the single HDF5 file created by dumphdf()."""
 
         def xdmf_domain(content):
@@ -155,5 +155,8 @@ class vtkList:
         content = xdmf_domain(geom_dat_content)
 
         # write the XMF file
-        with open(os.path.splitext(filepath)[0] + ".xmf", "w") as fid:
+        xmffile = api._files(os.path.splitext(filepath)[0] + ".xmf")
+        if not overwrite:
+            xmffile.find_safe_newfile()
+        with open(xmffile.filename, "w") as fid:
             fid.write('\n'.join(content))
-- 
2.43.0


From 6d9415b8f11a587690bf8e19dc812902ba959519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:33 +0000
Subject: [PATCH 33/54] fix: the XDMF index of a series packed in another
 folder pointed to a missing file

---
 cfdtools/vtk/_vtkList.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cfdtools/vtk/_vtkList.py b/cfdtools/vtk/_vtkList.py
index d791e83..7c69ac9 100644
--- a/cfdtools/vtk/_vtkList.py
+++ b/cfdtools/vtk/_vtkList.py
@@ -149,9 +149,11 @@ class vtkList:
             return lines
 
         # get the XDMF content for the mesh geometry and topology
-        geometry_content = vtkmesh.xdmf_content(filepath)
+        # (the HDF5 file is next to the XMF file, to which the paths are relative)
+        h5name = os.path.basename(filepath)
+        geometry_content = vtkmesh.xdmf_content(h5name)
         # get the XDMF content for the time data series
-        geom_dat_content = data.xdmf_content(filepath, geometry_content)
+        geom_dat_content = data.xdmf_content(h5name, geometry_content)
         content = xdmf_domain(geom_dat_content)
 
         # write the XMF file
-- 
2.43.0


From 89a53b6da190f52a7abee2974c5d2d979eefde32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 34/54] fix: packed cell data of a VTK series did not follow
 the cells of the packed mesh when types are interleaved

---
 cfdtools/vtk/_vtkList.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cfdtools/vtk/_vtkList.py b/cfdtools/vtk/_vtkList.py
index 7c69ac9..948872f 100644
--- a/cfdtools/vtk/_vtkList.py
+++ b/cfdtools/vtk/_vtkList.py
@@ -131,10 +131,18 @@ class vtkList:
         :rtype: str
         """
         vtkmesh = vtkMesh(pvmesh=self._mesh)
-        self._data.set_mesh(vtkmesh.export_mesh())
-        actual_filename = self._data.dumphdf(filename, overwrite=overwrite, **options)
+        # cells are grouped by type in the dumped mesh: data must follow
+        celltypes = self._mesh.celltypes
+        order = np.concatenate([np.nonzero(celltypes == itype)[0] for itype in self._mesh.cells_dict])
+        data = DataSetList(self.nfile, Xrep='cellaverage', Trep='instant')
+        for datalist in self._data._datalist:
+            data.add_datalist(
+                {name: var if name in data._property_names else var[order] for name, var in datalist.items()}
+            )
+        data.set_mesh(vtkmesh.export_mesh())
+        actual_filename = data.dumphdf(filename, overwrite=overwrite, **options)
         if xdmf:
-            self._dumpxdmf(actual_filename, vtkmesh, self._data, overwrite=overwrite)
+            self._dumpxdmf(actual_filename, vtkmesh, data, overwrite=overwrite)
         return actual_filename
 
     def _dumpxdmf(self, filepath: str, vtkmesh: vtkMesh, data: DataSetList, overwrite: bool = False):
-- 
2.43.0


From b7abefdd34040e9a0c9f8e61388d12db594c30f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 35/54] fix: averaging accepted planes whose cells do not match
 one to one

---
 cfdtools/vtk/_vtk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index 24c97a2..e811962 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -324,6 +324,9 @@ class vtkMesh:
                         log.error(f"  max distance is above tolerance {tol}: {np.count_nonzero(dfinal > tol)} cells incriminated")
                         log.error(f"  min:avg:max = {dmin:.2e}:{davg:.2e}:{dmax:.2e}")
                         raise ValueError("  max distance is above tolerance")
+                    if np.unique(index).size != chunksize:
+                        log.error("  several cells of a plane match the same cell of the first plane")
+                        raise ValueError("  cells of planes do not match one to one")
                     ikplanes[i, index] = chunk
         # check
         # shape of xypos[ikplanes] is (nchunk, chunksize, 2)
-- 
2.43.0


From 2ffb9e62828df947f25283208abb124c80675b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 36/54] fix: nodes of the last block of GMSH 4 files were not
 read when it holds a single node

---
 cfdtools/gmsh/reader.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 1e87df5..d6caeca 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -314,21 +314,19 @@ class reader(api._files):
         # Find the coordinates.
         log.info("  parse Nodes")
         coords = self.__get_section_from_name(msh, "$Nodes")
+        # header is: numEntityBlocks, numNodes, minIndex, maxIndex
         nnodes = int(coords[0][3])
-        nodes = 1
-        count = 1
         counter = 1
         x = [None] * (nnodes)
         y = [None] * (nnodes)
         z = [None] * (nnodes)
-        while nodes < nnodes:
+        for _ in range(int(coords[0][0])):
             cnt = int(coords[counter][3])
             for i in range(counter + 1, counter + cnt + 1):
                 pos = int(coords[i][0]) - 1
                 x[pos] = float(coords[i + cnt][0])
                 y[pos] = float(coords[i + cnt][1])
                 z[pos] = float(coords[i + cnt][2])
-            nodes += cnt
             counter = counter + 2 * cnt + 1
 
         # Find the elements.
-- 
2.43.0


From f0f492b9cc1f361986d752a96a2387a6a257b2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 37/54] fix: physical groups of GMSH 4 entities were mixed
 between dimensions, read from wrong columns or missing on curves

---
 cfdtools/gmsh/reader.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index d6caeca..054a119 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -300,16 +300,16 @@ class reader(api._files):
 
         # To find the entity number used for concatenation of the mesh.
         # The returned values corresponds to the physical group
-        def find_ent(j):
+        # dict of (dimension, entity tag): physical tag (0 if none)
+        physical = {}
+        if ["$Entities"] in msh:
             entities = self.__get_section_from_name(msh, "$Entities")
-            addd = 0  # temporary variable to seek the line and return
-            bot = int(entities[0][0]) + int(entities[0][1])
-            top = int(entities[0][2]) + bot
-            for i in range(bot, top + 1):
-                if j == int(entities[i][0]) and len(entities[i]) >= 8:
-                    addd = int(entities[i][8])
-                    break
-            return addd
+            iline = 1
+            for dim in range(4):
+                iphys = 4 if dim == 0 else 7  # after tag and position or bounding box
+                for line in entities[iline : iline + int(entities[0][dim])]:
+                    physical[dim, int(line[0])] = abs(int(line[iphys + 1])) if int(line[iphys]) else 0
+                iline += int(entities[0][dim])
 
         # Find the coordinates.
         log.info("  parse Nodes")
@@ -340,10 +340,10 @@ class reader(api._files):
         # entityblock: dimEntity EntityIndex ElemType numElements
         # elements: ElementIndex NodesIndex
         for i in range(0, neltypes):
-            a = int(elements[count][2])  # dimension
+            a = int(elements[count][2])  # element type
             b = int(2)  # No. of tags
             d = int(elements[count][1])  # Entity group
-            c = find_ent(d)  # Physical group
+            c = physical.get((int(elements[count][0]), d), 0)  # Physical group
             nxtrange = int(elements[count][3])
             for j in range(count + 1, count + nxtrange + 1):
                 elt1 = [int(k) for k in elements[j]]
-- 
2.43.0


From c437b8d6be3aef224727d6de7fd4c69a74f9cc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 38/54] fix: node tags of GMSH files were ignored (version 2)
 or expected to be contiguous (version 4)

---
 cfdtools/gmsh/reader.py | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 054a119..72c0eeb 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -43,10 +43,11 @@ class reader(api._files):
 
         # Read file.
         filename = self.filename
-        fam, bctype, x, y, z, elts = self.__read_sections(filename)
+        fam, bctype, nodes, elts = self.__read_sections(filename)
 
         # fam: dict with index: family name
         # bctype: dict with name: type
+        # nodes: dict with node tag: coordinates
         # elts: list of list[index, element type, x, x, x, nodes index ]
         log.info("Analyze...")
 
@@ -112,14 +113,16 @@ class reader(api._files):
                     bnd2fam[bnd_tag] = bnd_fam
                     bnd_connect += 1
         log.info(f"    tags are {bnd2fam}")
-        # Reindex connectivities
+        # Reindex connectivities: nodes are sorted by tag, which may be any positive integers
+        tags = np.array(sorted(nodes), dtype=int)
+        x, y, z = ([nodes[tag][i] for tag in tags.tolist()] for i in range(3))
         # Element-to-vertex
         for elt_type in connectivity.keys():
-            connectivity[elt_type] = np.array(connectivity[elt_type]) - 1
+            connectivity[elt_type] = np.searchsorted(tags, connectivity[elt_type])
         # Boundary patches element-to-vertex
         for bnd_tag in connect_bc.keys():
             for elt_type in connect_bc[bnd_tag].keys():
-                connect_bc[bnd_tag][elt_type] = np.array(connect_bc[bnd_tag][elt_type]) - 1
+                connect_bc[bnd_tag][elt_type] = np.searchsorted(tags, connect_bc[bnd_tag][elt_type])
 
         # Fill the dictionary of boundary conditions
         self._famm = []
@@ -262,9 +265,7 @@ class reader(api._files):
         log.info("  parse Nodes")
         coords = self.__get_section_from_name(msh, "$Nodes")
         nnodes = int(coords[0][0])
-        x = [float(coords[i][1]) for i in range(1, nnodes + 1)]
-        y = [float(coords[i][2]) for i in range(1, nnodes + 1)]
-        z = [float(coords[i][3]) for i in range(1, nnodes + 1)]
+        nodes = {int(line[0]): [float(c) for c in line[1:4]] for line in coords[1 : nnodes + 1]}
 
         # Find the elements.
         log.info("  parse Elements")
@@ -274,7 +275,7 @@ class reader(api._files):
         for i in range(1, nelems + 1):
             elts.append([int(j) for j in elements[i]])
 
-        return fam, bctype, x, y, z, elts
+        return fam, bctype, nodes, elts
 
     def __read_sections_V4(self, msh):
         # ------------------------------------------
@@ -315,18 +316,12 @@ class reader(api._files):
         log.info("  parse Nodes")
         coords = self.__get_section_from_name(msh, "$Nodes")
         # header is: numEntityBlocks, numNodes, minIndex, maxIndex
-        nnodes = int(coords[0][3])
+        nodes = {}
         counter = 1
-        x = [None] * (nnodes)
-        y = [None] * (nnodes)
-        z = [None] * (nnodes)
         for _ in range(int(coords[0][0])):
             cnt = int(coords[counter][3])
             for i in range(counter + 1, counter + cnt + 1):
-                pos = int(coords[i][0]) - 1
-                x[pos] = float(coords[i + cnt][0])
-                y[pos] = float(coords[i + cnt][1])
-                z[pos] = float(coords[i + cnt][2])
+                nodes[int(coords[i][0])] = [float(c) for c in coords[i + cnt][:3]]
             counter = counter + 2 * cnt + 1
 
         # Find the elements.
@@ -354,7 +349,7 @@ class reader(api._files):
                 elts.append(elt1)
             count += nxtrange + 1
 
-        return fam, bctype, x, y, z, elts
+        return fam, bctype, nodes, elts
 
     def __read_sections(self, filename):
         # Read the entire mesh.
-- 
2.43.0


From 36bcbba007fb8137774adda3f4f20eea0fc2d6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 39/54] fix: GMSH physical names with spaces were truncated

---
 cfdtools/gmsh/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 72c0eeb..c53f7f2 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -357,7 +357,8 @@ class reader(api._files):
         log.info(f"Reading file {filename!r}...")
         with open(filename) as fid:
             for l in fid:
-                msh.append(l.split())
+                head, quote, name = l.partition('"')  # names may include spaces
+                msh.append(head.split() + ([quote + name.rstrip()] if quote else []))
         log.info(" done")
 
         # Find version of the GMSH used
-- 
2.43.0


From 9f930a797eb3f02e3f2d2be421440ae63ce56e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 40/54] fix: GMSH physical groups of different dimensions
 sharing a number were mixed, and groups without name refused

---
 cfdtools/gmsh/reader.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index c53f7f2..defb485 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -45,7 +45,7 @@ class reader(api._files):
         filename = self.filename
         fam, bctype, nodes, elts = self.__read_sections(filename)
 
-        # fam: dict with index: family name
+        # fam: dict with (dimension, index): family name
         # bctype: dict with name: type
         # nodes: dict with node tag: coordinates
         # elts: list of list[index, element type, x, x, x, nodes index ]
@@ -128,7 +128,8 @@ class reader(api._files):
         self._famm = []
         if fam is not None:  # B.C. are defined
             for bnd_tag in bnd.keys():
-                family = fam[str(bnd2fam[bnd_tag])]
+                # physical tags are specific to each dimension; groups may have no name
+                family = fam.get((self._maxdim - 1, bnd2fam[bnd_tag]), "fluid")
                 if family != "fluid":
                     self.__create_bnd(
                         boundaries,
@@ -253,7 +254,7 @@ class reader(api._files):
             fam = {}
             bctype = {}
             for i in range(1, int(families[0][0]) + 1):
-                fam[families[i][1]] = families[i][2][1:-1]
+                fam[int(families[i][0]), int(families[i][1])] = families[i][2][1:-1]
                 bctype[families[i][2][1:-1]] = families[i][0]
             log.info(f"    found Physical names {fam}")
             log.info(f"    found Entities {bctype}")
@@ -291,7 +292,7 @@ class reader(api._files):
             fam = {}
             bctype = {}
             for i in range(1, int(families[0][0]) + 1):
-                fam[families[i][1]] = families[i][2][1:-1]
+                fam[int(families[i][0]), int(families[i][1])] = families[i][2][1:-1]
                 bctype[families[i][2][1:-1]] = families[i][0]
             log.info(f"    found Physical names {fam}")
             log.info(f"    found Entities {bctype}")
-- 
2.43.0


From 659671e6a6bb0417939fc4543f4a059b1e3ef166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:38 +0000
Subject: [PATCH 41/54] fix: GMSH elements belonging to several physical groups
 were only attached to one of them

---
 cfdtools/gmsh/reader.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index defb485..b38575b 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -71,10 +71,14 @@ class reader(api._files):
         self._ncell = 0
         log.info("  extract volume connectivity")
         bnd_connect = 1
+        cell_tags = set()
         for elt in elts:
             if elt[1] in gmshtype_elem.keys():
                 elt_type = gmshtype_elem[elt[1]]
                 if elt_type in mesh_elt:
+                    if elt[0] in cell_tags:  # cell belonging to several physical groups
+                        continue
+                    cell_tags.add(elt[0])
                     self._ncell += 1
                     if elt_type not in connectivity.keys():
                         connectivity[elt_type] = []
@@ -97,8 +101,8 @@ class reader(api._files):
                     ntag = elt[2]  # expected to be 2
                     # bnd_tag = elt[2 + tag]
                     # bnd_fam = elt[2 + tag - 1]
-                    bnd_tag = elt[4]
                     bnd_fam = elt[3]
+                    bnd_tag = (elt[4], bnd_fam)  # an entity may belong to several physical groups
                     if bnd_tag not in connect_bc.keys():
                         connect_bc[bnd_tag] = collections.defaultdict(list)
                     # if elt_type in connect_bc[bnd_tag].keys():
@@ -302,7 +306,7 @@ class reader(api._files):
 
         # To find the entity number used for concatenation of the mesh.
         # The returned values corresponds to the physical group
-        # dict of (dimension, entity tag): physical tag (0 if none)
+        # dict of (dimension, entity tag): list of physical tags
         physical = {}
         if ["$Entities"] in msh:
             entities = self.__get_section_from_name(msh, "$Entities")
@@ -310,7 +314,8 @@ class reader(api._files):
             for dim in range(4):
                 iphys = 4 if dim == 0 else 7  # after tag and position or bounding box
                 for line in entities[iline : iline + int(entities[0][dim])]:
-                    physical[dim, int(line[0])] = abs(int(line[iphys + 1])) if int(line[iphys]) else 0
+                    nphys = int(line[iphys])
+                    physical[dim, int(line[0])] = [abs(int(t)) for t in line[iphys + 1 : iphys + 1 + nphys]]
                 iline += int(entities[0][dim])
 
         # Find the coordinates.
@@ -339,15 +344,12 @@ class reader(api._files):
             a = int(elements[count][2])  # element type
             b = int(2)  # No. of tags
             d = int(elements[count][1])  # Entity group
-            c = physical.get((int(elements[count][0]), d), 0)  # Physical group
+            groups = physical.get((int(elements[count][0]), d)) or [0]  # Physical groups
             nxtrange = int(elements[count][3])
             for j in range(count + 1, count + nxtrange + 1):
                 elt1 = [int(k) for k in elements[j]]
-                elt1.insert(1, a)
-                elt1.insert(2, b)
-                elt1.insert(3, c)
-                elt1.insert(4, d)
-                elts.append(elt1)
+                for c in groups:  # as in version 2, one line for each physical group
+                    elts.append([elt1[0], a, b, c, d, *elt1[1:]])
             count += nxtrange + 1
 
         return fam, bctype, nodes, elts
-- 
2.43.0


From 3475a9050290e89a3610f9d65ac49521f3d36e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:08 +0000
Subject: [PATCH 42/54] fix: CGNS tetrahedra, pyramids and prisms were refused

---
 cfdtools/cgns/cgns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index 40a6306..189d8b6 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -18,7 +18,7 @@ import cfdtools.meshbase._elements as _elem
 log = logging.getLogger(__name__)
 
 cgtype = {}
-ele_cgns2local = {2: 'node1', 3: 'bar2', 5: 'tri3', 7: 'quad4', 17: 'hexa8'}
+ele_cgns2local = {2: 'node1', 3: 'bar2', 5: 'tri3', 7: 'quad4', 10: 'tetra4', 12: 'pyra5', 14: 'prism6', 17: 'hexa8'}
 
 
 def cgnstype(obj):
-- 
2.43.0


From 83d4d0a6d2ad5053115b3a2bcd119bd4778ad887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:27 +0000
Subject: [PATCH 43/54] fix: CGNS cells were not numbered from 0 when other
 elements come first in the file

---
 cfdtools/cgns/cgns.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index 189d8b6..28f22fa 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -69,22 +69,24 @@ class cgnszone:
         z = self._zone['GridCoordinates']['CoordinateZ/ data'][:]
         return x, y, z
 
-    def elemcon(self, geodim):
+    def elemcon(self, geodim, renumber=False):
+        """connectivity of elements of dimension geodim, with the element numbers of the file (starting at 0)
+        or numbered from 0 in the same order"""
         cellconn = _conn.elem_connectivity()
-        for _, elements in self._elems.items():
+        for elements in sorted(self._elems.values(), key=lambda e: e["ElementRange/ data"][0]):
             cgnstype = elements[" data"][0]
             etype = ele_cgns2local[cgnstype]
             nnode = _elem.nnode_elem[etype]
             # extract cell connectivity only
             if _elem.dim_elem[etype] == geodim:
-                index = _conn.indexlist(irange=elements["ElementRange/ data"][:] - 1)
+                index = None if renumber else _conn.indexlist(irange=elements["ElementRange/ data"][:] - 1)
                 econ = elements["ElementConnectivity/ data"][:].reshape((-1, nnode))
                 econ -= 1  # shift node index (starts 0)
                 cellconn.add_elems(etype, econ, index)
         return cellconn
 
     def export_cellcon(self):
-        return self.elemcon(self._geodim)
+        return self.elemcon(self._geodim, renumber=True)
 
     # @memoize
     @cache
-- 
2.43.0


From 46d15049f3c0617494e8fb30e734a8367378bde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:27 +0000
Subject: [PATCH 44/54] fix: CGNS boundary conditions with as many faces as
 cells in the mesh were dropped

---
 cfdtools/cgns/cgns.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index 28f22fa..3eb65e7 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -109,7 +109,8 @@ class cgnszone:
         elif "ElementList" in BC.keys():  # not in CGNS norm
             indexlist = (BC["ElementList/ data"][:] - 1).ravel().tolist()
             gridloc = "FaceCenter"
-            if len(indexlist) == self.ncell:
+            cellindex = self.elemcon(self._geodim).all_index()
+            if set(indexlist) == set(cellindex):
                 gridloc = "CellCenter"
                 boco.type = 'internal'
         else:
-- 
2.43.0


From a6f58b624ba4a1f4064a6cb6c1f995be8667e88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:27 +0000
Subject: [PATCH 45/54] fix: only the last CGNS boundary condition of a family
 was kept

---
 cfdtools/cgns/cgns.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index 3eb65e7..116e4ad 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -207,6 +207,9 @@ class cgnsMesh:
             if boco.type in ['internal']:
                 log.info(f"  filter internal mark {boco.name}")
             else:
+                if boco.name in meshdata._bocos:  # several boundary conditions of the same family
+                    nodes = set(meshdata.seekmark(boco.name).index.list()) | set(boco.index.list())
+                    boco.index = _conn.indexlist(ilist=sorted(nodes))
                 log.info(f"  add boco {boco}")
                 meshdata.add_boco(boco)
         # meshdata.check()
-- 
2.43.0


From 07a03f84e1bd6a4d3a4b90cc57b05977d49d25bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:27 +0000
Subject: [PATCH 46/54] fix: a CGNS grid connectivity replaced the boundary
 condition of the same name

---
 cfdtools/cgns/cgns.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index 116e4ad..4b2a82c 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -52,8 +52,9 @@ class cgnszone:
         self._zonebc.update(dict_cgnstype(zone, b"ZoneGridConnectivity_t"))
         self._BCs = {}
         for zbc in self._zonebc.values():
-            self._BCs.update(dict_cgnstype(zbc, b'BC_t'))
-            self._BCs.update(dict_cgnstype(zbc, b'GridConnectivity_t'))
+            # names are only unique in each group
+            for cgtype in (b'BC_t', b'GridConnectivity_t'):
+                self._BCs.update({bc.name: bc for bc in dict_cgnstype(zbc, cgtype).values()})
 
     @property
     def nnode(self):
-- 
2.43.0


From 5f07f4fe9833437db7ef0a5506f8b4f95d910c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:27 +0000
Subject: [PATCH 47/54] fix: CGNS files of physical dimension 2 were refused

---
 cfdtools/cgns/cgns.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index 4b2a82c..a1208f3 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -2,6 +2,8 @@
 import logging
 from pathlib import Path
 
+import numpy as np
+
 try:
     from functools import cache  # python >= 3.9
 except ImportError:
@@ -67,7 +69,10 @@ class cgnszone:
     def coords(self):
         x = self._zone['GridCoordinates']['CoordinateX/ data'][:]
         y = self._zone['GridCoordinates']['CoordinateY/ data'][:]
-        z = self._zone['GridCoordinates']['CoordinateZ/ data'][:]
+        if 'CoordinateZ' in self._zone['GridCoordinates']:
+            z = self._zone['GridCoordinates']['CoordinateZ/ data'][:]
+        else:  # physical dimension is 2
+            z = np.zeros_like(x)
         return x, y, z
 
     def elemcon(self, geodim, renumber=False):
-- 
2.43.0


From f8bb8de009283b71fefa03a519acf923998b2ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 48/54] fix: cell and node data were not removed from the mesh
 by pop_celldata and pop_nodedata

---
 cfdtools/meshbase/_mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index bb62322..c5b36ad 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -324,10 +324,10 @@ class Mesh:
         self._cellprop['partition'] = partition
 
     def pop_nodedata(self, name):
-        return self._nodedata.pop(name) if name in self._nodedata.keys() else None
+        return self._nodedata.data.pop(name, None) if self._nodedata else None
 
     def pop_celldata(self, name):
-        return self._celldata.data[name] if self._celldata else None
+        return self._celldata.data.pop(name, None) if self._celldata else None
 
     def reindex_boundaryfaces(self):
         assert (
-- 
2.43.0


From 9b37697cb38ba2b5b86febee14c039fdeeadd86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 49/54] fix: the converters ignored --remove-node-data

---
 cfdtools/_cli.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cfdtools/_cli.py b/cfdtools/_cli.py
index 8fdb6b5..b38ae43 100644
--- a/cfdtools/_cli.py
+++ b/cfdtools/_cli.py
@@ -225,6 +225,12 @@ def write_generic(argv, ext, writer, fname=None):
                 log.info(f"  cannot find cell data {var}")
             else:
                 log.info(f"  pop cell data {var}")
+    if parser.args().remove_node_data:
+        for var in parser.args().remove_node_data:
+            if cfdmesh.pop_nodedata(var) is None:
+                log.info(f"  cannot find node data {var}")
+            else:
+                log.info(f"  pop node data {var}")
     #
     if parser.args().outpath is None:
         file.remove_dir()
-- 
2.43.0


From f0c09d7cca58cfc8541c7639e1f1f139eedfdba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:41 +0000
Subject: [PATCH 50/54] fix: cfdinfo raised on every CGNS file

---
 cfdtools/cgns/cgns.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index a1208f3..9931f86 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -155,8 +155,9 @@ class cgnsfile(h5File):
 
 @fileformat_reader('CGNS', '.cgns')
 class cgnsMesh:
-    def __init__(self, filename) -> None:
+    def __init__(self, filename, cIntegrity=False) -> None:
         self._filename = filename
+        self.check_integrity = cIntegrity
         self._ncell = None
 
     @property
-- 
2.43.0


From 33abe873cd1bdf46c926e8dd5ac9173a2e47cf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:29 +0000
Subject: [PATCH 51/54] fix: commands run from a shell ended with an error
 status after success

---
 cfdtools/_cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cfdtools/_cli.py b/cfdtools/_cli.py
index b38ae43..ae774f0 100644
--- a/cfdtools/_cli.py
+++ b/cfdtools/_cli.py
@@ -44,7 +44,9 @@ def cli_header(prefix=None, altfname=None):
                 fname = prefix + fname
             func.__globals__['__fname__'] = fname  # need noqa: F821 for flake8 if using __fname__
             log.info(f"CFDTOOLS - {fname}")
-            return func(*args, **kwargs)
+            result = func(*args, **kwargs)
+            # when run from a shell (no argument list given), the returned value would be an exit status
+            return result if args or kwargs else None
 
         return decorator
 
-- 
2.43.0


From 672dbdaf0940548f7b40e7366c96e36eae97d6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:03 +0000
Subject: [PATCH 52/54] fix: generating the faces again left face marks on the
 numbers of other faces

---
 cfdtools/meshbase/_mesh.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index c5b36ad..9051705 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -415,9 +415,28 @@ class Mesh:
             boundfaces,
             boundf2c,
         ) = self._cell2node.create_faces_from_elems()
+        oldnodes = self._facenodes()
         self.pop_faces('mixed')  # remove if it exists
         self.add_faces('internal', intfaces, intf2c)
         self.add_faces('boundary', boundfaces, boundf2c)
+        if oldnodes:  # face marks must follow their faces
+            newindex = {nodes: i for i, nodes in self._facenodes().items()}
+            for name, boco in self._bocos.items():
+                if boco.facebased():
+                    newboco = submeshmark(name)
+                    newboco.geodim = boco.geodim
+                    newboco.properties = boco.properties
+                    newboco.index = _conn.indexlist(ilist=[newindex[oldnodes[i]] for i in boco.index.list()])
+                    self._bocos[name] = newboco
+
+    def _facenodes(self):
+        """dict of the (sorted) nodes of each face, internal faces being numbered after boundary faces"""
+        shift = self._faces['boundary']['face2node'].nelem if 'boundary' in self._faces else 0
+        return {
+            i + (shift if facetype == 'internal' else 0): tuple(sorted(nodes))
+            for facetype, fdict in self._faces.items()
+            for i, nodes in fdict['face2node'].index_elem_tuples()
+        }
 
     def check(self):
         """check a consistent mesh with adequate boundary conditions"""
-- 
2.43.0


From 29eb353c816417bd91d7836890903fdfa09e1f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:11 +0000
Subject: [PATCH 53/54] fix: meshes read from GMSH files could not be scaled

---
 cfdtools/meshbase/_mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index 9051705..f13fff7 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -132,9 +132,9 @@ class Mesh:
     def set_nodescoord_xyz(self, x, y, z):
         for c in [x, y, z]:
             assert len(c) == self.nnode
-        self._nodes['x'] = x
-        self._nodes['y'] = y
-        self._nodes['z'] = z
+        self._nodes['x'] = np.asarray(x)
+        self._nodes['y'] = np.asarray(y)
+        self._nodes['z'] = np.asarray(z)
 
     def nodescoord(self, ndarray=False):
         coords = tuple(self._nodes[c] for c in ['x', 'y', 'z'])
-- 
2.43.0


From dedc4cd1685b0f224e45ccd6f4f7e3d1a992e625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:59 +0000
Subject: [PATCH 54/54] fix: an interrupted IC3 V4 export left a file taken for
 a complete one

---
 cfdtools/ic3/readerV4.py |  4 ++++
 cfdtools/ic3/writerV4.py | 14 ++++++++------
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index a8adeb2..4d78f09 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -116,6 +116,10 @@ class reader:
 
         log.debug(f"Opening file {self._solution_filename!r}")
         with h5py.File(self._solution_filename, "r") as fid:
+            for name in ("step", "time"):
+                if name not in fid.attrs:
+                    raise ValueError(f"incomplete solution file: missing required attribute {name!r}")
+
             log.info("Reading variables...")
             self._read_variables(fid)
 
diff --git a/cfdtools/ic3/writerV4.py b/cfdtools/ic3/writerV4.py
index dfdc07f..82ce1de 100644
--- a/cfdtools/ic3/writerV4.py
+++ b/cfdtools/ic3/writerV4.py
@@ -40,9 +40,6 @@ class writer(writerV2.writer):
         log.info(f"> Writing file {mesh_filename!r}")
         # Open the mesh file
         with h5py.File(mesh_filename, "w") as fid:
-            log.info("> Writing mesh attributes")
-            self._write_root_attributes(fid)
-
             log.info("> Writing coordinates")
             self._write_coordinates(fid)
 
@@ -59,6 +56,10 @@ class writer(writerV2.writer):
             # log.info("> Writing variables")
             # self._write_mesh_vars(fid)
 
+            # required by the readers: written last, a file whose writing was interrupted is not taken for a mesh
+            log.info("> Writing mesh attributes")
+            self._write_root_attributes(fid)
+
             log.info("> End of Mesh File")
 
         if solution_filename is None:
@@ -67,15 +68,16 @@ class writer(writerV2.writer):
         # Open the solution file
         log.info(f"> Writing file {solution_filename!r}")
         with h5py.File(solution_filename, "w") as fid:
-            log.info("> Writing solution attributes")
-            self._write_root_solution_attributes(fid)
-
             log.info("> Writing variables")
             self._write_solution_vars(fid)
 
             log.info("> Writing statistics")
             self._write_solution_stats(fid)
 
+            # required by the readers: written last, as those of the mesh
+            log.info("> Writing solution attributes")
+            self._write_root_solution_attributes(fid)
+
             log.info("> End of Solution File")
 
     def _write_root_attributes(self, fid: h5py.File):
-- 
2.43.0

