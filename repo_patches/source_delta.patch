From f391281af0954cddab158cc32ae98a6af11ed061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 01/30] fix: compressing an empty index list raised IndexError

---
 cfdtools/meshbase/_connectivity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index e3be8d9..4c396c1 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -90,7 +90,9 @@ class indexlist:
     def compress(self):
         """try to make it a range"""
         if self._type == 'list':
-            if np.all(self._list == np.arange(self._list[0], self._list[0] + len(self._list))):
+            if not self._list:
+                self.set_range([0, -1])  # empty range
+            elif np.all(self._list == np.arange(self._list[0], self._list[0] + len(self._list))):
                 self.set_range([self._list[0], self._list[-1]])
         # else no error, keep list
 
-- 
2.43.0


From ec0756d4d99eb0d77feba019982ea416dd9f8593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 02/30] fix: IC3 V4 boundary offsets gave the faces of a mark
 to an empty mark

---
 cfdtools/ic3/writerV4.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cfdtools/ic3/writerV4.py b/cfdtools/ic3/writerV4.py
index dfdc07f..fb35c75 100644
--- a/cfdtools/ic3/writerV4.py
+++ b/cfdtools/ic3/writerV4.py
@@ -168,7 +168,10 @@ class writer(writerV2.writer):
         min_range.append(ifmin)
         max_range.append(ifmax)
 
-        min_range, labels, kinds = zip(*sorted(zip(min_range, labels, kinds), key=lambda x: x[0]))
+        # sort by first then last face since an empty mark must come before the mark starting at same face
+        min_range, _, labels, kinds = zip(
+            *sorted(zip(min_range, max_range, labels, kinds), key=lambda x: x[:2])
+        )
         min_range = list(min_range)
         min_range.append(ifmax)
 
-- 
2.43.0


From 2437bb80e2769593f4f76abdd94cf2f9eaae1aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 03/30] fix: faces imported from compressed index had nested
 lists as index

---
 cfdtools/meshbase/_connectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 4c396c1..fb55e45 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -275,7 +275,7 @@ class elem_connectivity:
             index = np.argwhere(nodeperface == facesize)
             zind = zconn._index[index]
             nodes = np.hstack(tuple(zconn._value[zind + i] for i in range(facesize)))
-            self.add_elems(typef, nodes, indexlist(ilist=index))
+            self.add_elems(typef, nodes, indexlist(ilist=index.ravel()))
 
     # @profile
     def exportto_compressedindex(self) -> compressed_listofindex:
-- 
2.43.0


From acc2d32ecf110c6fca5c680dbd0db674edec277a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 04/30] fix: face extraction failed if a face type has no
 internal or no boundary face

---
 cfdtools/meshbase/_connectivity.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index fb55e45..5a8dbbd 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -361,12 +361,16 @@ class elem_connectivity:
             iface2cell = indexindirection()  #
             bface2cell = indexindirection()  #
 
-            def face_from_ufacedict(uface_dict):
-                return np.array(list(map(lambda flist: flist[0][0], uface_dict.values())))
+            def face_from_ufacedict(uface_dict, nnode):
+                faces = list(map(lambda flist: flist[0][0], uface_dict.values()))
+                return np.array(faces, dtype=int).reshape((-1, nnode))  # keep shape if no face
 
             # find pairs for a given face type
             for ftype, listfaces in faces_neighbour.items():
                 nf_all = len(listfaces)
+                if nf_all == 0:
+                    continue
+                nnode = len(listfaces[0][0])
                 # build a dict of "sorted node" face with list of tuple (face, elem)
                 # face_pairs = dict()
                 # for uface, facepair in groupby(listfaces, lambda tup: tuple(sorted(tup[0]))):
@@ -375,14 +379,14 @@ class elem_connectivity:
                 for tface in listfaces:
                     face_pairs[tuple(sorted(tface[0]))].append(tface)  # 50% COST
                 nf_unique = len(face_pairs)
-                assert nf_unique < nf_all
+                assert nf_unique <= nf_all
                 assert 2 * nf_unique >= nf_all
                 # extract all unique face
                 #   since reversed when created, boco faces are pointing outward
                 uniqueface_dict = dict(
                     filter(lambda tup: len(tup[1]) == 1, face_pairs.items())
                 )  # tup[1] is the value of key
-                boundaryfaces.add_elems(ftype, face_from_ufacedict(uniqueface_dict))
+                boundaryfaces.add_elems(ftype, face_from_ufacedict(uniqueface_dict, nnode))
                 f2c = np.full((len(uniqueface_dict), 2), -1)
                 # get index of connected cells
                 f2c[:, 0] = list(map(lambda flist: flist[0][1], uniqueface_dict.values()))
@@ -391,7 +395,7 @@ class elem_connectivity:
                 for uface in uniqueface_dict.keys():
                     face_pairs.pop(uface)
                 # get all first face of each pair of tuple (face,ielem)
-                intfaces = face_from_ufacedict(face_pairs)  # 10% COST
+                intfaces = face_from_ufacedict(face_pairs, nnode)  # 10% COST
                 internalfaces.add_elems(ftype, intfaces)
                 # get all elements connections via faces
                 # get index of connected cells # 25% COST
@@ -401,8 +405,9 @@ class elem_connectivity:
                             lambda flist: [flist[0][1], flist[1][1]],
                             face_pairs.values(),
                         )
-                    )
-                )
+                    ),
+                    dtype=int,
+                ).reshape((-1, 2))
                 iface2cell.append(f2c)
 
             return internalfaces, iface2cell, boundaryfaces, bface2cell
-- 
2.43.0


From 1e3608c23126e0468c72e7ee67206fca10c76aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 05/30] fix: extruded triangles were named with an unknown
 element type

---
 cfdtools/meshbase/_elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_elements.py b/cfdtools/meshbase/_elements.py
index be7a482..e72c178 100644
--- a/cfdtools/meshbase/_elements.py
+++ b/cfdtools/meshbase/_elements.py
@@ -7,7 +7,7 @@ geodim = {'point': 0, 'line': 1, 'surface': 2, 'volume': 3}
 elem_properties = [
     (0, '   node1', 1, 0, '    bar2'),
     (0, '    bar2', 2, 1, '   quad4'),
-    (0, '    tri3', 3, 2, '  penta6'),
+    (0, '    tri3', 3, 2, '  prism6'),
     (0, '   quad4', 4, 2, '   hexa8'),
     (0, '  tetra4', 4, 3, '    none'),
     (0, '   pyra5', 5, 3, '    none'),
-- 
2.43.0


From 179f22d2f54508695831b77b418361c97921646d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 06/30] fix: extruded cells were numbered with node shift and
 got gaps or collisions

---
 cfdtools/meshbase/_connectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 5a8dbbd..d51bc3d 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -442,6 +442,6 @@ class elem_connectivity:
             # print(etype, econ['elem2node'], elemcon)
             index = np.tile(econ['index'].list(), (ncell))
             for i in range(ncell):
-                index[i * nelem : (i + 1) * nelem] += i * inodeshift
+                index[i * nelem : (i + 1) * nelem] += i * self.nelem
             newcon.add_elems(_elem.extruded_face[etype], elemcon, indexlist(ilist=index.tolist()))
         return newcon
-- 
2.43.0


From a8edb7fb2d8b0d856e7e57a4fd5258e1fb29476b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 07/30] fix: extruded bars were crossed quadrangles

---
 cfdtools/meshbase/_connectivity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index d51bc3d..6f01f81 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -439,6 +439,8 @@ class elem_connectivity:
             elemcon[:, fnnode : 2 * fnnode] += inodeshift
             for i in range(ncell):
                 elemcon[i * nelem : (i + 1) * nelem, :] += i * inodeshift
+            if etype == 'bar2':  # nodes of quad4 must turn around
+                elemcon = elemcon[:, [0, 1, 3, 2]]
             # print(etype, econ['elem2node'], elemcon)
             index = np.tile(econ['index'].list(), (ncell))
             for i in range(ncell):
-- 
2.43.0


From 7d3725f9d19b5732985239e4cae87df094ab2fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 08/30] fix: IC3 data were read on the wrong support if nodes,
 faces or cells have the same count

---
 cfdtools/ic3/reader_legacy.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index a224267..ada465a 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -452,6 +452,11 @@ class reader(binreader):
         no_count = self.mesh["params"]["no_count"]
         fa_count = self.mesh["params"]["fa_count"]
         cv_count = self.mesh["params"]["cv_count"]
+        # support of data is given by section id since counts of nodes, faces and cells may be equal
+        node_ids, face_ids, cell_ids = (
+            [code for key, code in ic3_restart_codes.items() if key.startswith(prefix)]
+            for prefix in ("UGP_IO_NO_", "UGP_IO_FA_", "UGP_IO_CV_")
+        )
 
         # First come the scalars
         log.info("  First the scalars...")
@@ -477,14 +482,14 @@ class reader(binreader):
             typesize = properties_ugpcode[h.id[0]]['size']
             nptype = properties_ugpcode[h.id[0]]['numpytype']
             #
-            if h.idata[0] == no_count:
+            if h.id[0] in node_ids and h.idata[0] == no_count:
                 s = BinaryRead(self.fid, "%d" % no_count + typechar, self.byte_swap, typesize * no_count)
                 scalar = self.variables["nodes"][h.name] = np.asarray(s).astype(nptype)
                 self.nodedata.add_data(h.name, scalar)
-            elif h.idata[0] == fa_count:
+            elif h.id[0] in face_ids and h.idata[0] == fa_count:
                 s = BinaryRead(self.fid, "%d" % fa_count + typechar, self.byte_swap, typesize * fa_count)
                 scalar = self.variables["faces"][h.name] = np.asarray(s).astype(nptype)
-            elif h.idata[0] == cv_count:
+            elif h.id[0] in cell_ids and h.idata[0] == cv_count:
                 ndof = self._set_ndof_properties(h.idata[1])
                 if ndof > 1:
                     self.celldata.Xrep = 'spectralcell'
@@ -526,18 +531,18 @@ class reader(binreader):
                 break
             reset_offset = False
             #
-            if h.idata[0] == no_count:
+            if h.id[0] in node_ids and h.idata[0] == no_count:
                 s = BinaryRead(
                     self.fid, "%dd" % (no_count * 3), self.byte_swap, type2nbytes["float64"] * no_count * 3
                 )
                 vector = self.variables["nodes"][h.name] = np.asarray(s).reshape((no_count, 3))
-            elif h.idata[0] == fa_count:
+            elif h.id[0] in face_ids and h.idata[0] == fa_count:
                 self.variables["faces"][h.name] = np.zeros((fa_count, 3), dtype=np.float64)
                 s = BinaryRead(
                     self.fid, "%dd" % (fa_count * 3), self.byte_swap, type2nbytes["float64"] * fa_count * 3
                 )
                 vector = self.variables["faces"][h.name] = np.asarray(s).reshape((fa_count, 3))
-            elif h.idata[0] == cv_count:
+            elif h.id[0] in cell_ids and h.idata[0] == cv_count:
                 ndof = self._set_ndof_properties(h.idata[1])
                 if ndof > 1:
                     self.celldata.Xrep = 'spectralcell'
-- 
2.43.0


From 33f4db2bc7f16ca24a7c597902e348838211e792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 09/30] fix: IC3 node vectors were read but not stored in node
 data

---
 cfdtools/ic3/reader_legacy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index ada465a..59f634c 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -536,6 +536,7 @@ class reader(binreader):
                     self.fid, "%dd" % (no_count * 3), self.byte_swap, type2nbytes["float64"] * no_count * 3
                 )
                 vector = self.variables["nodes"][h.name] = np.asarray(s).reshape((no_count, 3))
+                self.nodedata.add_data(h.name, vector)
             elif h.id[0] in face_ids and h.idata[0] == fa_count:
                 self.variables["faces"][h.name] = np.zeros((fa_count, 3), dtype=np.float64)
                 s = BinaryRead(
-- 
2.43.0


From 3939d9c48114766abd9906aaa7703891caea0428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 10/30] fix: averaging weights read from IC3 file were not
 written again

---
 cfdtools/ic3/writerV2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cfdtools/ic3/writerV2.py b/cfdtools/ic3/writerV2.py
index a7ac120..86e26a4 100644
--- a/cfdtools/ic3/writerV2.py
+++ b/cfdtools/ic3/writerV2.py
@@ -134,6 +134,9 @@ class writer:
             for key in self.simstate.keys():
                 if key in refdict.keys():
                     self.simstate[key] = refdict[key]
+            # averaging weights are read as separate '*_wgt' parameters
+            wgt = {key[:-4]: value for key, value in refdict.items() if key.endswith('_wgt')}
+            self.simstate['wgt'] = {**self.simstate['wgt'], **wgt}
 
     def set_vars(self):
         """
-- 
2.43.0


From 329a98cd1f2558b4690f7c4cb390b8256566b330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 11/30] fix: IC3 internal zone missed the first face of meshes
 without boundary faces

---
 cfdtools/ic3/writerV2.py | 2 +-
 cfdtools/ic3/writerV4.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/ic3/writerV2.py b/cfdtools/ic3/writerV2.py
index 86e26a4..bdb92a8 100644
--- a/cfdtools/ic3/writerV2.py
+++ b/cfdtools/ic3/writerV2.py
@@ -328,7 +328,7 @@ class writer:
         # print('cellofface', self.f2e.ravel().tolist() )
         # Face zones, a.k.a boundary condition patches
         log.info("  marks (face based)")
-        last_boco = 0
+        last_boco = -1
         for key, boco in self.bocos.items():
             assert key == boco.name
             assert boco.geodim in ('face', 'bdface'), "boco marks must be faces index"
diff --git a/cfdtools/ic3/writerV4.py b/cfdtools/ic3/writerV4.py
index fb35c75..d795fd0 100644
--- a/cfdtools/ic3/writerV4.py
+++ b/cfdtools/ic3/writerV4.py
@@ -132,7 +132,7 @@ class writer(writerV2.writer):
         # Face zones, a.k.a boundary condition patches
         log.debug("  Markers of faces / Face zones / boundary condition patches")
         bnd_group = fid.create_group("Boundaries")
-        last_boco = 0
+        last_boco = -1
         labels = []
         kinds = []
         max_range = []
-- 
2.43.0


From 0c024bcce76f274d533bb006f461e5748f58dbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 12/30] fix: IC3 V4 reader had no cell count when read without
 solution file

---
 cfdtools/ic3/readerV4.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index fce4423..7028057 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -109,6 +109,8 @@ class reader:
             log.info("Reading connectivity...")
             self._read_connectivity(fid)
 
+            self._ncell = self.mesh['params']['cv_count']  # for generic writer and timer
+
         if self._solution_filename is None:
             return
 
@@ -120,8 +122,6 @@ class reader:
             log.info("Reading informative values...")
             self._read_informative_values(fid)
 
-            self._ncell = self.mesh['params']['cv_count']  # for generic writer and timer
-
     def export_mesh(self):
         """Export Mesh."""
         meshdata = _mesh.Mesh(self.mesh['params']['cv_count'], self.mesh['params']['no_count'])
-- 
2.43.0


From 19d88223f1db0038cedf3ba88a8de23a91bcbdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 13/30] fix: removing mesh data did not remove cell data and
 failed with datasets

---
 cfdtools/data.py           | 3 +++
 cfdtools/meshbase/_mesh.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index ed853a8..6e24f09 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -105,6 +105,9 @@ class DataSet(DataSetBase):
     def __getitem__(self, name):
         return self._data[name]
 
+    def pop(self, name):
+        return self._data.pop(name)
+
     def dtstats(self, imin=None, imax=None):
         assert self.Trep == 'timeevol' and 'time' in self.keys()
         t = self._data['time'][imin:imax]
diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index a4b57bf..0020d04 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -323,7 +323,7 @@ class Mesh:
         return self._nodedata.pop(name) if name in self._nodedata.keys() else None
 
     def pop_celldata(self, name):
-        return self._celldata.data[name] if self._celldata else None
+        return self._celldata.pop(name) if name in self._celldata.keys() else None
 
     def reindex_boundaryfaces(self):
         assert (
-- 
2.43.0


From 1cd4f8cad24419bf55592f8314cbc8765b60614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 14/30] fix: option --remove-node-data was ignored

---
 cfdtools/_cli.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cfdtools/_cli.py b/cfdtools/_cli.py
index 044cf32..ea1626f 100644
--- a/cfdtools/_cli.py
+++ b/cfdtools/_cli.py
@@ -226,6 +226,13 @@ def write_generic(argv, ext, writer, fname=None):
             else:
                 log.info(f"  pop cell data {var}")
     #
+    if parser.args().remove_node_data:
+        for var in parser.args().remove_node_data:
+            if cfdmesh.pop_nodedata(var) is None:
+                log.info(f"  cannot find node data {var}")
+            else:
+                log.info(f"  pop node data {var}")
+    #
     if parser.args().outpath is None:
         file.remove_dir()
     else:
-- 
2.43.0


From eb9dd0684ef00c6100bad91454e79becd02e8222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 15/30] fix: GMSH V4 reader ignored a last block of one node

---
 cfdtools/gmsh/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 1e87df5..c0640b5 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -315,7 +315,7 @@ class reader(api._files):
         log.info("  parse Nodes")
         coords = self.__get_section_from_name(msh, "$Nodes")
         nnodes = int(coords[0][3])
-        nodes = 1
+        nodes = 0
         count = 1
         counter = 1
         x = [None] * (nnodes)
-- 
2.43.0


From cc74d216251b74f28a52fa782ce82b6f5727c45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 16/30] fix: GMSH V2 reader ignored node numbers

---
 cfdtools/gmsh/reader.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index c0640b5..c30cf7b 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -262,9 +262,12 @@ class reader(api._files):
         log.info("  parse Nodes")
         coords = self.__get_section_from_name(msh, "$Nodes")
         nnodes = int(coords[0][0])
-        x = [float(coords[i][1]) for i in range(1, nnodes + 1)]
-        y = [float(coords[i][2]) for i in range(1, nnodes + 1)]
-        z = [float(coords[i][3]) for i in range(1, nnodes + 1)]
+        x = [None] * (nnodes)
+        y = [None] * (nnodes)
+        z = [None] * (nnodes)
+        for i in range(1, nnodes + 1):
+            pos = int(coords[i][0]) - 1
+            x[pos], y[pos], z[pos] = (float(c) for c in coords[i][1:4])
 
         # Find the elements.
         log.info("  parse Elements")
-- 
2.43.0


From 9fbe9293e40c60f5a5b2703cba0aafb1503fbcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 17/30] fix: GMSH V4 reader mixed entities of different
 dimensions to find physical groups

---
 cfdtools/gmsh/reader.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index c30cf7b..4e1eaf4 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -303,16 +303,15 @@ class reader(api._files):
 
         # To find the entity number used for concatenation of the mesh.
         # The returned values corresponds to the physical group
-        def find_ent(j):
+        def find_ent(dim, tag):
             entities = self.__get_section_from_name(msh, "$Entities")
-            addd = 0  # temporary variable to seek the line and return
-            bot = int(entities[0][0]) + int(entities[0][1])
-            top = int(entities[0][2]) + bot
-            for i in range(bot, top + 1):
-                if j == int(entities[i][0]) and len(entities[i]) >= 8:
-                    addd = int(entities[i][8])
-                    break
-            return addd
+            nent = [int(n) for n in entities[0]]  # number of points, curves, surfaces, volumes
+            first = 1 + sum(nent[:dim])
+            iphys = 4 if dim == 0 else 7  # after tag and position of point or bounding box
+            for entity in entities[first : first + nent[dim]]:
+                if tag == int(entity[0]):
+                    return int(entity[iphys + 1]) if int(entity[iphys]) > 0 else 0
+            return 0
 
         # Find the coordinates.
         log.info("  parse Nodes")
@@ -348,7 +347,7 @@ class reader(api._files):
             a = int(elements[count][2])  # dimension
             b = int(2)  # No. of tags
             d = int(elements[count][1])  # Entity group
-            c = find_ent(d)  # Physical group
+            c = find_ent(int(elements[count][0]), d)  # Physical group
             nxtrange = int(elements[count][3])
             for j in range(count + 1, count + nxtrange + 1):
                 elt1 = [int(k) for k in elements[j]]
-- 
2.43.0


From 08b96a0c8770333486b9209a783f6696936b5811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 18/30] fix: GMSH physical names with spaces were truncated

---
 cfdtools/gmsh/reader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 4e1eaf4..ad48bbb 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -250,8 +250,8 @@ class reader(api._files):
             fam = {}
             bctype = {}
             for i in range(1, int(families[0][0]) + 1):
-                fam[families[i][1]] = families[i][2][1:-1]
-                bctype[families[i][2][1:-1]] = families[i][0]
+                fam[families[i][1]] = ' '.join(families[i][2:])[1:-1]
+                bctype[' '.join(families[i][2:])[1:-1]] = families[i][0]
             log.info(f"    found Physical names {fam}")
             log.info(f"    found Entities {bctype}")
         else:
@@ -293,8 +293,8 @@ class reader(api._files):
             fam = {}
             bctype = {}
             for i in range(1, int(families[0][0]) + 1):
-                fam[families[i][1]] = families[i][2][1:-1]
-                bctype[families[i][2][1:-1]] = families[i][0]
+                fam[families[i][1]] = ' '.join(families[i][2:])[1:-1]
+                bctype[' '.join(families[i][2:])[1:-1]] = families[i][0]
             log.info(f"    found Physical names {fam}")
             log.info(f"    found Entities {bctype}")
         else:
-- 
2.43.0


From bc326aeb70c21970fe1854bd2c5bb130e1baa568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 19/30] fix: GMSH physical tags used in several dimensions or
 missing gave wrong marks or errors

---
 cfdtools/gmsh/reader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index ad48bbb..f518abc 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -125,7 +125,8 @@ class reader(api._files):
         self._famm = []
         if fam is not None:  # B.C. are defined
             for bnd_tag in bnd.keys():
-                family = fam[str(bnd2fam[bnd_tag])]
+                # physical tags are only unique for a given dimension ; tag is 0 if no physical group
+                family = fam.get((str(self._maxdim - 1), str(bnd2fam[bnd_tag])), "fluid")
                 if family != "fluid":
                     self.__create_bnd(
                         boundaries,
@@ -250,7 +251,7 @@ class reader(api._files):
             fam = {}
             bctype = {}
             for i in range(1, int(families[0][0]) + 1):
-                fam[families[i][1]] = ' '.join(families[i][2:])[1:-1]
+                fam[families[i][0], families[i][1]] = ' '.join(families[i][2:])[1:-1]
                 bctype[' '.join(families[i][2:])[1:-1]] = families[i][0]
             log.info(f"    found Physical names {fam}")
             log.info(f"    found Entities {bctype}")
@@ -293,7 +294,7 @@ class reader(api._files):
             fam = {}
             bctype = {}
             for i in range(1, int(families[0][0]) + 1):
-                fam[families[i][1]] = ' '.join(families[i][2:])[1:-1]
+                fam[families[i][0], families[i][1]] = ' '.join(families[i][2:])[1:-1]
                 bctype[' '.join(families[i][2:])[1:-1]] = families[i][0]
             log.info(f"    found Physical names {fam}")
             log.info(f"    found Entities {bctype}")
-- 
2.43.0


From a5d7fbf864313ee372dc08ed68f6dab07d1526e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 20/30] fix: meshes with coordinates set as lists could not be
 scaled

---
 cfdtools/meshbase/_mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index 0020d04..9bbe25f 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -132,9 +132,9 @@ class Mesh:
     def set_nodescoord_xyz(self, x, y, z):
         for c in [x, y, z]:
             assert len(c) == self.nnode
-        self._nodes['x'] = x
-        self._nodes['y'] = y
-        self._nodes['z'] = z
+        self._nodes['x'] = np.asarray(x)
+        self._nodes['y'] = np.asarray(y)
+        self._nodes['z'] = np.asarray(z)
 
     def nodescoord(self, ndarray=False):
         coords = tuple(self._nodes[c] for c in ['x', 'y', 'z'])
-- 
2.43.0


From fb6ba9f2c574a41415f52b0a6e3cf1600abca19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 21/30] fix: null time value was not stored with data

---
 cfdtools/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 6e24f09..d1d9171 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -84,7 +84,7 @@ class DataSet(DataSetBase):
         self._data = dict()
 
     def add_data(self, name, data, time=None):
-        if time:
+        if time is not None:
             self._properties['time'] = time
         self._data[name] = data
 
@@ -178,7 +178,7 @@ class DataSetList(DataSetBase):
         self._datalist = []
 
     def add_datalist(self, datalist: dict, time=None):
-        if time:
+        if time is not None:
             datalist['time'] = time
         self._datalist.append(datalist)
 
-- 
2.43.0


From 8d71ce234c9b57da340ed227291f7b1eee19cf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 22/30] fix: spectra changed the caller's list and ignored the
 requested window

---
 cfdtools/data.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index d1d9171..f7ac3bd 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -127,16 +127,14 @@ class DataSet(DataSetBase):
         f = fftm.fftfreq(n, dtavg)
         newdataset = DataSet(self.Xrep, self.ndof, Trep='spectrum')
         newdataset.add_data('freq', f)
-        datalist = datafilter if datafilter else list(self.keys())
-        datalist.remove('time')
+        datalist = [name for name in (datafilter if datafilter else self.keys()) if name != 'time']
         for name in datalist:
-            newdataset.add_data(name, np.abs(fftm.fft(self[name])))
+            newdataset.add_data(name, np.abs(fftm.fft(self[name][imin:imax])))
         return newdataset
 
     def dataSet_spectrogram(self, datafilter=None, window=None):
         lowcrop = 2
-        datalist = datafilter if datafilter else list(self.keys())
-        datalist.remove('time')
+        datalist = [name for name in (datafilter if datafilter else self.keys()) if name != 'time']
         dtavg, dtdev, ntot = self.dtstats()  # check 'timeevol'
         if dtdev / dtavg > 1.0e-6:
             log.warning(f"dt standard deviation is significant: {100*dtdev / dtavg:.4f}%")
-- 
2.43.0


From 94560378c3eb9a1c6c411068bf1b817b9d13e5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 23/30] fix: spectrogram axes were inconsistent with windows

---
 cfdtools/data.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index f7ac3bd..210f5c4 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -141,10 +141,10 @@ class DataSet(DataSetBase):
         newdataset = DataSet(self.Xrep, self.ndof, Trep='spectrogram')
         nwind = window if window else int(ntot / 100)
         hwin = int(nwind / 2)
-        f = fftm.fftfreq(nwind, dtavg)
-        newdataset.add_data('freq', f[lowcrop : hwin + 1])
-        nit = int(2 * ntot / nwind) - 1
-        newdataset.add_data('time', (self['time'][hwin::hwin])[:-1])
+        f = fftm.rfftfreq(2 * hwin + 1, dtavg)
+        newdataset.add_data('freq', f[lowcrop:])
+        nit = (ntot - 1) // hwin - 1  # number of full windows of size 2*hwin+1
+        newdataset.add_data('time', (self['time'][hwin::hwin])[:nit])
         for name in datalist:
             v = np.zeros((nit, hwin + 1 - lowcrop))
             # print(ntot, nit, nwind, hwin, newdataset['freq'].shape, f.shape)
-- 
2.43.0


From 588dc1aa0270b0d0f75bf91bc22eeff5a4179dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 24/30] fix: VTK files with other number of cells or duplicated
 cells were not refused

---
 cfdtools/vtk/_vtkList.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cfdtools/vtk/_vtkList.py b/cfdtools/vtk/_vtkList.py
index e89705e..8bd2427 100644
--- a/cfdtools/vtk/_vtkList.py
+++ b/cfdtools/vtk/_vtkList.py
@@ -84,6 +84,8 @@ class vtkList:
             namelist = filterdata if filterdata else vtk.cell_data.keys()
             Tcomp.start()
             ctr = vtk.cell_centers().points
+            if ctr.shape != ctrRef.shape:
+                raise ValueError(f"  number of cells is different in {name}")
             d = np.max(maths.distance(ctrRef, ctr))
             Tcomp.pause()
             if d > tol:  # should be sized by domain size
@@ -103,6 +105,8 @@ class vtkList:
                     log.error(f"  max distance is above tolerance {tol}: {np.count_nonzero(dfinal > tol)} cells incriminated")
                     log.error(f"  min:avg:max = {dmin:.2e}:{davg:.2e}:{dmax:.2e}")
                     raise ValueError("  max distance is above tolerance")
+                if np.unique(index).size != index.size:
+                    raise ValueError("  several cells at the same position")
                 Tsort.pause()
                 # automatically deals with different shapes
                 datalist = {name: vtk.cell_data[name][rindex] for name in namelist}
-- 
2.43.0


From 673fb04a9f71e7cc08dfc566a0bcf93be3da13bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 25/30] fix: merging more than two or empty connectivities gave
 wrong index shifts

---
 cfdtools/meshbase/_connectivity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 6f01f81..2c70801 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -289,10 +289,10 @@ class elem_connectivity:
     def importfrom_merge(self, list_elem):
         # computes size of all elem_connectivity
         sizes = [
-            np.sum([np.array(e2n['index'].list()).size for _, e2n in elemcon.items()])
+            sum([len(e2n['index'].list()) for _, e2n in elemcon.items()])
             for elemcon in list_elem
         ]
-        sizes = [0] + sizes[:-1]  # start with 0, last is useless
+        sizes = np.cumsum([0] + sizes[:-1]).tolist()  # start with 0, last is useless
         mergedict = defaultdict(dict)
         for shift, elemcon in zip(sizes, list_elem):
             for key, elemtype in elemcon.items():
-- 
2.43.0


From 5ceab74e2b0464561c9a95b7d49205b9cdd98472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 26/30] fix: meshes read from IC3 V4 could not be written to
 IC3 V2/V3

---
 cfdtools/ic3/readerV4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index 7028057..fd83382 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -137,7 +137,7 @@ class reader:
         meshdata.set_facedata(self.facedata)
         meshdata.set_params(self.mesh['params'])
         meshdata.update_params(self.simulation_state)
-        if 'partition' in self.mesh.keys():
+        if self.mesh['partition'] is not None:
             meshdata.set_partition(self.mesh['partition'])
         return meshdata
 
-- 
2.43.0


From 9ea71ebfed9e188866a3f96f4af2c23114046d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 27/30] fix: planes with duplicated cells were not refused by
 averaging

---
 cfdtools/vtk/_vtk.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index c2d25ad..1d6a702 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -324,6 +324,8 @@ class vtkMesh:
                         log.error(f"  max distance is above tolerance {tol}: {np.count_nonzero(dfinal > tol)} cells incriminated")
                         log.error(f"  min:avg:max = {dmin:.2e}:{davg:.2e}:{dmax:.2e}")
                         raise ValueError("  max distance is above tolerance")
+                    if np.unique(index).size != chunksize:
+                        raise ValueError("  cells of planes do not match one to one")
                     ikplanes[i, index] = chunk
         # check
         # shape of xypos[ikplanes] is (nchunk, chunksize, 2)
-- 
2.43.0


From c1c1929b383796df061d3e922ea5dc76945a4db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 28/30] fix: faces of triangles were unknown with CGNS
 convention

---
 cfdtools/meshbase/_elements.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfdtools/meshbase/_elements.py b/cfdtools/meshbase/_elements.py
index e72c178..973bfda 100644
--- a/cfdtools/meshbase/_elements.py
+++ b/cfdtools/meshbase/_elements.py
@@ -62,6 +62,7 @@ def group_faces_by_type(connectivity):
 # see https://cgns.github.io/CGNS_docs_current/sids/conv.html#unst_quad
 # QUAD 4 2D
 cgns_elem2faces = {
+    'tri3': {'bar2': [[0, 1], [1, 2], [2, 0]]},
     'quad4': {'bar2': [[0, 1], [1, 2], [2, 3], [3, 0]]},
 }
 
-- 
2.43.0


From 3cf0fced8dc4f7b3d5faf1a85bd50676b2c2c107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 29/30] fix: CGNS marks with as many faces as cells were
 filtered out as full domain

---
 cfdtools/cgns/cgns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index 40a6306..bf055c5 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -107,7 +107,7 @@ class cgnszone:
         elif "ElementList" in BC.keys():  # not in CGNS norm
             indexlist = (BC["ElementList/ data"][:] - 1).ravel().tolist()
             gridloc = "FaceCenter"
-            if len(indexlist) == self.ncell:
+            if set(indexlist) == set(self.export_cellcon().all_index()):
                 gridloc = "CellCenter"
                 boco.type = 'internal'
         else:
-- 
2.43.0


From 99ffdd29533eb62ef4d354b757019333dc4aa2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:37 +0000
Subject: [PATCH 30/30] fix: xdmf side file of a list dump overwrote an
 existing .xmf

---
 cfdtools/vtk/_vtkList.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cfdtools/vtk/_vtkList.py b/cfdtools/vtk/_vtkList.py
index 8bd2427..5019929 100644
--- a/cfdtools/vtk/_vtkList.py
+++ b/cfdtools/vtk/_vtkList.py
@@ -134,10 +134,10 @@ class vtkList:
         self._data.set_mesh(vtkmesh.export_mesh())
         actual_filename = self._data.dumphdf(filename, overwrite=overwrite, **options)
         if xdmf:
-            self._dumpxdmf(actual_filename, vtkmesh, self._data)
+            self._dumpxdmf(actual_filename, vtkmesh, self._data, overwrite=overwrite)
         return actual_filename
 
-    def _dumpxdmf(self, filepath: str, vtkmesh: vtkMesh, data: DataSetList):
+    def _dumpxdmf(self, filepath: str, vtkmesh: vtkMesh, data: DataSetList, overwrite: bool = False):
         """Create the XMF file associated to the single HDF5 file created by dumphdf()."""
 
         def xdmf_domain(content):
@@ -155,5 +155,8 @@ class vtkList:
         content = xdmf_domain(geom_dat_content)
 
         # write the XMF file
-        with open(os.path.splitext(filepath)[0] + ".xmf", "w") as fid:
+        xmffile = api._files(os.path.splitext(filepath)[0] + ".xmf")
+        if not overwrite:
+            xmffile.find_safe_newfile()
+        with open(xmffile.filename, "w") as fid:
             fid.write('\n'.join(content))
-- 
2.43.0

