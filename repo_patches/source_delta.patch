From 18e059fbf71e4c45efc519e2bbc7bb6bbc1f8852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:55 +0000
Subject: [PATCH 01/98] fix: MV_Num_Faces, MV_Num_Regions and MF_Num_AdjFaces
 crashed when there were none

The corresponding list queries return NULL for an empty result (for
example the regions of a vertex of a surface mesh) and the counting
functions dereferenced it.
---
 src/base/MFace_F1.c   | 4 ++--
 src/base/MVertex_F1.c | 4 ++--
 src/base/MVertex_F4.c | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/base/MFace_F1.c b/src/base/MFace_F1.c
index a17cd30..640756e 100644
--- a/src/base/MFace_F1.c
+++ b/src/base/MFace_F1.c
@@ -169,8 +169,8 @@ extern "C" {
 #endif
 
     adjfaces = MF_AdjFaces_F1(f);
-    nf = List_Num_Entries(adjfaces);
-    List_Delete(adjfaces);
+    nf = adjfaces ? List_Num_Entries(adjfaces) : 0;
+    if (adjfaces) List_Delete(adjfaces);
     return nf;
   }
 
diff --git a/src/base/MVertex_F1.c b/src/base/MVertex_F1.c
index df30d34..a75adb1 100644
--- a/src/base/MVertex_F1.c
+++ b/src/base/MVertex_F1.c
@@ -94,8 +94,8 @@ extern "C" {
 #endif
 	
     vregions = MV_Regions_F1(v);
-    nr = List_Num_Entries(vregions);
-    List_Delete(vregions);
+    nr = vregions ? List_Num_Entries(vregions) : 0;
+    if (vregions) List_Delete(vregions);
 
     return nr;
   }
diff --git a/src/base/MVertex_F4.c b/src/base/MVertex_F4.c
index 1b3c1d5..c56811b 100644
--- a/src/base/MVertex_F4.c
+++ b/src/base/MVertex_F4.c
@@ -75,8 +75,8 @@ extern "C" {
 #endif
     
     vfaces = MV_Faces_F4(v);
-    nf = List_Num_Entries(vfaces);
-    List_Delete(vfaces);
+    nf = vfaces ? List_Num_Entries(vfaces) : 0;
+    if (vfaces) List_Delete(vfaces);
     return nf;
   }
 
@@ -91,8 +91,8 @@ extern "C" {
 #endif
 	
     vregions = MV_Regions_F4(v);
-    nr = List_Num_Entries(vregions);
-    List_Delete(vregions);
+    nr = vregions ? List_Num_Entries(vregions) : 0;
+    if (vregions) List_Delete(vregions);
     return nr;
   }
 
-- 
2.43.0


From 2ffe93524200e29a9f0f0edb807217f533dbd73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:43 +0000
Subject: [PATCH 02/98] fix: link regions to the edges they use in the F4
 representation

MR_Set_Faces never recorded the region with its edges, so every upward
query (ME_Regions, MF_Regions, MV_Regions, ...) of a solid F4 mesh came
back empty; only restoring a deleted region made the link.
---
 src/base/MR_Face_Funcs_FNR3R4.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/base/MR_Face_Funcs_FNR3R4.c b/src/base/MR_Face_Funcs_FNR3R4.c
index 1883caa..2c9f052 100644
--- a/src/base/MR_Face_Funcs_FNR3R4.c
+++ b/src/base/MR_Face_Funcs_FNR3R4.c
@@ -96,6 +96,15 @@ extern "C" {
 
       if (MEnt_RepType((MEntity_ptr) r) != F4) 
 	MF_Add_Region(rfaces[i],r,!dirs[i]);
+      else {
+        /* In F4 the upward links are from edges (not faces) to regions */
+        int idx = 0;
+        MEdge_ptr fe;
+        List_ptr fedges = MF_Edges(rfaces[i],1,0);
+        while ((fe = List_Next_Entry(fedges,&idx)))
+          ME_Add_Region(fe,r);
+        List_Delete(fedges);
+      }
     }
 
     MR_Update_ElementType_FNR3R4(r);
-- 
2.43.0


From d49d5b6f4961d8c5af957ded2df5acaccd24993c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:43 +0000
Subject: [PATCH 03/98] fix: MF_RegionID and MF_RegionIDs crashed on boundary
 faces

They dereferenced the missing region (F1) or the missing region list
(F4); MR_AdjRegionIDs failed with them for every boundary region.
---
 src/base/MF_Region_Funcs_F1F3.c | 3 ++-
 src/base/MF_Region_Funcs_F2F4.c | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/base/MF_Region_Funcs_F1F3.c b/src/base/MF_Region_Funcs_F1F3.c
index 83a1d27..8be5400 100644
--- a/src/base/MF_Region_Funcs_F1F3.c
+++ b/src/base/MF_Region_Funcs_F1F3.c
@@ -50,7 +50,8 @@ extern "C" {
   }
 
   int MF_RegionID_F1F3(MFace_ptr f, int i) {
-    return MEnt_ID(((MFace_Adj_F1F3 *) f->adj)->fregions[i]);
+    MRegion_ptr r = ((MFace_Adj_F1F3 *) f->adj)->fregions[i];
+    return r ? MEnt_ID(r) : 0;
   }
 
   void MF_Add_Region_F1F3(MFace_ptr f, MRegion_ptr r, int side) {
diff --git a/src/base/MF_Region_Funcs_F2F4.c b/src/base/MF_Region_Funcs_F2F4.c
index 08bec49..e031ab7 100644
--- a/src/base/MF_Region_Funcs_F2F4.c
+++ b/src/base/MF_Region_Funcs_F2F4.c
@@ -57,6 +57,8 @@ extern "C" {
   void MF_RegionIDs_F2F4(MFace_ptr f, int *nfr, int *fregids) {
     int i;
     List_ptr fregs = MF_Regions_F2F4(f);
+    *nfr = 0;
+    if (!fregs) return;
     *nfr = List_Num_Entries(fregs);
     for (i = 0; i < *nfr; i++)
       fregids[i] = MEnt_ID(List_Entry(fregs,i));
-- 
2.43.0


From dc189d53c30e5382475d8dc16931925952841e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:48 +0000
Subject: [PATCH 04/98] fix: MF_Region of the F4 representation returned the
 region on the other side

dir was negated twice; the documentation and all other representations
put the region whose outward normal is the face normal on side 0.
---
 src/base/MF_Region_Funcs_F2F4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/MF_Region_Funcs_F2F4.c b/src/base/MF_Region_Funcs_F2F4.c
index e031ab7..f2affd4 100644
--- a/src/base/MF_Region_Funcs_F2F4.c
+++ b/src/base/MF_Region_Funcs_F2F4.c
@@ -89,7 +89,7 @@ extern "C" {
       for (i = 0; i < nr; i++) {
 	r = List_Entry(eregs,i);
 	fdir = MR_FaceDir(r,f);
-	if (fdir == !dir) {
+	if (fdir == dir) {
 	  r1 = r;
 	  break;
 	}
-- 
2.43.0


From c9905d909466421b87c5cd9e841905d932b78c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:20 +0000
Subject: [PATCH 05/98] fix: List_Insert inserted before the wrong entry

---
 src/util/List.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/List.c b/src/util/List.c
index 32a2412..67a1615 100644
--- a/src/util/List.c
+++ b/src/util/List.c
@@ -508,7 +508,7 @@ extern "C" {
       for (ip = 0; ip < ntot; ip++) {
 	entry = l->entry[ip];
 	
-	if (entry != b4entry)
+	if (entry == b4entry)
 	  break;
       }
 
-- 
2.43.0


From 9b0ca4ab6ba7ef370b505dda3bb194733262cda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:20 +0000
Subject: [PATCH 06/98] fix: List_Cat lost track of the gaps of the appended
 list

---
 src/util/List.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/List.c b/src/util/List.c
index 67a1615..3f5f994 100644
--- a/src/util/List.c
+++ b/src/util/List.c
@@ -968,10 +968,10 @@ extern "C" {
     }
 
     memcpy(dest->entry+ntot_d,src->entry,ntot_s*sizeof(void *));
+    if (!nrem_d && nrem_s)
+      rem1_d = ntot_d + rem1_s;
     nent_d += nent_s;
     nrem_d += nrem_s;
-    if (!nrem_d && nrem_s)
-      rem1_d = rem1_s;
 
     pvtList_Set_Pars(dest,nent_d,p_d,nrem_d,rem1_d);
 
-- 
2.43.0


From f10e64ee9aa7ff0fc1fb8d1d9e9e0607a9e5a88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:20 +0000
Subject: [PATCH 07/98] fix: List_RemSorted ran off the list and removed an
 arbitrary entry when the entry was absent

---
 src/util/List.c | 99 ++++++++++---------------------------------------
 1 file changed, 19 insertions(+), 80 deletions(-)

diff --git a/src/util/List.c b/src/util/List.c
index 3f5f994..5ab3598 100644
--- a/src/util/List.c
+++ b/src/util/List.c
@@ -711,95 +711,34 @@ extern "C" {
 
 
   int List_RemSorted(List_ptr l, void *entry, int (*entry2int)(void *)) {
-    int imin, imax, imid, idmin, idmax, idmid, done, fnd, fnd1, imid1;
+    int imin, imax, imid, idmid, fnd;
     int nent, p, nrem, rem1, ntot, i, id;
 
     pvtList_Get_Pars(l,&nent,&p,&nrem,&rem1);
     ntot = nent + nrem;
 
-    imin = 0; imax = ntot-1;
-    if (!(l->entry[imin])) {
-
-      /* Search for the first valid entry */      
-      fnd1 = 0;
-      while (!fnd1 && imin <= imax)
-	if (l->entry[++imin]) fnd1 = 1;
-      if (!fnd1) 
-	MSTK_Report("List_RemSorted","Cannot find valid entry",MSTK_WARN);
-
-    }
-
-    if (!(l->entry[imax])) {
-
-      /* Search for the the last valid entry */
-      fnd1 = 0;
-      while (!fnd1 && imax >= imin)
-	if (l->entry[--imax]) fnd1 = 1;
-      if (!fnd1)
-	MSTK_Report("List_RemSorted","Cannot find valid entry",MSTK_WARN);
-
-    }
-      
-    idmin = (*entry2int)(l->entry[imin]);
-    idmax = (*entry2int)(l->entry[imax]);
-
-    done = 0;
-    i = 0;
+    fnd = 0;
+    i = -1;
     id = (*entry2int)(entry);
-    while (!done) { 
-      imid = (int)(0.5+(imin+imax)/2.0);
-
-      if (!(l->entry[imid])) {
-
-	/* Search for next valid entry */
-	fnd1 = 0;
-	imid1 = imid;
-	while (!fnd1 && imid1 <= imax)
-	  if (l->entry[++imid1]) fnd1 = 1;
-	if (!fnd1)
-	  MSTK_Report("List_RemSorted","Cannot find valid entry",MSTK_WARN);
-	else
-	  imid = imid1;
-      
-	if (imid1 == imax) {
-	  /* there were no valid entries from imid to imax */
-	  /* Search back from imid to imin */
-	  
-	  fnd1 = 0;
-	  imid1 = imid;
-	  while (!fnd1 && imid1 >= imin)
-	    if (l->entry[--imid1]) fnd1 = 1;
-	  if (!fnd1)
-	    MSTK_Report("List_RemSorted","Cannot find valid entry",MSTK_WARN);
-	  else
-	    imid = imid1;
-	}
-      }
-
-      idmid = (*entry2int)(l->entry[imid]);
-      
-      if (id <= idmid) {
-	imax = imid;
-	idmax = idmid;
+    imin = 0; imax = ntot-1;
+    while (imin <= imax && !fnd) {
+      imid = imin + (imax-imin)/2;
+
+      /* step over removed entries to the next valid entry */
+      i = imid;
+      while (i <= imax && !l->entry[i]) i++;
+      if (i > imax) {  /* no valid entry in the upper half */
+	imax = imid-1;
+	continue;
       }
-      else {
-	imin = imid;
-	idmin = idmid;
-      }      
 
-      if (id == idmin) {
-	i = imin;
-	fnd = 1;
-	done = 1;
-      }
-      else if (id == idmax) {
-	i = imax;
+      idmid = (*entry2int)(l->entry[i]);
+      if (id == idmid)
 	fnd = 1;
-	done = 1;
-      }
-      else if (imax-imin <= 1) {
-	done = 1;
-      }
+      else if (id < idmid)
+	imax = imid-1;
+      else
+	imin = i+1;
     }
 
     if (fnd) {
-- 
2.43.0


From 9af0d7f0fe134384e4c304be1ce0520c10905fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:20 +0000
Subject: [PATCH 08/98] fix: List_Replacei and List_Inserti wrote out of bounds
 for an index past the end

---
 src/util/List.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/util/List.c b/src/util/List.c
index 5ab3598..1967ff8 100644
--- a/src/util/List.c
+++ b/src/util/List.c
@@ -437,7 +437,7 @@ extern "C" {
       ic = -1; /* (valid entry count)-1 (1st entry may be invalid)*/
       ip = 0;  /* position */
       
-      if (!nrem || (rem1 > i)) {
+      if (i < nent && (!nrem || (rem1 > i))) {
 	/* The array has no removed entities (gaps) or has no gaps upto
 	   the i'th position. We can just return the i'th entry as is */
 	ic = i;
@@ -770,6 +770,13 @@ extern "C" {
 
     ntot = nent + nrem;
 
+    if (i >= nent) {
+#ifdef DEBUG
+      MSTK_Report("List_Replacei","Not that many entries in list",MSTK_ERROR);
+#endif
+      return 0;
+    }
+
     ic = -1; /* (valid entry count)-1 (1st entry may be invalid)*/
     ip = 0; /* Position */
     if (!nrem || (rem1 > i)) {
-- 
2.43.0


From 8d381758fb100746bb2e35f3dd07e938f5617096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:42 +0000
Subject: [PATCH 09/98] fix: MSet_Add, MSet_ChknAdd, MSet_Insert and
 MSet_Inserti returned the internal list instead of the set

---
 src/base/MSet.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/base/MSet.c b/src/base/MSet.c
index d703614..62b2ea8 100644
--- a/src/base/MSet.c
+++ b/src/base/MSet.c
@@ -77,20 +77,24 @@ extern "C" {
   }
 
   MSet_ptr    MSet_Add(MSet_ptr set, void *entry) {
-    return List_Add(set->entlist,entry);
+    List_Add(set->entlist,entry);
+    return set;
   }
 
   MSet_ptr    MSet_ChknAdd(MSet_ptr set, void *entry) {
-    return List_ChknAdd(set->entlist,entry);
+    List_ChknAdd(set->entlist,entry);
+    return set;
   }
 
   MSet_ptr    MSet_Insert(MSet_ptr set, void *nuentry, void *b4entry) {
-    return List_Insert(set->entlist,nuentry,b4entry);
+    List_Insert(set->entlist,nuentry,b4entry);
+    return set;
   }
 
 
   MSet_ptr    MSet_Inserti(MSet_ptr set, void *nuentry, int i) {
-    return List_Inserti(set->entlist,nuentry,i);
+    List_Inserti(set->entlist,nuentry,i);
+    return set;
   }
 
   int         MSet_Rem(MSet_ptr set, void *entry) {
-- 
2.43.0


From 5e8b0671f56ee140698cc70fbfdbaa23bdd5287c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:42 +0000
Subject: [PATCH 10/98] fix: MSet_Rename overflowed the buffer of the old name

---
 src/base/MSet.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/base/MSet.c b/src/base/MSet.c
index 62b2ea8..73118c0 100644
--- a/src/base/MSet.c
+++ b/src/base/MSet.c
@@ -58,6 +58,7 @@ extern "C" {
   }
 
   void MSet_Rename(MSet_ptr set, char *newname) {
+    set->name = (char *) realloc(set->name,(strlen(newname)+1)*sizeof(char));
     strcpy(set->name,newname);
   }
 
-- 
2.43.0


From 39cfbe93e8ece8e8356f382c28cff0d9d68db246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:42 +0000
Subject: [PATCH 11/98] fix: clearing a vector or tensor attribute crashed

---
 src/base/MAttrib.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/base/MAttrib.c b/src/base/MAttrib.c
index a97c74b..18b83a3 100644
--- a/src/base/MAttrib.c
+++ b/src/base/MAttrib.c
@@ -156,7 +156,10 @@ extern "C" {
         
         int ncomp = MAttrib_Get_NumComps(attrib);
         double *vval_copy = (double *) malloc(ncomp*sizeof(double));
-        memcpy(vval_copy, pval, ncomp*sizeof(double));
+        if (pval)
+          memcpy(vval_copy, pval, ncomp*sizeof(double));
+        else
+          memset(vval_copy, 0, ncomp*sizeof(double));
         attins->att_val.pval = vval_copy;
         break;
       }
@@ -167,7 +170,10 @@ extern "C" {
         
         int ncomp = MAttrib_Get_NumComps(attrib);
         double *tval_copy = (double *) malloc(ncomp*sizeof(double));
-        memcpy(tval_copy, pval, ncomp*sizeof(double));
+        if (pval)
+          memcpy(tval_copy, pval, ncomp*sizeof(double));
+        else
+          memset(tval_copy, 0, ncomp*sizeof(double));
         attins->att_val.pval = tval_copy;
         break;
       }
-- 
2.43.0


From fe011005a01aeb8df9da858d7be8d58776cb2fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:25 +0000
Subject: [PATCH 12/98] fix: List_RemSorted removed another entry with the same
 key

---
 src/util/List.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/util/List.c b/src/util/List.c
index 1967ff8..7b257e0 100644
--- a/src/util/List.c
+++ b/src/util/List.c
@@ -741,6 +741,17 @@ extern "C" {
 	imin = i+1;
     }
 
+    /* The entry found may be another one with the same integer key, or
+       the list may have lost its order (entities restored or renumbered
+       since it was sorted) - look for the entry itself */
+    if (!fnd || l->entry[i] != entry) {
+      for (i = 0, fnd = 0; i < ntot; i++)
+	if (l->entry[i] == entry) {
+	  fnd = 1;
+	  break;
+	}
+    }
+
     if (fnd) {
       l->entry[i] = (void *) NULL;
       nent--;
-- 
2.43.0


From 513edf13980164ea5b4711e73a6186f75b45493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:36 +0000
Subject: [PATCH 13/98] fix: local ID search failed after all entities of a
 type had been deleted

---
 src/base/Mesh.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index 2280cd6..52e8e8d 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -664,21 +664,21 @@ void MESH_Flag_EntLists_As_Unsorted(Mesh_ptr mesh) {
 void MESH_Enable_LocalIDSearch(Mesh_ptr mesh) {
   if (mesh->lidlists_sorted) return;
 
-  if (mesh->nv) {
+  if (mesh->mvertex) {  // all its entries may be gaps
     List_Compress(mesh->mvertex);  // can't sort list with gaps
     List_Sort(mesh->mvertex, mesh->nv, sizeof(MVertex_ptr), compareID);
   }
-  if (mesh->ne) {
+  if (mesh->medge) {  // all its entries may be gaps
     List_Compress(mesh->medge);  // can't sort list with gaps
     List_Sort(mesh->medge, mesh->ne, sizeof(MEdge_ptr), compareID);
   }
 
-  if (mesh->nf) {
+  if (mesh->mface) {  // all its entries may be gaps
     List_Compress(mesh->mface);  // can't sort list with gaps
     List_Sort(mesh->mface, mesh->nf, sizeof(MFace_ptr), compareID);
   }
 
-  if (mesh->nr) {
+  if (mesh->mregion) {  // all its entries may be gaps
     List_Compress(mesh->mregion);  // can't sort list with gaps
     List_Sort(mesh->mregion, mesh->nr, sizeof(MRegion_ptr), compareID);
   }
-- 
2.43.0


From c31132484ac8e523821ebbf7f7d085190f59af4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:55 +0000
Subject: [PATCH 14/98] fix: lookup by local ID missed entities restored after
 the lists were sorted

---
 src/base/Mesh.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index 52e8e8d..1e039ba 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -853,6 +853,8 @@ void MESH_Add_Vertex(Mesh_ptr mesh, MVertex_ptr v) {
     (mesh->max_vid)++;
     MV_Set_ID(v,mesh->max_vid);
   }
+  else  /* Restored or moved entity - its ID need not be in ascending order */
+    MESH_Flag_EntLists_As_Unsorted(mesh);
 }
 
 void MESH_Add_Edge(Mesh_ptr mesh, MEdge_ptr e){
@@ -869,6 +871,8 @@ void MESH_Add_Edge(Mesh_ptr mesh, MEdge_ptr e){
     (mesh->max_eid)++;
     ME_Set_ID(e,mesh->max_eid);
   }
+  else  /* Restored or moved entity - its ID need not be in ascending order */
+    MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
      
 void MESH_Add_Face(Mesh_ptr mesh, MFace_ptr f){
@@ -893,6 +897,8 @@ void MESH_Add_Face(Mesh_ptr mesh, MFace_ptr f){
     (mesh->max_fid)++;
     MF_Set_ID(f,mesh->max_fid);
   }
+  else  /* Restored or moved entity - its ID need not be in ascending order */
+    MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
      
 void MESH_Add_Region(Mesh_ptr mesh, MRegion_ptr r){
@@ -906,6 +912,8 @@ void MESH_Add_Region(Mesh_ptr mesh, MRegion_ptr r){
     (mesh->max_rid)++;
     MR_Set_ID(r,mesh->max_rid);
   }
+  else  /* Restored or moved entity - its ID need not be in ascending order */
+    MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
      
 void MESH_Rem_Vertex(Mesh_ptr mesh, MVertex_ptr v) {
-- 
2.43.0


From 6185a30cca08e48f4c12e3e25d6f72e6f91bd6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:55 +0000
Subject: [PATCH 15/98] fix: deleting an F4 face left it on the edges it used

---
 src/base/MFace_F4.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/base/MFace_F4.c b/src/base/MFace_F4.c
index 64a0b48..fa38dd2 100644
--- a/src/base/MFace_F4.c
+++ b/src/base/MFace_F4.c
@@ -28,9 +28,19 @@ extern "C" {
 
   void MF_Delete_F4(MFace_ptr f, int keep) {
     MFace_Adj_F2F4 *adj;
+    int i, ne;
+
+    adj = (MFace_Adj_F2F4 *) f->adj;
+
+    if (MEnt_Dim((MEntity_ptr) f) != MDELETED) { /* if face hasnt been temporarily deleted */
+      if (adj && adj->fedges) {
+	ne = List_Num_Entries(adj->fedges);
+	for (i = 0; i < ne; i++)
+	  ME_Rem_Face(List_Entry(adj->fedges,i),f);
+      }
+    }
 
     if (!keep) {
-      adj = (MFace_Adj_F2F4 *) f->adj;
       if (adj) {
 	if (adj->fedges)
 	  List_Delete(adj->fedges);
@@ -40,7 +50,17 @@ extern "C" {
   }
 
   void MF_Restore_F4(MFace_ptr f) {
+    MFace_Adj_F2F4 *adj;
+    int i, ne;
+
     MEnt_Set_Dim((MEntity_ptr) f,MFACE);
+
+    adj = (MFace_Adj_F2F4 *) f->adj;
+    if (adj->fedges) {
+      ne = List_Num_Entries(adj->fedges);
+      for (i = 0; i < ne; i++)
+	ME_Add_Face(List_Entry(adj->fedges,i),f);
+    }
   }
 
   void MF_Destroy_For_MESH_Delete_F4(MFace_ptr f) {
-- 
2.43.0


From 236ff368078fc7a762f53cca4943d9aa5c16c143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:55 +0000
Subject: [PATCH 16/98] fix: MV_Faces of F4 missed faces without regions on
 edges that also have regions

---
 src/base/MVertex_F4.c | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/base/MVertex_F4.c b/src/base/MVertex_F4.c
index c56811b..0a28df1 100644
--- a/src/base/MVertex_F4.c
+++ b/src/base/MVertex_F4.c
@@ -208,25 +208,24 @@ extern "C" {
 	}
 	List_Delete(eregions);
       }
-      else {
-	/* perhaps the edge has boundary faces (not connected to regions) */
-	efaces = ME_Faces(edge);
-	if (efaces) {
-	  nf = List_Num_Entries(efaces);
+
+      /* the edge may also have faces that are not connected to regions */
+      efaces = ME_Faces(edge);
+      if (efaces) {
+	nf = List_Num_Entries(efaces);
 	  
-	  for (k = 0; k < nf; k++) {
-	    face = List_Entry(efaces,k);
-            int fmarked;
-            fmarked = List_Contains(vfaces,face);
-            if (!fmarked) {
-	      if (MF_UsesEntity(face,(MEntity_ptr) v,0)) {
-		List_Add(vfaces,face);
-		n++;
-	      }
+	for (k = 0; k < nf; k++) {
+	  face = List_Entry(efaces,k);
+	  int fmarked;
+	  fmarked = List_Contains(vfaces,face);
+	  if (!fmarked) {
+	    if (MF_UsesEntity(face,(MEntity_ptr) v,0)) {
+	      List_Add(vfaces,face);
+	      n++;
 	    }
 	  }
-	  List_Delete(efaces);
 	}
+	List_Delete(efaces);
       }
     }
     if (n > 0)
-- 
2.43.0


From ccb654ec377e9cca9a0bd3710042052c001457df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:47 +0000
Subject: [PATCH 17/98] fix: MESH_Renumber (RCM) - build the graphs correctly
 and cope with ID gaps, isolated entities and disconnected meshes

---
 src/hilev/MESH_Renumber.c | 121 ++++++++++++++++++++++++++++----------
 1 file changed, 89 insertions(+), 32 deletions(-)

diff --git a/src/hilev/MESH_Renumber.c b/src/hilev/MESH_Renumber.c
index 4dde840..e075aed 100644
--- a/src/hilev/MESH_Renumber.c
+++ b/src/hilev/MESH_Renumber.c
@@ -89,7 +89,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
     MAttrib_ptr mkatt = MAttrib_New(mesh, "mkatt", INT, MALLTYPE);
 #endif
 
-    if (mtype == MVERTEX || mtype == MALLTYPE) { 
+    if ((mtype == MVERTEX || mtype == MALLTYPE) && MESH_Num_Vertices(mesh)) {
       int nv = MESH_Num_Vertices(mesh);      
       
       /* Compute a graph of vertex connections across elements (faces
@@ -111,6 +111,12 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
       }
 
 
+      /* Node i of the graph is the i'th entity - eliminate gaps in the IDs */
+      if (!v0) { idx = 0; v0 = MESH_Next_Vertex(mesh,&idx); }
+      idx = 0; i = 0;
+      while ((mv = MESH_Next_Vertex(mesh,&idx)))
+        MV_Set_ID(mv,++i);
+
       nadj = (int *) malloc(nv*sizeof(int));
       nalloc = nv*5;
       adj = (int *) malloc(nalloc*sizeof(int));
@@ -127,7 +133,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           adjvlist = List_New(0);
           vfaces = MV_Faces(mv);
           idx2 = 0;
-          while ((vf = List_Next_Entry(vfaces,&idx2))) {
+          while (vfaces && (vf = List_Next_Entry(vfaces,&idx2))) {
             List_ptr fverts = MF_Vertices(vf,1,0);
             idx3 = 0;
             while ((adjv = List_Next_Entry(fverts,&idx3))) {
@@ -150,15 +156,19 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
             }
             List_Delete(fverts);
           }
-          List_Delete(vfaces);
+          if (vfaces) List_Delete(vfaces);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjvlist,mkid);
+#else
+          idx2 = 0;
+          while ((adjv = List_Next_Entry(adjvlist,&idx2)))
+            MEnt_Set_AttVal(adjv, mkatt, 0, 0.0, NULL);
 #endif
 
           nadj[i] = List_Num_Entries(adjvlist);
           
           if (nentries+nadj[i] > nalloc) {
-            nalloc *= 2;
+            nalloc = 2*(nentries+nadj[i]);
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
 
@@ -182,7 +192,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           adjvlist = List_New(0);
           vregions = MV_Regions(mv);
           idx2 = 0;
-          while ((vr = List_Next_Entry(vregions,&idx2))) {
+          while (vregions && (vr = List_Next_Entry(vregions,&idx2))) {
             List_ptr rverts = MR_Vertices(vr);
             idx3 = 0;
             while ((adjv = List_Next_Entry(rverts,&idx3))) {
@@ -205,15 +215,19 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
             }
             List_Delete(rverts);
           }
-          List_Delete(vregions);
+          if (vregions) List_Delete(vregions);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjvlist,mkid);
+#else
+          idx2 = 0;
+          while ((adjv = List_Next_Entry(adjvlist,&idx2)))
+            MEnt_Set_AttVal(adjv, mkatt, 0, 0.0, NULL);
 #endif
 
           nadj[i] = List_Num_Entries(adjvlist);
 
           if (nentries+nadj[i] > nalloc) {
-            nalloc *= 2;
+            nalloc = 2*(nentries+nadj[i]);
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
 
@@ -324,7 +338,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
        edges (differs from RCM in that it does not add adjacent nodes
        in ascending order of their valence) */
 
-    if (mtype == MEDGE || mtype == MALLTYPE) {
+    if ((mtype == MEDGE || mtype == MALLTYPE) && MESH_Num_Edges(mesh)) {
       int ne = MESH_Num_Edges(mesh);
       MEdge_ptr ve;
       List_ptr elist;
@@ -339,8 +353,8 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 	   connected to the starting vertex as the first edge */
 
 	List_ptr vedges = MV_Edges(v0);
-	e0 = List_Entry(vedges,0);
-	List_Delete(vedges);
+	e0 = vedges ? List_Entry(vedges,0) : NULL;
+	if (vedges) List_Delete(vedges);
       }
       else {
 	/* Find the edge whose mid point is a minimum point */
@@ -365,6 +379,12 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
       }
 
 
+      /* Node i of the graph is the i'th entity - eliminate gaps in the IDs */
+      if (!e0) { idx = 0; e0 = MESH_Next_Edge(mesh,&idx); }
+      idx = 0; i = 0;
+      while ((me = MESH_Next_Edge(mesh,&idx)))
+        ME_Set_ID(me,++i);
+
       nadj = (int *) malloc(ne*sizeof(int));
       nalloc = ne*5;
       adj = (int *) malloc(nalloc*sizeof(int));
@@ -381,7 +401,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           adjelist = List_New(0);
           efaces = ME_Faces(me);
           idx2 = 0;
-          while ((ef = List_Next_Entry(efaces,&idx2))) {
+          while (efaces && (ef = List_Next_Entry(efaces,&idx2))) {
             List_ptr fedges = MF_Edges(ef,1,0);
             idx3 = 0;
             while ((adje = List_Next_Entry(fedges,&idx3))) {
@@ -404,15 +424,19 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
             }
             List_Delete(fedges);
           }
-          List_Delete(efaces);
+          if (efaces) List_Delete(efaces);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjelist,mkid);
+#else
+          idx2 = 0;
+          while ((adje = List_Next_Entry(adjelist,&idx2)))
+            MEnt_Set_AttVal(adje, mkatt, 0, 0.0, NULL);
 #endif
 
           nadj[i] = List_Num_Entries(adjelist);
 
           if (nentries+nadj[i] > nalloc) {
-            nalloc *= 2;
+            nalloc = 2*(nentries+nadj[i]);
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
 
@@ -436,7 +460,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           adjelist = List_New(0);
           eregions = ME_Regions(me);
           idx2 = 0;
-          while ((er = List_Next_Entry(eregions,&idx2))) {
+          while (eregions && (er = List_Next_Entry(eregions,&idx2))) {
             List_ptr redges = MR_Edges(er);
             idx3 = 0;
             while ((adje = List_Next_Entry(redges,&idx3))) {
@@ -459,15 +483,19 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
             }
             List_Delete(redges);
           }
-          List_Delete(eregions);
+          if (eregions) List_Delete(eregions);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjelist,mkid);
+#else
+          idx2 = 0;
+          while ((adje = List_Next_Entry(adjelist,&idx2)))
+            MEnt_Set_AttVal(adje, mkatt, 0, 0.0, NULL);
 #endif
           
           nadj[i] = List_Num_Entries(adjelist);
           
           if (nentries+nadj[i] > nalloc) {
-            nalloc *= 2;
+            nalloc = 2*(nentries+nadj[i]);
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
           
@@ -580,7 +608,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
        edges (differs from RCM in that it does not add adjacent graph nodes
        in ascending order of their valence) */
 
-    if (mtype == MFACE || mtype == MALLTYPE) {      
+    if ((mtype == MFACE || mtype == MALLTYPE) && MESH_Num_Faces(mesh)) {
       int nf = MESH_Num_Faces(mesh);
 
       if (mtype == MALLTYPE) { 
@@ -589,8 +617,8 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
            connected to the starting vertex as the first edge */
 
         List_ptr vfaces = MV_Faces(v0);
-        f0 = List_Entry(vfaces,0);
-        List_Delete(vfaces);
+        f0 = vfaces ? List_Entry(vfaces,0) : NULL;
+        if (vfaces) List_Delete(vfaces);
       }
       else {
         /* Find the face whose mid point is a minimum point */
@@ -621,6 +649,12 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
       }
 
 
+      /* Node i of the graph is the i'th entity - eliminate gaps in the IDs */
+      if (!f0) { idx = 0; f0 = MESH_Next_Face(mesh,&idx); }
+      idx = 0; i = 0;
+      while ((mf = MESH_Next_Face(mesh,&idx)))
+        MF_Set_ID(mf,++i);
+
       nadj = (int *) malloc(nf*sizeof(int));
       nalloc = nf*5;
       adj = (int *) malloc(nalloc*sizeof(int));
@@ -648,7 +682,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 #else
                 MEnt_Get_AttVal(adjf, mkatt, &fmarked, &rval, &pval);
 #endif
-                if (fmarked) {
+                if (!fmarked) {
                   List_Add(adjflist,adjf);
 #ifdef MSTK_USE_MARKERS                  
                   MEnt_Mark(adjf,mkid);
@@ -663,12 +697,16 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           List_Delete(fverts);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjflist,mkid);
+#else
+          idx2 = 0;
+          while ((adjf = List_Next_Entry(adjflist,&idx2)))
+            MEnt_Set_AttVal(adjf, mkatt, 0, 0.0, NULL);
 #endif
 
           nadj[i] = List_Num_Entries(adjflist);
 
           if (nentries+nadj[i] > nalloc) {
-            nalloc *= 2;
+            nalloc = 2*(nentries+nadj[i]);
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
 
@@ -692,7 +730,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           adjflist = List_New(0);
           fregions = MF_Regions(mf);
           idx2 = 0;
-          while ((fr = List_Next_Entry(fregions,&idx2))) {
+          while (fregions && (fr = List_Next_Entry(fregions,&idx2))) {
             List_ptr rfaces = MR_Faces(fr);
             idx3 = 0;
             while ((adjf = List_Next_Entry(rfaces,&idx3))) {
@@ -703,7 +741,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 #else
                 MEnt_Get_AttVal(adjf, mkatt, &fmarked, &rval, &pval);
 #endif
-                if (fmarked) {
+                if (!fmarked) {
                   List_Add(adjflist,adjf);
 #ifdef MSTK_USE_MARKERS                  
                   MEnt_Mark(adjf,mkid);
@@ -715,15 +753,19 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
             }
             List_Delete(rfaces);
           }
-          List_Delete(fregions);
+          if (fregions) List_Delete(fregions);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjflist,mkid);
+#else
+          idx2 = 0;
+          while ((adjf = List_Next_Entry(adjflist,&idx2)))
+            MEnt_Set_AttVal(adjf, mkatt, 0, 0.0, NULL);
 #endif
 
           nadj[i] = List_Num_Entries(adjflist);
 
           if (nentries+nadj[i] > nalloc) {
-            nalloc *= 2;
+            nalloc = 2*(nentries+nadj[i]);
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
 
@@ -863,8 +905,8 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
              region */
 
           List_ptr vregions = MV_Regions(v0);
-          r0 = List_Entry(vregions,0);
-          List_Delete(vregions);
+          r0 = vregions ? List_Entry(vregions,0) : NULL;
+          if (vregions) List_Delete(vregions);
         }
         else {
           /* Find the region whose center point is a minimum point */
@@ -895,6 +937,12 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
         }
 
 
+        /* Node i of the graph is the i'th entity - eliminate gaps in the IDs */
+        if (!r0) { idx = 0; r0 = MESH_Next_Region(mesh,&idx); }
+        idx = 0; i = 0;
+        while ((mr = MESH_Next_Region(mesh,&idx)))
+          MR_Set_ID(mr,++i);
+
         nadj = (int *) malloc(nr*sizeof(int));
         nalloc = nr*5;
         adj = (int *) malloc(nalloc*sizeof(int));
@@ -921,12 +969,14 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 #else
                 MEnt_Get_AttVal(adjr, mkatt, &rmarked, &rval, &pval);
 #endif
-                List_Add(adjrlist,adjr);
+                if (!rmarked) {
+                  List_Add(adjrlist,adjr);
 #ifdef MSTK_USE_MARKERS
-                MEnt_Mark(adjr,mkid);
+                  MEnt_Mark(adjr,mkid);
 #else
-                MEnt_Set_AttVal(adjr, mkatt, 1, 0.0, NULL);
+                  MEnt_Set_AttVal(adjr, mkatt, 1, 0.0, NULL);
 #endif
+                }
               }
             }	    
             List_Delete(vregions);
@@ -934,12 +984,16 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           List_Delete(rverts);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjrlist,mkid);
+#else
+          idx2 = 0;
+          while ((adjr = List_Next_Entry(adjrlist,&idx2)))
+            MEnt_Set_AttVal(adjr, mkatt, 0, 0.0, NULL);
 #endif
 
           nadj[i] = List_Num_Entries(adjrlist);
 
           if (nentries+nadj[i] > nalloc) {
-            nalloc *= 2;
+            nalloc = 2*(nentries+nadj[i]);
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
 
@@ -1048,11 +1102,14 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 
 #ifdef MSTK_USE_MARKERS
     MSTK_FreeMarker(mkid);
+#else
+    MAttrib_Delete(mkatt);
 #endif
   }
   
 
-  vidatt = MAttrib_New(mesh,"vidrcm",INT,MVERTEX);
+  vidatt = MESH_AttribByName(mesh,"vidrcm");
+  if (!vidatt) vidatt = MAttrib_New(mesh,"vidrcm",INT,MVERTEX);
   idx = 0;
   while ((mv = MESH_Next_Vertex(mesh,&idx))) {
     MEnt_Set_AttVal(mv,vidatt,MV_ID(mv),0.0,NULL);
-- 
2.43.0


From c19e2952916ca3d0e1740f0e4905ff74022d5333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:47 +0000
Subject: [PATCH 18/98] fix: Graph_Renumber_GPS - disconnected graphs,
 unnumbered nodes and wrong tag index

---
 src/util/Graph_renumber.c | 108 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 107 insertions(+), 1 deletion(-)

diff --git a/src/util/Graph_renumber.c b/src/util/Graph_renumber.c
index 0abb100..611c944 100644
--- a/src/util/Graph_renumber.c
+++ b/src/util/Graph_renumber.c
@@ -27,6 +27,37 @@ void Graph_Assign_Numbers(int nnodes, int adj[], int nadj[], int offset[],
                           int n_beg, int n_end, int level[], int nodemap[]);
 
 
+/* Collect the nodes of the connected component that node 'start' is in.
+
+   compnodes (out)    -- nodes of the component, the first one is 'start'
+   newindex  (in/out) -- position in compnodes for nodes of the component
+                         (must be -1 for these nodes on entry)
+
+   Returns the number of nodes in the component */
+
+static int Graph_Collect_Component(int nadj[], int adj[], int offset[],
+                                   int start, int compnodes[],
+                                   int newindex[]) {
+  int i, j, n;
+
+  compnodes[0] = start;
+  newindex[start] = 0;
+  n = 1;
+  for (i = 0; i < n; i++) {
+    int node = compnodes[i];
+    for (j = 0; j < nadj[node]; j++) {
+      int adjnode = adj[offset[node]+j];
+      if (newindex[adjnode] == -1) {
+        newindex[adjnode] = n;
+        compnodes[n++] = adjnode;
+      }
+    }
+  }
+
+  return n;
+}
+
+
 /* 
    Renumber nodes of a graph according to the Gibbs-Pool-Stockmeyer algorithm 
    with George-Liu modifications to find the pseudo-peripheral nodes
@@ -49,6 +80,11 @@ int Graph_Renumber_GPS(int nnodes, int nstart, int *nadj, int *adj,
   int *offset;
   int *level;
 
+  if (nnodes == 0) {
+    *depth = *maxwidth = 0;
+    return 1;
+  }
+
   /* Compute the min and max degree of the mesh */
 
   mindeg = 1e+9;
@@ -68,7 +104,57 @@ int Graph_Renumber_GPS(int nnodes, int nstart, int *nadj, int *adj,
 
   n_1 = nstart;
 
+  /* The algorithm itself is only for connected graphs. If the graph has
+     several connected components, number them one after the other
+     starting with the component of the start node */
+
+  int *compnodes = (int *) malloc(nnodes*sizeof(int));
+  int *newindex = (int *) malloc(nnodes*sizeof(int));
+  for (i = 0; i < nnodes; i++) newindex[i] = -1;
+
+  ncset = Graph_Collect_Component(nadj, adj, offset, nstart, compnodes,
+                                  newindex);
+  if (ncset < nnodes) {
+    int *compnadj = (int *) malloc(nnodes*sizeof(int));
+    int *compadj = (int *) malloc((offset[nnodes-1]+nadj[nnodes-1]+1)*sizeof(int));
+    int *compmap = (int *) malloc(nnodes*sizeof(int));
+
+    nnew = 0;
+    *depth = *maxwidth = 0;
+    n_1 = 0;
+    while (1) {
+      ntmp = 0;
+      for (i = 0; i < ncset; i++) {
+        int node = compnodes[i];
+        compnadj[i] = nadj[node];
+        for (j = 0; j < nadj[node]; j++)
+          compadj[ntmp++] = newindex[adj[offset[node]+j]];
+      }
+
+      Graph_Renumber_GPS(ncset, 0, compnadj, compadj, compmap, &curdepth,
+                         &curmaxwidth);
+      for (i = 0; i < ncset; i++)
+        nodemap[compnodes[i]] = nnew + compmap[i];
+      nnew += ncset;
+      *depth = (curdepth > *depth) ? curdepth : *depth;
+      *maxwidth = (curmaxwidth > *maxwidth) ? curmaxwidth : *maxwidth;
+
+      while (n_1 < nnodes && newindex[n_1] != -1) n_1++;
+      if (n_1 == nnodes) break;
+      ncset = Graph_Collect_Component(nadj, adj, offset, n_1, compnodes,
+                                      newindex);
+    }
 
+    free(compnadj);
+    free(compadj);
+    free(compmap);
+    free(compnodes);
+    free(newindex);
+    free(offset);
+    return 1;
+  }
+  free(compnodes);
+  free(newindex);
 
 
   /* Step I: Finding two extremal nodes representing the pseudo-diameter of
@@ -409,7 +495,7 @@ void Graph_Assign_Levels_MinWidth(int nnodes, int adj[], int nadj[], int offset[
       
         cset[0] = unmarked_node;
         ncset = 1;
-        tag[i] = 1;
+        tag[unmarked_node] = 1;
       
         for (j = 0; j < ncset; j++) {
           int node = cset[j];
@@ -633,6 +719,26 @@ void Graph_Assign_Numbers(int nnodes, int adj[], int nadj[], int offset[],
       }
 
       i++;
+
+      if (i == ncurlevnodes) {
+
+        /* Nodes in this level that are connected neither to a numbered
+           node of this level nor to one of the previous level would never
+           be numbered - continue with the one of lowest degree */
+
+        int mindeg = maxdeg+1, next = -1;
+        for (j = 0; j < nnodes; j++) {
+          if (level[j] == lev && nodemap[j] == -1 && nadj[j] < mindeg) {
+            mindeg = nadj[j];
+            next = j;
+          }
+        }
+        if (next != -1) {
+          nodemap[next] = nnew++;
+          tag[next] = 1;
+          curlevnodes[ncurlevnodes++] = next;
+        }
+      }
     }
 
     /* Next, for each of these nodes number the adjacent nodes that are in
-- 
2.43.0


From 0b373418ee114db0fdb381c8d52d29f8a662737b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 19/98] fix: MESH_Copy - lookups and new entities in the copy
 used stale maximum IDs; attribute named copyatt was not copied

---
 src/base/MESH_Copy.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/base/MESH_Copy.c b/src/base/MESH_Copy.c
index 21aa2a3..1036ea0 100644
--- a/src/base/MESH_Copy.c
+++ b/src/base/MESH_Copy.c
@@ -253,7 +253,7 @@ extern "C" {
 
         char attname[256];
         MAttrib_Get_Name(att,attname);
-        if (strcmp(attname,"copyatt") == 0) continue;
+        if (att == copyatt) continue;
 
         MAttType atttype = MAttrib_Get_Type(att);
         MType attentdim = MAttrib_Get_EntDim(att);
@@ -413,6 +413,11 @@ extern "C" {
 
     MAttrib_Delete(copyatt);
 
+    /* The copies got the IDs of the source entities - update the max IDs
+       stored in the mesh for assigning IDs to new entities and for searches */
+
+    MESH_Reset_Cached_MaxIDs(dstmesh);
+
     return 1;
   }
 
-- 
2.43.0


From 39b4dc9ce895227313c4752c218537c971b3e07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:23 +0000
Subject: [PATCH 20/98] fix: MFs_DihedralAngle decided how to compute the
 second face's normal from the first face

---
 src/hilev/MFs_DihedralAngle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hilev/MFs_DihedralAngle.c b/src/hilev/MFs_DihedralAngle.c
index c4c0d13..1eccf79 100644
--- a/src/hilev/MFs_DihedralAngle.c
+++ b/src/hilev/MFs_DihedralAngle.c
@@ -119,7 +119,7 @@ extern "C" {
 
     MSTK_VDiff3(fxyz[1],fxyz[0],vec1);
 
-    if (nfv1 == 3) { /* Triangles - always convex */
+    if (nfv2 == 3) { /* Triangles - always convex */
       MSTK_VDiff3(fxyz[2],fxyz[0],vec2);
     }
     else { /* Others - can be non-convex */
-- 
2.43.0


From a3fdcdbb6aab70d9ab63f84ee0b54f6b113d6daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:16 +0000
Subject: [PATCH 21/98] fix: MESH_GetElementGraph numbers elements by position
 and grows its array

---
 src/hilev/MESH_GetElementGraph.c | 33 +++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/hilev/MESH_GetElementGraph.c b/src/hilev/MESH_GetElementGraph.c
index 2506b50..9c33b93 100644
--- a/src/hilev/MESH_GetElementGraph.c
+++ b/src/hilev/MESH_GetElementGraph.c
@@ -21,6 +21,17 @@ https://github.com/MeshToolkit/MSTK/blob/master/LICENSE
 int MESH_GetElementGraph(Mesh_ptr mesh, int *nelems, int **adjbeg,
 			 int **adjelems) {
 
+  /* Elements are numbered by their position in the mesh; local IDs may
+     have gaps or be in another order */
+
+  MType elemtype = MESH_Num_Regions(mesh) ? MREGION : MFACE;
+  MAttrib_ptr posatt = MAttrib_New(mesh, "elemgraph_pos", INT, elemtype);
+  MEntity_ptr ent;
+  int ipos = 0, idx0 = 0;
+  while ((ent = (elemtype == MREGION) ? (MEntity_ptr) MESH_Next_Region(mesh, &idx0) :
+	  (MEntity_ptr) MESH_Next_Face(mesh, &idx0)))
+    MEnt_Set_IntAttVal(ent, posatt, ipos++);
+
   *nelems = MESH_Num_Regions(mesh);
   if (*nelems) {  /* 3D mesh */
 
@@ -41,7 +52,10 @@ int MESH_GetElementGraph(Mesh_ptr mesh, int *nelems, int **adjbeg,
       MFace_ptr rf;
       while ((rf = List_Next_Entry(rfaces, &idx2))) {
 	List_ptr fregs = MF_Regions(rf);
-	if (List_Num_Entries(fregs) == 1) continue;
+	if (List_Num_Entries(fregs) == 1) {
+	  List_Delete(fregs);
+	  continue;
+	}
 
 	MRegion_ptr oppr;
 	if (List_Entry(fregs,0) == mr)
@@ -50,9 +64,9 @@ int MESH_GetElementGraph(Mesh_ptr mesh, int *nelems, int **adjbeg,
 	  oppr = List_Entry(fregs,0);
 	if (pos == nalloc) {
 	  nalloc *= 2;
-	  *adjelems = (int *) realloc(adjelems, nalloc*sizeof(int));
+	  *adjelems = (int *) realloc(*adjelems, nalloc*sizeof(int));
 	}
-	(*adjelems)[pos] = MR_ID(oppr)-1;
+	(*adjelems)[pos] = MEnt_Get_IntAttVal(oppr, posatt);
 	pos++;
 	
 	List_Delete(fregs);
@@ -82,7 +96,10 @@ int MESH_GetElementGraph(Mesh_ptr mesh, int *nelems, int **adjbeg,
       MEdge_ptr fe;
       while ((fe = List_Next_Entry(fedges, &idx2))) {
 	List_ptr efaces = ME_Faces(fe);
-	if (List_Num_Entries(efaces) == 1) continue;
+	if (List_Num_Entries(efaces) == 1) {
+	  List_Delete(efaces);
+	  continue;
+	}
 
 	/* have to account for non-manifold configurations */
 	int idx3 = 0;
@@ -93,7 +110,7 @@ int MESH_GetElementGraph(Mesh_ptr mesh, int *nelems, int **adjbeg,
 	      nalloc *= 2;
 	      *adjelems = (int *) realloc(*adjelems, nalloc*sizeof(int));
 	    }
-	    (*adjelems)[pos] = MF_ID(ef)-1;
+	    (*adjelems)[pos] = MEnt_Get_IntAttVal(ef, posatt);
 	    pos++;
 	  }
 	}
@@ -105,5 +122,11 @@ int MESH_GetElementGraph(Mesh_ptr mesh, int *nelems, int **adjbeg,
     (*adjbeg)[*nelems] = pos;
   }
 
+  idx0 = 0;
+  while ((ent = (elemtype == MREGION) ? (MEntity_ptr) MESH_Next_Region(mesh, &idx0) :
+	  (MEntity_ptr) MESH_Next_Face(mesh, &idx0)))
+    MEnt_Rem_AttVal(ent, posatt);
+  MAttrib_Delete(posatt);
+
   return 1;
 }
-- 
2.43.0


From f9161d40e2ae064069cad15719999a28682c3739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:16 +0000
Subject: [PATCH 22/98] fix: ExodusII_GetElementGraph handles several
 polygonal/polyhedral blocks, pyramids and element centers

---
 src/io/ExodusII_GetElementGraph.c | 69 +++++++++++++++++++------------
 1 file changed, 42 insertions(+), 27 deletions(-)

diff --git a/src/io/ExodusII_GetElementGraph.c b/src/io/ExodusII_GetElementGraph.c
index 9dafa24..175bc97 100644
--- a/src/io/ExodusII_GetElementGraph.c
+++ b/src/io/ExodusII_GetElementGraph.c
@@ -216,19 +216,15 @@ extern "C" {
     int nelnodes, neledges, nelfaces;
     float version;
 
-    int exo_nrf[3] = {4,5,6};
-    int exo_nrfverts[3][6] =
-        {{3,3,3,3,0,0},{4,4,4,3,3,0},{4,4,4,4,4,4}};
+    int exo_nrf[4] = {4,5,5,6};    /* tet, wedge/prism, pyramid, hex */
+    int exo_nrfverts[4][6] =
+        {{3,3,3,3,0,0},{4,4,4,3,3,0},{3,3,3,3,4,0},{4,4,4,4,4,4}};
 
-    int exo_rfverts[3][6][4] =
+    int exo_rfverts[4][6][4] =
         {{{0,1,3,-1},{1,2,3,-1},{2,0,3,-1},{0,2,1,-1},{-1,-1,-1,-1},{-1,-1,-1,-1}},
          {{0,1,4,3},{1,2,5,4},{2,0,3,5},{0,2,1,-1},{3,4,5,-1},{-1,-1,-1,-1}},
+         {{0,1,4,-1},{1,2,4,-1},{2,3,4,-1},{3,0,4,-1},{0,3,2,1},{-1,-1,-1,-1}},
          {{0,1,5,4},{1,2,6,5},{2,3,7,6},{3,0,4,7},{0,3,2,1},{4,5,6,7}}};
-    int exo_rfdirs[3][6] =
-        {{1,1,1,1,-99,-99},
-         {1,1,1,1,1,-99},
-         {1,1,1,1,1,1}};
-
     ex_init_params exopar;
 
     FILE *fp;
@@ -334,6 +330,7 @@ extern "C" {
 	
       } else if (strncasecmp(elem_type,"TET",3) == 0 ||
 		 strncasecmp(elem_type,"WEDGE",5) == 0 ||
+		 strncasecmp(elem_type,"PYRAMID",7) == 0 ||
 		 strncasecmp(elem_type,"HEX",3) == 0) {
 
 	max_faces += 6*nel_in_blk;  /* overestimate to num faces of hex */
@@ -526,7 +523,7 @@ extern "C" {
 	}
 
 	for (j = 0; j < nel_in_blk; j++) {
-	  nelemfaces[j] = nnpe[j];
+	  nelemfaces[max_elem_id+j] = nnpe[j];
 	  elem_faces[max_elem_id+j] = (int *) malloc(nnpe[j]*sizeof(int));
 	}
 
@@ -585,6 +582,7 @@ extern "C" {
 
       } else if (strncasecmp(elem_type,"TET",3) == 0 ||
 		 strncasecmp(elem_type,"WEDGE",5) == 0 ||
+		 strncasecmp(elem_type,"PYRAMID",7) == 0 ||
 		 strncasecmp(elem_type,"HEX",3) == 0) {
 	int nrf, eltype;
 	
@@ -617,8 +615,16 @@ extern "C" {
 	    continue;
 	  }
 	}
-	else if (strncasecmp(elem_type,"HEX",3) == 0) {
+	else if (strncasecmp(elem_type,"PYRAMID",7) == 0) {
 	  eltype = 2;
+	  nrf = 5;
+	  if (nelnodes > 5) {
+	    MSTK_Report(funcname,"Higher order pyramids not supported",MSTK_WARN);
+	    continue;
+	  }
+	}
+	else if (strncasecmp(elem_type,"HEX",3) == 0) {
+	  eltype = 3;
 	  nrf = 6;
 	  if (nelnodes > 8) {
 	    MSTK_Report(funcname,"Higher order hexes not supported",MSTK_WARN);
@@ -690,7 +696,10 @@ extern "C" {
 		elem_faces[max_elem_id][k] = face->id;
 
 		// update "face"-to-element info
-		face->elem[1] = max_elem_id;
+		if (face->elem[0] == -1)
+		  face->elem[0] = max_elem_id;
+		else
+		  face->elem[1] = max_elem_id;
 		
 	      }
 	    }
@@ -698,8 +707,8 @@ extern "C" {
 
 	  if (get_coords) {
 	    double xcoord = 0.0, ycoord = 0.0, zcoord = 0.0;
-	    for (i = 0; i < nelnodes; i++) {
-	      int vid = connect[nelnodes*j+i];
+	    for (k = 0; k < nelnodes; k++) {
+	      int vid = connect[nelnodes*j+k];
 	      xcoord += xvals[vid-1];
 	      ycoord += yvals[vid-1];
 	      zcoord += zvals[vid-1];
@@ -744,7 +753,7 @@ extern "C" {
 	}
 
 	for (j = 0; j < nel_in_blk; j++) {
-	  nelemfaces[j] = nnpe[j];
+	  nelemfaces[max_elem_id+j] = nnpe[j];
 	  elem_faces[max_elem_id+j] = (int *) malloc(nnpe[j]*sizeof(int));
 	}
 
@@ -802,7 +811,10 @@ extern "C" {
 		elem_faces[max_elem_id][k] = face->id;
 
 		// update "face"-to-element info
-		face->elem[1] = max_elem_id;
+		if (face->elem[0] == -1)
+		  face->elem[0] = max_elem_id;
+		else
+		  face->elem[1] = max_elem_id;
 		
 	      }
 	    }
@@ -810,11 +822,11 @@ extern "C" {
 
 	  if (get_coords) {
 	    double xcoord = 0.0, ycoord = 0.0, zcoord = 0.0;
-	    for (i = 0; i < nnpe[j]; i++) {
-	      int vid = connect[offset+i];
-	      xcoord += xvals[vid]-1;
-	      ycoord += yvals[vid]-1;
-	      zcoord += zvals[vid]-1;
+	    for (k = 0; k < nnpe[j]; k++) {
+	      int vid = connect[offset+k];
+	      xcoord += xvals[vid-1];
+	      ycoord += yvals[vid-1];
+	      zcoord += zvals[vid-1];
 	    }
 	    (*elemcen)[max_elem_id][0] = xcoord/nnpe[j];
 	    (*elemcen)[max_elem_id][1] = ycoord/nnpe[j];
@@ -909,7 +921,10 @@ extern "C" {
 		elem_faces[max_elem_id][k] = face->id;
 
 		// update "face"-to-element info
-		face->elem[1] = max_elem_id;
+		if (face->elem[0] == -1)
+		  face->elem[0] = max_elem_id;
+		else
+		  face->elem[1] = max_elem_id;
 		
 	      }
 	    }
@@ -918,11 +933,11 @@ extern "C" {
 
 	  if (get_coords) {
 	    double xcoord = 0.0, ycoord = 0.0, zcoord = 0.0;
-	    for (i = 0; i < nelnodes; i++) {
-	      int vid = connect[nelnodes*j+i];
-	      xcoord += xvals[vid]-1;
-	      ycoord += yvals[vid]-1;
-	      zcoord += zvals[vid]-1;
+	    for (k = 0; k < nelnodes; k++) {
+	      int vid = connect[nelnodes*j+k];
+	      xcoord += xvals[vid-1];
+	      ycoord += yvals[vid-1];
+	      zcoord += zvals[vid-1];
 	    }
 	    (*elemcen)[max_elem_id][0] = xcoord/nelnodes;
 	    (*elemcen)[max_elem_id][1] = ycoord/nelnodes;
-- 
2.43.0


From a4d18aa969e3d15aa43b3d43ad46e1b84a45b35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:42 +0000
Subject: [PATCH 23/98] fix: MESH_ExportToExodusII leaves no attributes behind,
 honours opts[2] and writes long names, unset and many-component fields and
 all geometry edge sets

---
 src/io/MESH_ExportToExodusII.c | 56 +++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index 44d4f76..b55d18a 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -193,7 +193,7 @@ extern "C" {
 
     verbose = opts ? opts[0] : 0;  // default is 0
     enable_geometry_sets = opts ? opts[1] : 0;  // default is 0
-    enforce_contiguous_ids = opts ? opts[1] : 1; // default is 1
+    enforce_contiguous_ids = opts ? opts[2] : 1; // default is 1
 
     if (verbose)
       fprintf(stdout,"\nMesh representation type is %s\n", 
@@ -622,7 +622,8 @@ extern "C" {
     /* write global parameters */
     
     ex_init_params par;
-    strcpy(par.title,filename);
+    strncpy(par.title,filename,MAX_LINE_LENGTH);
+    par.title[MAX_LINE_LENGTH] = '\0';
     par.num_nodes = nvowned;
 
     if (element_dim == 3 || boundary_dim == 2)
@@ -1299,7 +1300,11 @@ extern "C" {
          attribute name with a keyword and component index */
 
       int num_node_atts_out = 0;      
-      char **node_att_names_out =  malloc(num_node_atts_glob*6*sizeof(char *));
+      int max_node_atts_out = 0;
+      for (j = 0; j < num_node_atts_glob; j++)
+        max_node_atts_out += 
+          MAttrib_Get_NumComps(MESH_AttribByName(mesh,node_att_names_glob[j]));
+      char **node_att_names_out =  malloc(max_node_atts_out*sizeof(char *));
 
       for (j = 0; j < num_node_atts_glob; j++) {
         MAttrib_ptr att = MESH_AttribByName(mesh,node_att_names_glob[j]);
@@ -1366,7 +1371,7 @@ extern "C" {
 
               MEnt_Get_AttVal(mv,vidatt,&vid,&rval,&pval);
               MEnt_Get_AttVal(mv,att,&ival,&rval,&pval);
-              node_vars[vid-1] = ((double *) pval)[n];
+              node_vars[vid-1] = pval ? ((double *) pval)[n] : 0.0;
             }
     
 #ifdef EXODUS_6_DEPRECATED         
@@ -1430,8 +1435,11 @@ extern "C" {
          attribute name with a keyword and component index */
 
       int num_element_atts_out = 0;      
-      char **element_att_names_out = 
-          malloc(num_element_atts_glob*6*sizeof(char *));
+      int max_element_atts_out = 0;
+      for (j = 0; j < num_element_atts_glob; j++)
+        max_element_atts_out += 
+          MAttrib_Get_NumComps(MESH_AttribByName(mesh,element_att_names_glob[j]));
+      char **element_att_names_out = malloc(max_element_atts_out*sizeof(char *));
 
       for (j = 0; j < num_element_atts_glob; j++) {
         MAttrib_ptr att = MESH_AttribByName(mesh,element_att_names_glob[j]);
@@ -1511,7 +1519,7 @@ extern "C" {
               idx = 0; k = 0;
               while ((ment = MSet_Next_Entry(element_blocks_glob[i],&idx))) {
                 MEnt_Get_AttVal(ment,att,&ival,&rval,&pval);
-                elem_vars[k++] = ((double *) pval)[n];
+                elem_vars[k++] = pval ? ((double *) pval)[n] : 0.0;
               }
               
 #ifdef EXODUS_6_DEPRECATED
@@ -1665,28 +1673,25 @@ extern "C" {
     }
       
 
-#ifdef MSTK_HAVE_MPI
-    if (comm) {
 #ifdef MSTK_USE_MARKERS
-      idx = 0;
-      while ((mr = MESH_Next_Region(mesh,&idx)))
-        MEnt_Unmark(mr,ownedmk);
-      idx = 0;
-      while ((mf = MESH_Next_Face(mesh,&idx)))
-        MEnt_Unmark(mf,ownedmk);
-      idx = 0;
-      while ((me = MESH_Next_Edge(mesh,&idx)))
-        MEnt_Unmark(me,ownedmk);
-      idx = 0;
-      while ((mv = MESH_Next_Vertex(mesh,&idx)))
-        MEnt_Unmark(mv,ownedmk);
+    idx = 0;
+    while ((mr = MESH_Next_Region(mesh,&idx)))
+      MEnt_Unmark(mr,ownedmk);
+    idx = 0;
+    while ((mf = MESH_Next_Face(mesh,&idx)))
+      MEnt_Unmark(mf,ownedmk);
+    idx = 0;
+    while ((me = MESH_Next_Edge(mesh,&idx)))
+      MEnt_Unmark(me,ownedmk);
+    idx = 0;
+    while ((mv = MESH_Next_Vertex(mesh,&idx)))
+      MEnt_Unmark(mv,ownedmk);
       
-      MSTK_FreeMarker(ownedmk);
+    MSTK_FreeMarker(ownedmk);
 #else
-      MAttrib_Delete(ownedatt);
-#endif
-    }
+    MAttrib_Delete(ownedatt);
 #endif
+    MAttrib_Delete(block_type_att);
 
 
     idx = 0;
@@ -2278,6 +2283,7 @@ extern "C" {
         /* create sidesets from sets of edges classified on the same
            geometric model edge */
 
+        idx = 0;
         while ((me = MESH_Next_Edge(mesh,&idx))) {
           if (ME_GEntDim(me) != 1) continue;
           
-- 
2.43.0


From 75116a45929936ef03d90dee4a834cc362851900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:42 +0000
Subject: [PATCH 24/98] fix: Exodus II readers match faces by vertex count,
 classify faces on their block, read pyramids, surface element sets and
 non-convex polyhedron faces right

---
 src/io/MESH_ReadExodusII_Partial.c |  2 ++
 src/io/MESH_ReadExodusII_Serial.c  | 25 +++++++++++++++++--------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/io/MESH_ReadExodusII_Partial.c b/src/io/MESH_ReadExodusII_Partial.c
index 8b9553a..74f68ec 100644
--- a/src/io/MESH_ReadExodusII_Partial.c
+++ b/src/io/MESH_ReadExodusII_Partial.c
@@ -864,6 +864,8 @@ extern "C" {
 		for (ii = 0; ii < nvfaces; ii++) {
 		  MFace_ptr vface = List_Entry(vfaces,ii);
 	      
+		  if (MF_Num_Vertices(vface) != nfv) continue;
+
 		  int jj, has_all_verts = 1;
 		  for (jj = 0; jj < nfv; jj++)
 		    if (!MF_UsesEntity(vface,fverts[jj],MVERTEX)) {
diff --git a/src/io/MESH_ReadExodusII_Serial.c b/src/io/MESH_ReadExodusII_Serial.c
index 8faa650..fd72b60 100644
--- a/src/io/MESH_ReadExodusII_Serial.c
+++ b/src/io/MESH_ReadExodusII_Serial.c
@@ -77,7 +77,7 @@ extern "C" {
     int exo_rfdirs[4][6] =
         {{1,1,1,1,-99,-99},
          {1,1,1,1,1,-99},
-         {1,1,1,1,-99,-99},
+         {1,1,1,1,1,-99},
          {1,1,1,1,1,1}};
 
     List_ptr fedges, rfaces;
@@ -958,6 +958,8 @@ extern "C" {
                 for (ii = 0; ii < nvfaces; ii++) {
                   MFace_ptr vface = List_Entry(vfaces,ii);
 
+                  if (MF_Num_Vertices(vface) != nfv) continue;
+
                   int jj, has_all_verts = 1;
                   for (jj = 0; jj < nfv; jj++)
                     if (!MF_UsesEntity(vface,fverts[jj],MVERTEX)) {
@@ -1100,7 +1102,7 @@ extern "C" {
             MF_Set_Vertices(mf,nnpe[j],fverts);
 
             MF_Set_GEntID(mf, elem_blk_ids[i]);
-            MF_Set_GEntID(mf, 2);
+            MF_Set_GEntDim(mf, 2);
 
             if (mesh_type == 1 || mesh_type == 3) {
               MEnt_Set_AttVal(mf,elblockatt,elem_blk_ids[i],0.0,NULL);
@@ -1150,7 +1152,7 @@ extern "C" {
             MF_Set_Vertices(mf,nelnodes,fverts);
 
             MF_Set_GEntID(mf, elem_blk_ids[i]);
-            MF_Set_GEntID(mf, 2);
+            MF_Set_GEntDim(mf, 2);
 
             if (mesh_type == 1 || mesh_type == 3) {
               MEnt_Set_AttVal(mf,elblockatt,elem_blk_ids[i],0.0,NULL);
@@ -1326,16 +1328,22 @@ extern "C" {
                 for (k1 = 0; k1 < 3; k1++) fcen[k][k1] /= nfv;
                 List_Delete(fverts);
               
+                /* Area vector of the face relative to the face size - summing
+                   unit normals at the corners gives the wrong direction if the
+                   face has many reflex corners */
+
+                double len2sum = 0.0;
                 fnormal[k][0] = fnormal[k][1] = fnormal[k][2] = 0.0;
                 for (k1 = 0; k1 < nfv; k1++) {
                   double vec1[3], vec2[3], normal[3];
-                  MSTK_VDiff3(fxyz[(k1+1)%nfv], fxyz[k1], vec1);
-                  MSTK_VDiff3(fxyz[(k1+nfv-1)%nfv], fxyz[k1], vec2);
+                  MSTK_VDiff3(fxyz[k1], fcen[k], vec1);
+                  MSTK_VDiff3(fxyz[(k1+1)%nfv], fcen[k], vec2);
                   MSTK_VCross3(vec1, vec2, normal);
-                  double len2 = MSTK_VLenSqr3(normal);
-                  if (len2 > 0.0) MSTK_VNormalize3(normal);
+                  len2sum += MSTK_VLenSqr3(vec1);
                   MSTK_VSum3(fnormal[k], normal, fnormal[k]);
                 }
+                if (len2sum > 0.0)
+                  for (k1 = 0; k1 < 3; k1++) fnormal[k][k1] /= len2sum;
               }
               for (k = 0; k < 3; k++) rcen[k] /= nrv;
             
@@ -1785,7 +1793,8 @@ extern "C" {
           char elemsetname[256];
           sprintf(elemsetname,"elemset_%-d",elemset_ids[i]);
 	
-          MSet_ptr elemset = MSet_New(mesh,elemsetname,MREGION);
+          MSet_ptr elemset = MSet_New(mesh,elemsetname,
+                                      (mesh_type == 1) ? MFACE : MREGION);
       
           status = ex_get_set_param(exoid, EX_ELEM_SET, elemset_ids[i],
                                     &num_elems_in_set, &num_df_in_set);
-- 
2.43.0


From 2a5957cdfb2543671b09e0f835d0eeafa61578fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:53 +0000
Subject: [PATCH 25/98] fix: native format keeps attribute values at full
 precision and writes and reads reduced-representation files consistently

---
 src/base/MESH_InitFromFile.c | 19 +++++-----
 src/base/MESH_WriteToFile.c  | 69 +++++++++++++++++++-----------------
 2 files changed, 46 insertions(+), 42 deletions(-)

diff --git a/src/base/MESH_InitFromFile.c b/src/base/MESH_InitFromFile.c
index 9fad8e3..ba8e5a1 100644
--- a/src/base/MESH_InitFromFile.c
+++ b/src/base/MESH_InitFromFile.c
@@ -49,7 +49,7 @@ extern "C" {
   RepType file_reptype;
 
   if (!(fp = fopen(filename,"r"))) {
-    sprintf(temp_str,"Cannot open file %s",filename);
+    snprintf(temp_str,sizeof(temp_str),"Cannot open file %s",filename);
     MSTK_Report("MESH_InitFromFile",temp_str,MSTK_ERROR);
     return 0;
   }
@@ -152,8 +152,10 @@ extern "C" {
     if (mesh->ne || mesh->nf || mesh->nr)
       MSTK_Report("MESH_InitFromFile",
 		  "Premature end of file after vertex data",MSTK_FATAL);
-    else
-      return 0;
+    else {
+      fclose(fp);
+      return 1;
+    }
   }
 
 
@@ -788,13 +790,8 @@ extern "C" {
   if (processed_adjr) {
     status = fscanf(fp,"%s",temp_str);
     if (status == EOF) {
-      if (mesh->reptype == R2)
-	MSTK_Report("MESH_InitFromFile",
-		    "Premature end of file after reading regions",MSTK_FATAL);
-      else {
-        fclose(fp);
-	return 1;
-      }
+      fclose(fp);
+      return 1;
     }
   }
 
@@ -914,6 +911,7 @@ extern "C" {
 	}
 	else {
 
+	  rval_arr = NULL;
 	  if (atttype == INT)
 	    status = fscanf(fp,"%d",&ival);
 	  else if (atttype == DOUBLE)
@@ -945,6 +943,7 @@ extern "C" {
 	  }
 	  
 	  MEnt_Set_AttVal(ent,attrib,ival,rval,(void *)rval_arr);
+	  if (rval_arr) free(rval_arr);  /* value was copied */
 	  
 	}
 
diff --git a/src/base/MESH_WriteToFile.c b/src/base/MESH_WriteToFile.c
index 2973c5d..e7ea468 100644
--- a/src/base/MESH_WriteToFile.c
+++ b/src/base/MESH_WriteToFile.c
@@ -29,7 +29,7 @@ extern "C" {
 
   int MESH_WriteToFile(Mesh_ptr mesh, const char *filename, RepType rtype, MSTK_Comm comm) {
   FILE *fp;
-  char mesg[80], attname[256];
+  char mesg[512], attname[256];
   int i, j, k, idx;
   int gdim, gid;
   int mvid, mvid0, mvid1, mvid2, mrid2, meid, mfid, mrid;
@@ -44,6 +44,7 @@ extern "C" {
   MRegion_ptr mr, mr2;
   List_ptr adjverts, mfedges, mfverts, mrfaces, mrverts, adjregs;
   RepType reptype;
+  int have_edges, have_faces;
   MAttrib_ptr attrib, vidatt, eidatt, fidatt, ridatt;
   MType attentdim;
   MAttType atttype;
@@ -66,7 +67,7 @@ extern "C" {
 #endif
   
   if (!(fp = fopen(modfilename,"w"))) {
-    sprintf(mesg,"Cannot open file %-s for writing",modfilename);
+    snprintf(mesg,sizeof(mesg),"Cannot open file %-s for writing",modfilename);
     MSTK_Report("MESH_WriteToFile",mesg,MSTK_ERROR);
     return 0;
   }
@@ -83,6 +84,11 @@ extern "C" {
   nf = MESH_Num_Faces(mesh);
   nr = MESH_Num_Regions(mesh);
 
+  /* Are edges and faces listed in a file of this representation type? */
+
+  have_edges = (reptype <= F4);
+  have_faces = (reptype <= F4 || reptype > R2 || nr == 0);
+
   fprintf(fp,"MSTK %-2.1lf\n",MSTK_FILE_VER);
   fprintf(fp,"%s %d %d %d %d\n",
 	  MESH_rtype_str[reptype], 
@@ -149,7 +155,7 @@ extern "C" {
 
 
 
-  if (reptype <= F4 && ne) {
+  if (reptype <= F4) {
     fprintf(fp,"edges\n");
 
     idx = 0;
@@ -237,7 +243,7 @@ extern "C" {
 
 
   if (nr) {
-    if (reptype <= F4 || reptype >= R2) {
+    if (reptype <= F4 || reptype > R2) {
       fprintf(fp,"regions face\n");
 
       idx = 0;
@@ -292,10 +298,9 @@ extern "C" {
       idx = 0;
       while ((mr = MESH_Next_Region(mesh,&idx))) {
 
-	nar = MR_Num_Faces(mr);
-	fprintf(fp,"%d ",nar);
-
 	adjregs = MR_AdjRegions(mr);
+	nar = adjregs ? List_Num_Entries(adjregs) : 0;
+	fprintf(fp,"%d ",nar);
 
 	for (j = 0; j < nar; j++) {
 	  mr2 = List_Entry(adjregs,j);
@@ -307,7 +312,7 @@ extern "C" {
 	  }
 	}
 	fprintf(fp,"\n");
-	List_Delete(adjregs);
+	if (adjregs) List_Delete(adjregs);
       }
     }
   }
@@ -351,12 +356,12 @@ extern "C" {
 	break;
       case MEDGE:
 	idx = 0;
-	while ((me = MESH_Next_Edge(mesh,&idx)))
+	while (have_edges && (me = MESH_Next_Edge(mesh,&idx)))
 	  if (MEnt_Get_AttVal(me,attrib,&ival,&rval,&pval)) nent++;
 	break;
       case MFACE:
 	idx = 0;
-	while ((mf = MESH_Next_Face(mesh,&idx)))
+	while (have_faces && (mf = MESH_Next_Face(mesh,&idx)))
 	  if (MEnt_Get_AttVal(mf,attrib,&ival,&rval,&pval)) nent++;	    
 	break;
       case MREGION: 
@@ -369,10 +374,10 @@ extern "C" {
 	while ((mv = MESH_Next_Vertex(mesh,&idx)))
 	  if (MEnt_Get_AttVal(mv,attrib,&ival,&rval,&pval)) nent++;
 	idx = 0;
-	while ((me = MESH_Next_Edge(mesh,&idx)))
+	while (have_edges && (me = MESH_Next_Edge(mesh,&idx)))
 	  if (MEnt_Get_AttVal(me,attrib,&ival,&rval,&pval)) nent++;
 	idx = 0;
-	while ((mf = MESH_Next_Face(mesh,&idx)))
+	while (have_faces && (mf = MESH_Next_Face(mesh,&idx)))
 	  if (MEnt_Get_AttVal(mf,attrib,&ival,&rval,&pval)) nent++;	    
 	idx = 0;
 	while ((mr = MESH_Next_Region(mesh,&idx)))
@@ -448,12 +453,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.17lg ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.17lg ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -464,7 +469,7 @@ extern "C" {
 	break;
       case MEDGE:
 	idx = 0;
-	while ((me = MESH_Next_Edge(mesh,&idx))) {
+	while (have_edges && (me = MESH_Next_Edge(mesh,&idx))) {
 	  if (MEnt_Get_AttVal(me,attrib,&ival,&rval,&pval)) {
 	    MEnt_Get_AttVal(me,eidatt,&meid,&rdummy,&pdummy);
 	    fprintf(fp,"1 %-d ",meid);
@@ -473,12 +478,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.17lg ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.17lg ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -489,7 +494,7 @@ extern "C" {
 	break;
       case MFACE:
 	idx = 0;
-	while ((mf = MESH_Next_Face(mesh,&idx))) {
+	while (have_faces && (mf = MESH_Next_Face(mesh,&idx))) {
 	  if (MEnt_Get_AttVal(mf,attrib,&ival,&rval,&pval)) {
 	    MEnt_Get_AttVal(mf,fidatt,&mfid,&rdummy,&pdummy);
 	    fprintf(fp,"2 %-d ",mfid);
@@ -498,12 +503,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.17lg ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.17lg ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -524,12 +529,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.17lg ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.17lg ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -550,12 +555,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.17lg ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.17lg ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -564,7 +569,7 @@ extern "C" {
 	  }
 	}
 	idx = 0;
-	while ((me = MESH_Next_Edge(mesh,&idx))) {
+	while (have_edges && (me = MESH_Next_Edge(mesh,&idx))) {
 	  if (MEnt_Get_AttVal(me,attrib,&ival,&rval,&pval)) {
 	    MEnt_Get_AttVal(me,eidatt,&meid,&rdummy,&pdummy);
 	    fprintf(fp,"1 %-d ",meid);
@@ -573,12 +578,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.17lg ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.17lg ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -587,7 +592,7 @@ extern "C" {
 	  }
 	}
 	idx = 0;
-	while ((mf = MESH_Next_Face(mesh,&idx))) {
+	while (have_faces && (mf = MESH_Next_Face(mesh,&idx))) {
 	  if (MEnt_Get_AttVal(mf,attrib,&ival,&rval,&pval)) {
 	    MEnt_Get_AttVal(mf,fidatt,&mfid,&rdummy,&pdummy);
 	    fprintf(fp,"2 %-d ",mfid);
@@ -596,12 +601,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.17lg ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.17lg ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -619,12 +624,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.17lg ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.17lg ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
-- 
2.43.0


From b0eb886347d85741dd42919572c351ae1bfb4268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:34 +0000
Subject: [PATCH 26/98] fix: GMV export and import agree on pyramids,
 face-based cells, line and mixed cells, and keep values at full precision

---
 src/io/MESH_ExportToGMV.c   |  91 ++++++------
 src/io/MESH_ImportFromGMV.c | 266 +++++++++++++++++-------------------
 2 files changed, 174 insertions(+), 183 deletions(-)

diff --git a/src/io/MESH_ExportToGMV.c b/src/io/MESH_ExportToGMV.c
index 4e6f443..c1f2168 100644
--- a/src/io/MESH_ExportToGMV.c
+++ b/src/io/MESH_ExportToGMV.c
@@ -49,7 +49,7 @@ extern "C" {
 int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt, 
 		     const char **attnames, const int *opts, MSTK_Comm comm) {
 
-  int			gentid, *gentities;
+  int			status=1, gentid, *gentities=NULL;
   MFType		ftype;
   MRType                rtype;
   List_ptr		rverts, fverts, rfaces, fregs, efaces;
@@ -77,16 +77,16 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
   time_t                ctime;
 
   int			rtmpl[5][8] =   {{0,2,1,3,-1,-1,-1,-1},
-					 {0,3,2,1,4,-1,-1,-1},
+					 {4,0,1,2,3,-1,-1,-1},
 					 {3,4,5,0,1,2,-1,-1},
 					 {-1,-1,-1,-1,-1,-1,-1,-1},
 					 {4,5,6,7,0,1,2,3}};
   MAttrib_ptr    vidatt=0,eidatt=0,fidatt=0,ridatt=0;
-  char funcname[256] = "MESH_ExportToGMV", mesg[256];
+  char funcname[256] = "MESH_ExportToGMV", mesg[512];
 
   gmodel = 1;
 
-  char modfilename[256];
+  char *modfilename = (char *) malloc((strlen(filename)+16)*sizeof(char));
 
   int rank=0, numprocs=1;
 #ifdef MSTK_HAVE_MPI
@@ -104,9 +104,10 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
 #endif
 
   if (!(fp = fopen(modfilename,"w"))) {
-    sprintf(mesg,"Cannot open file %s for writing",modfilename);
+    snprintf(mesg,sizeof(mesg),"Cannot open file %s for writing",modfilename);
     MSTK_Report(funcname,mesg,MSTK_FATAL);
   }
+  free(modfilename);
 
 
   fprintf(fp,"gmvinput ascii\n");
@@ -149,7 +150,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
       idgaps = 1;
    }
   nf = MESH_Num_Faces(mesh);
-  if (ne && !idgaps) {
+  if (nf && !idgaps) {
     maxid = 0;
     minid = 1e+9;
     idx = 0;
@@ -178,9 +179,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
 
   /* Now build up the vertex list sorted by ID and write them out */
 
-  vidatt = MESH_AttribByName(mesh,"vidatt");
-  if (!vidatt)
-    vidatt = MAttrib_New(mesh,"vidatt",INT,MVERTEX);
+  vidatt = MAttrib_New(mesh,"vidatt",INT,MVERTEX);
 
   vlist = List_New(nv);
   idx = 0; i = 1; 
@@ -206,7 +205,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
     idx = 0;
     while ((vertex = List_Next_Entry(vlist,&idx))) {
       MV_Coords(vertex,vxyz);
-      fprintf(fp,"% 20.12f % 20.12lf % 20.12lf\n",vxyz[0],vxyz[1],vxyz[2]);
+      fprintf(fp,"% 20.17g % 20.17g % 20.17g\n",vxyz[0],vxyz[1],vxyz[2]);
     }
   }
   else {
@@ -224,17 +223,17 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
     }
 
     for (jv = 0; jv < nv; jv++) {
-      fprintf(fp,"% 20.12lf",xcoord[jv]);
+      fprintf(fp," % 20.17g",xcoord[jv]);
       if (jv%5 == 0 || jv == nv-1)
 	fprintf(fp,"\n");
     }
     for (jv = 0; jv < nv; jv++) {
-      fprintf(fp,"% 20.12lf",ycoord[jv]);
+      fprintf(fp," % 20.17g",ycoord[jv]);
       if (jv%5 == 0 || jv == nv-1)
 	fprintf(fp,"\n");
     }
     for (jv = 0; jv < nv; jv++) {
-      fprintf(fp,"% 20.12lf",zcoord[jv]);
+      fprintf(fp," % 20.17g",zcoord[jv]);
       if (jv%5 == 0 || jv == nv-1)
 	fprintf(fp,"\n");
     }
@@ -257,9 +256,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
     ncells3 = nr;
     ncells += nr;
 
-    ridatt = MESH_AttribByName(mesh,"ridatt");
-    if (!ridatt)
-      ridatt = MAttrib_New(mesh,"ridatt",INT,MREGION);
+    ridatt = MAttrib_New(mesh,"ridatt",INT,MREGION);
 
     rlist = List_New(nr);
 
@@ -287,9 +284,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
 
   if (nf) {
 
-    fidatt = MESH_AttribByName(mesh,"fidatt");
-    if (!fidatt)
-      fidatt = MAttrib_New(mesh,"fidatt",INT,MFACE);
+    fidatt = MAttrib_New(mesh,"fidatt",INT,MFACE);
 
     flist = List_New(nf);
 
@@ -331,9 +326,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
 
     elist = List_New(ne);
 
-    eidatt = MESH_AttribByName(mesh,"eidatt");
-    if (!eidatt)
-      eidatt = MAttrib_New(mesh,"eidatt",INT,MEDGE);
+    eidatt = MAttrib_New(mesh,"eidatt",INT,MEDGE);
 
     ncells1 = 0;
     idx = 0; i = 1;
@@ -356,7 +349,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
       tempid = idgaps ? i : ME_ID(edge);
       MEnt_Set_AttVal(edge,eidatt,tempid,0.0,NULL);
 
-      if (tempid != prev_tempid) sorted = 0;
+      if (tempid != prev_tempid+1) sorted = 0;
       prev_tempid = tempid;
 
       i++;
@@ -369,6 +362,14 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
 
 
 
+  if (opts && opts[1] == 1 && (ncells2 || ncells1)) {
+    /* cells described by faces cannot be mixed with others in a file */
+    MSTK_Report(funcname,"vface2d not yet implemented",MSTK_WARN);
+    status = 0;
+    goto cleanup;
+  }
+
+
   /* write region connectivity for entire mesh */
 
   ngent = 0;
@@ -520,7 +521,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
              out. Vice versa if this region ID is higher */
 
           fregs = MF_Regions(face);
-          if (fregs && List_Num_Entries(fregs) == 2) {
+          if (List_Num_Entries(fregs) == 2) {
 	  
             oppreg = List_Entry(fregs,0);
             if (oppreg == region)
@@ -541,9 +542,12 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
             MEnt_Get_AttVal(face,fidatt,&fid,&rval,&pval);
             fprintf(fp,"% d ",fid);
           }
+          List_Delete(fregs);
         }
         fprintf(fp,"\n");
 
+        List_Delete(rfaces);
+
         gentid = MR_GEntID(region);
       
         found = 0;
@@ -687,6 +691,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
           }
           List_Delete(fregs);
         }
+        List_Delete(rfaces);
 
       }
 
@@ -699,11 +704,6 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
 
   
   if (ncells2) {
-    if (opts && opts[1] == 1) {
-      MSTK_Report(funcname,"vface2d not yet implemented",MSTK_WARN);
-      return 0;
-    }
-
     idx = 0;
     while ((face = List_Next_Entry(flist,&idx))) {
       int fmarked;
@@ -943,6 +943,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
     }
 
     if (ncells2) {
+      idx = 0;
       while ((face = List_Next_Entry(flist,&idx))) {
         int fmarked;
 #ifdef MSTK_USE_MARKERS
@@ -1012,6 +1013,14 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
     for (i = 0, noutatt = 0; i < nmeshatt; i++) {
       attrib = MESH_Attrib(mesh,i);
       
+      /* special attributes created for writing out the file */
+
+      if (attrib == vidatt || attrib == eidatt || attrib == fidatt ||
+          attrib == ridatt) continue;
+#ifndef MSTK_USE_MARKERS
+      if (attrib == cellmkatt) continue;
+#endif
+
       attentdim = MAttrib_Get_EntDim(attrib);
       if ((attentdim == MVERTEX)  || (attentdim == MREGION) || 
           (ncells2 && attentdim == MFACE) || 
@@ -1037,9 +1046,12 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
               continue;
 	  }
           else {
-            if (strncmp(attname+1,"idatt",5) == 0) {
-              /* this is a special MSTK attribute created for writing out
-                 contiguous entity IDs - ignore it */
+            if (strcmp(attname,"itetclr") == 0 || strcmp(attname,"icr1") == 0 ||
+                strcmp(attname,"Node_GlobalID") == 0 ||
+                strcmp(attname,"Node_MasterPID") == 0 ||
+                strcmp(attname,"Cell_GlobalID") == 0 ||
+                strcmp(attname,"Cell_MasterPID") == 0) {
+              /* read from a GMV file - always written out anyway */
               continue;
             }
             else {
@@ -1079,7 +1091,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
 	    k++;
 	  }
 	  else if (atttype == DOUBLE) {
-	    fprintf(fp,"%14.7lf ", rval);
+	    fprintf(fp,"%.17g ", rval);
 	    if ((k+1)%5 == 0 && k != nv) fprintf(fp,"\n");
 	    k++;
 	  }
@@ -1103,7 +1115,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
               k++;
             }
             else if (atttype == DOUBLE) {
-              fprintf(fp,"%lf ", rval);
+              fprintf(fp,"%.17g ", rval);
               if ((k+1)%5 == 0) fprintf(fp,"\n");
               k++;
             }
@@ -1131,7 +1143,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
 	      k++;
 	    }
 	    else if (atttype == DOUBLE) {
-	      fprintf(fp,"%lf ", rval);
+	      fprintf(fp,"%.17g ", rval);
 	      if ((k+1)%5 == 0) fprintf(fp,"\n");
 	      k++;
 	    }
@@ -1159,7 +1171,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
 	      k++;
 	    }
 	    else if (atttype == DOUBLE) {
-	      fprintf(fp,"%lf ", rval);
+	      fprintf(fp,"%.17g ", rval);
 	      if ((k+1)%5 == 0) fprintf(fp,"\n");
 	      k++;
 	    }
@@ -1312,11 +1324,12 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
 
   fprintf(fp,"endgmv\n");
 
-  fclose(fp);
 
+  /* Clean up */
 
+ cleanup:
 
-  /* Clean up */
+  fclose(fp);
 
   free(gentities);
 
@@ -1348,7 +1361,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
   if (flist) List_Delete(flist);
   if (rlist) List_Delete(rlist);
 
-  return 1;
+  return status;
 }
 
 #ifdef __cplusplus
diff --git a/src/io/MESH_ImportFromGMV.c b/src/io/MESH_ImportFromGMV.c
index 8419e30..1f7588b 100644
--- a/src/io/MESH_ImportFromGMV.c
+++ b/src/io/MESH_ImportFromGMV.c
@@ -17,6 +17,35 @@ extern "C" {
 #endif
 
 
+  /* Classify a cell on the model entity of its own dimension given by a
+     material number */
+
+  static void GMV_SetCellMaterial(MEntity_ptr cell, int matnum) {
+
+    MEnt_Set_GEntID(cell,matnum);
+    if (MEnt_Dim(cell) == MFACE)
+      MEnt_Set_GEntDim(cell,2);
+    else if (MEnt_Dim(cell) == MEDGE)
+      MEnt_Set_GEntDim(cell,1);
+  }
+
+  /* Dimension of the cells in the list, MALLTYPE if they are mixed */
+
+  static MType GMV_CellType(List_ptr cells) {
+    int i;
+    MType type = MUNKNOWNTYPE;
+
+    for (i = 0; i < List_Num_Entries(cells); i++) {
+      MType dim = MEnt_Dim(List_Entry(cells,i));
+      if (type == MUNKNOWNTYPE)
+        type = dim;
+      else if (type != dim)
+        type = MALLTYPE;
+    }
+    return type;
+  }
+
+
   int MESH_ImportFromGMV(Mesh_ptr mesh, const char *filename, MSTK_Comm comm) {
 
   char funcname[32] = "MESH_ImportFromGMV";
@@ -33,11 +62,12 @@ extern "C" {
   int cells_present=0, faces_present=0, non_vface_cells=0, nodes_read=0;
   double (*xyzarr)[3], xyz[3];
   char temp_str[256], cell_str[256], data_type[256], mesg_str[256];
-  char modfilename[256];
+  MType celltype=MUNKNOWNTYPE;
+  List_ptr cells=List_New(10);  /* cells in the order of the file */
   int distributed=0;
 
   int rtmpl[5][8] = {{0,2,1,3,-1,-1,-1,-1},
-		     {1,2,3,4,0,-1,-1,-1},
+		     {4,0,1,2,3,-1,-1,-1},
 		     {3,4,5,0,1,2,-1,-1},
 		     {-1,-1,-1,-1,-1,-1,-1,-1},  /* dummy 7 node element */
 		     {4,5,6,7,0,1,2,3}};
@@ -60,7 +90,8 @@ extern "C" {
   if (numprocs > 1) {
     distributed = 1;
 
-    sprintf(modfilename,"%s.%5d",filename,rank);
+    char *modfilename = (char *) malloc((strlen(filename)+16)*sizeof(char));
+    sprintf(modfilename,"%s.%05d",filename,rank);
     if (!(fp = fopen(modfilename,"r"))) {
       
       sprintf(modfilename,"%s.%d",filename,rank);      
@@ -70,22 +101,26 @@ extern "C" {
 
         if (rank == 0) {          
           if (!(fp = fopen(filename,"r"))) {            
-            sprintf(mesg_str,"Cannot open parallel file %s.%5d or %s.%d or serial file %s",filename,rank,filename,rank,filename);            
+            snprintf(mesg_str,sizeof(mesg_str),"Cannot open parallel file %s.%05d or %s.%d or serial file %s",filename,rank,filename,rank,filename);            
             MSTK_Report(funcname,mesg_str,MSTK_FATAL);
           }
         }
-        else
+        else {
+          free(modfilename);
+          List_Delete(cells);
           return 1;
+        }
 
       }
     }
+    free(modfilename);
 
   }
   else {
     distributed = 0;
 
     if (!(fp = fopen(filename,"r"))) {
-      sprintf(mesg_str,"Cannot open GMV file %s",filename);
+      snprintf(mesg_str,sizeof(mesg_str),"Cannot open GMV file %s",filename);
       MSTK_Report(funcname,mesg_str,MSTK_FATAL);
     }
   }
@@ -95,7 +130,7 @@ extern "C" {
   distributed = 0;
 
   if (!(fp = fopen(filename,"r"))) {
-    sprintf(mesg_str,"Cannot open GMV file %s",filename);
+    snprintf(mesg_str,sizeof(mesg_str),"Cannot open GMV file %s",filename);
     MSTK_Report(funcname,mesg_str,MSTK_FATAL);
   }
 
@@ -135,9 +170,11 @@ extern "C" {
   done = 0; 
   while (!done) {
     status = fscanf(fp,"%s",temp_str);
-    if (status == EOF)
+    if (status == EOF) {
       MSTK_Report("MESH_ImportFromGMV","End of file but 'endgmv' not found?",
 		  MSTK_WARN);
+      break;
+    }
 
 
     /* READ COMMENTS IF THEY EXIST */
@@ -272,7 +309,8 @@ extern "C" {
 	  
 	  me = ME_New(mesh);
 	  for (j = 0; j < 2; j++)
-	    ME_Set_Vertex(me,0,vtx[j]);
+	    ME_Set_Vertex(me,j,vtx[j]);
+	  List_Add(cells,me);
 
 	  non_vface_cells = 1;
 	}
@@ -319,6 +357,7 @@ extern "C" {
 	  mf = MF_New(mesh);
 
 	  MF_Set_Vertices(mf,nvtx,vtx);
+	  List_Add(cells,mf);
 
 	  non_vface_cells = 1;
 	}
@@ -371,6 +410,7 @@ extern "C" {
 
 	  mr = MR_New(mesh);
 	  MR_Set_Vertices(mr,nvtx,vtx,0,NULL);
+	  List_Add(cells,mr);
 
 	  non_vface_cells = 1;
 	}
@@ -441,10 +481,12 @@ extern "C" {
 	    
 	    mf = MF_New(mesh);
 	    MF_Set_Vertices(mf,nvtx,vtx);
+	    List_Add(cells,mf);
 	  }
 	  else {
 	    mr = MR_New(mesh);
 	    MR_Set_Vertices(mr,nvtx,vtx,nrf,rfv_template);	  
+	    List_Add(cells,mr);
 	  }
 
 	  non_vface_cells = 1;
@@ -530,6 +572,7 @@ extern "C" {
 	for (i = 0; i < MAXPF3; i++)
 	  free(rfv_template[i]);
 	free(rfv_template);
+	rfv_template = NULL;
       }
 
       /* END READING CELLS (EXCEPT VFACES FOR VFACE2D and VFACE3D) */
@@ -584,11 +627,11 @@ extern "C" {
 	}
 
 	if (vface2d) {
-	  if (opp_fid && opp_fid < fid) {
+	  if (opp_fid && opp_fid <= j) {
 
 	    /* Edge must have already been defined for adjacent face */
 
-	    vedge[j] = MVs_CommonEdge(vtx[0],vtx[1]);
+	    vedge[j] = vedge[opp_fid-1];
 
 	    if (!vedge[j]) {
 	      MSTK_Report("MESH_ImportFromGMV",
@@ -609,11 +652,11 @@ extern "C" {
 	  }
 	}
 	else {
-	  if (opp_fid && opp_fid < fid) {
+	  if (opp_fid && opp_fid <= j) {
 
 	    /* Face must have already been defined for adjacent region */
 
-	    vface[j] = MVs_CommonFace(nvtx,vtx);
+	    vface[j] = vface[opp_fid-1];
 
 	    if (!vface[j]) {
 	      MSTK_Report("MESH_ImportFromGMV",
@@ -651,6 +694,7 @@ extern "C" {
 
 	  mf = MF_New(mesh);
 	  MF_Set_Edges(mf,nfe,fedges,fedirs);
+	  List_Add(cells,mf);
 
 	  free(vface2d_data[ic]);
 	}
@@ -669,12 +713,17 @@ extern "C" {
 
 	  mr = MR_New(mesh);
 	  MR_Set_Faces(mr,nrf,rfaces,rfdirs);
+	  List_Add(cells,mr);
 
 	  free(vface3d_data[ic]);
 	}
 
 	free(vface3d_data);
       }
+      if (vedge) free(vedge);
+      if (vedir) free(vedir);
+      if (vface) free(vface);
+      if (vfdir) free(vfdir);
     }
     else if (strcmp(temp_str,"faces") == 0) {
 
@@ -767,13 +816,16 @@ extern "C" {
 	}
 
 	MR_Set_Faces(mr,nrf,rfaces,rfdirs);
+	List_Add(cells,mr);
       }
       
       free(vface);
+      vface = NULL;
       if (vface3d_data) {
 	for (ic = 0; ic < ncells; ic++) 
 	  free(vface3d_data[ic]);
 	free(vface3d_data);
+	vface3d_data = NULL;
       }
 
     }
@@ -806,34 +858,17 @@ extern "C" {
       }
 
       if (onwhat == 0) {
-	if (MESH_Num_Regions(mesh)) {
-	  for (j = 0; j < ncells; j++) {
-	    status = fscanf(fp,"%d",&(matnum));
-	    if (status == EOF) {
-	      MSTK_Report("MESH_ImportFromGMV",
-			  "Premature end of file while reading material data",
-			  MSTK_ERROR);
-	      return 0;
-	    }
-	    
-	    mr = MESH_Region(mesh,j);
-	    MR_Set_GEntID(mr,matnum);
-	  }
-	}
-	else {
-	  for (j = 0; j < ncells; j++) {
-	    status = fscanf(fp,"%d",&(matnum));
-	    if (status == EOF) {
-	      MSTK_Report("MESH_ImportFromGMV",
-			  "Premature end of file while reading material data",
-			  MSTK_ERROR);
-	      return 0;
-	    }
-	    
-	    mf = MESH_Face(mesh,j);
-	    MF_Set_GEntID(mf,matnum);
-	    MF_Set_GEntDim(mf,2);
+	for (j = 0; j < ncells; j++) {
+	  status = fscanf(fp,"%d",&(matnum));
+	  if (status == EOF) {
+	    MSTK_Report("MESH_ImportFromGMV",
+			"Premature end of file while reading material data",
+			MSTK_ERROR);
+	    return 0;
 	  }
+
+	  if (j < List_Num_Entries(cells))
+	    GMV_SetCellMaterial(List_Entry(cells,j),matnum);
 	}
       }
       else if (onwhat == 1) {
@@ -868,6 +903,10 @@ extern "C" {
         MSTK_Report("MESH_ImportFromGMV",mesg_str,MSTK_ERROR);
       }
 
+      /* Type of entity that variables on cells are attached to */
+
+      celltype = GMV_CellType(cells);
+
       varsdone = 0;
       while (!varsdone) {
 
@@ -916,55 +955,29 @@ extern "C" {
 	      }
 	    }
 	    else {
-	      if (MESH_Num_Regions(mesh)) {
-		matt = MAttrib_New(mesh,temp_str,INT,MREGION);
-
-		for (i = 0; i < ncells; i++) {
-		  status = fscanf(fp,"%d",&ival);
-		  if (status == EOF) {
-		    MSTK_Report("MESH_ImportFromGMV",
-				"Premature end of file while reading variable itetclr",
-				MSTK_ERROR);
-		    return 0;
-		  }
-
-		  mr = MESH_Region(mesh,i);
-		  MEnt_Set_AttVal(mr,matt,ival,0,NULL);
-
-		  /* if material ids for elements is not given, then
-		     assign them using this info */
-
-		  if (!matinfo)
-		    MR_Set_GEntID(mr,ival);
-		}
-	      }
-	      else {
-		matt = MAttrib_New(mesh,temp_str,INT,MFACE);
-
-		for (i = 0; i < ncells; i++) {
-		  status = fscanf(fp,"%d",&ival);
-		  if (status == EOF) {
-		    MSTK_Report("MESH_ImportFromGMV",
-				"Premature end of file while reading variable itetclr",
-				MSTK_ERROR);
-		    return 0;
-		  }
-
-		  mf = MESH_Face(mesh,i);
-		  MEnt_Set_AttVal(mf,matt,ival,0,NULL);
-
-		  /* if material ids for elements is not given, then
-		     assign them using this info */
-
-		  if (!matinfo) {
-		    MF_Set_GEntID(mf,ival);
-		    MF_Set_GEntDim(mf,2);
-		  }
+	      matt = MAttrib_New(mesh,temp_str,INT,celltype);
+
+	      for (i = 0; i < ncells; i++) {
+		status = fscanf(fp,"%d",&ival);
+		if (status == EOF) {
+		  MSTK_Report("MESH_ImportFromGMV",
+			      "Premature end of file while reading variable itetclr",
+			      MSTK_ERROR);
+		  return 0;
 		}
+		if (i >= List_Num_Entries(cells)) continue;
+
+		MEnt_Set_AttVal(List_Entry(cells,i),matt,ival,0,NULL);
+
+		/* if material ids for elements is not given, then
+		   assign them using this info */
+
+		if (!matinfo)
+		  GMV_SetCellMaterial(List_Entry(cells,i),ival);
 	      }
 	    }
 	  }
-	  else if (strncmp(temp_str,"icr",3) == 0) {
+	  else if (strcmp(temp_str,"icr") == 0 || strcmp(temp_str,"icr1") == 0) {
 	    /* ICR is LAGRIT's way of specifying classification info
 	       and it indicates the number of constraints on the
 	       movement of a node. For some reason, LAGRIT chooses to
@@ -974,37 +987,19 @@ extern "C" {
 	      MSTK_Report("MESH_ImportFromGMV",
 			  "Constraints must be specified on nodes!!",MSTK_ERROR);
 	      
-	      if (MESH_Num_Regions(mesh)) {
-		matt = MAttrib_New(mesh,temp_str,INT,MREGION);
-
-		for (i = 0; i < ncells; i++) {
-		  status = fscanf(fp,"%lf",&rval);
-		  if (status == EOF) {
-		    MSTK_Report("MESH_ImportFromGMV",
-				"Premature end of file while reading variable itetclr",
-				MSTK_ERROR);
-		    return 0;
-		  }
-
-		  mr = MESH_Region(mesh,i);
-		  MEnt_Set_AttVal(mr,matt,(int) rval,0,NULL);
-		}
-	      }
-	      else {
-		matt = MAttrib_New(mesh,temp_str,INT,MFACE);
-
-		for (i = 0; i < ncells; i++) {
-		  status = fscanf(fp,"%lf",&rval);
-		  if (status == EOF) {
-		    MSTK_Report("MESH_ImportFromGMV",
-				"Premature end of file while reading variable itetclr",
-				MSTK_ERROR);
-		    return 0;
-		  }
-
-		  mf = MESH_Face(mesh,i);
-		  MEnt_Set_AttVal(mf,matt,(int) rval,0,NULL);
+	      matt = MAttrib_New(mesh,temp_str,INT,celltype);
+
+	      for (i = 0; i < ncells; i++) {
+		status = fscanf(fp,"%lf",&rval);
+		if (status == EOF) {
+		  MSTK_Report("MESH_ImportFromGMV",
+			      "Premature end of file while reading variable",
+			      MSTK_ERROR);
+		  return 0;
 		}
+		if (i >= List_Num_Entries(cells)) continue;
+
+		MEnt_Set_AttVal(List_Entry(cells,i),matt,(int) rval,0,NULL);
 	      }
 	    }
 	    else {
@@ -1031,37 +1026,19 @@ extern "C" {
 
 	    if (onwhat == 0) { 
 
-	      if (MESH_Num_Regions(mesh)) {
-		matt = MAttrib_New(mesh,temp_str,DOUBLE,MREGION);
+	      matt = MAttrib_New(mesh,temp_str,DOUBLE,celltype);
 
-		for (i = 0; i < ncells; i++) {
-		  status = fscanf(fp,"%lf",&rval);
-		  if (status == EOF) {
-		    MSTK_Report("MESH_ImportFromGMV",
-				"Premature end of file while reading variable itetclr",
-				MSTK_ERROR);
-		    return 0;
-		  }
-
-		  mr = MESH_Region(mesh,i);
-		  MEnt_Set_AttVal(mr,matt,0,rval,NULL);
-		}
-	      }
-	      else {
-		matt = MAttrib_New(mesh,temp_str,DOUBLE,MFACE);
-
-		for (i = 0; i < ncells; i++) {
-		  status = fscanf(fp,"%lf",&rval);
-		  if (status == EOF) {
-		    MSTK_Report("MESH_ImportFromGMV",
-				"Premature end of file while reading variable itetclr",
-				MSTK_ERROR);
-		    return 0;
-		  }
-
-		  mf = MESH_Face(mesh,i);
-		  MEnt_Set_AttVal(mf,matt,0,rval,NULL);
+	      for (i = 0; i < ncells; i++) {
+		status = fscanf(fp,"%lf",&rval);
+		if (status == EOF) {
+		  MSTK_Report("MESH_ImportFromGMV",
+			      "Premature end of file while reading variable",
+			      MSTK_ERROR);
+		  return 0;
 		}
+		if (i >= List_Num_Entries(cells)) continue;
+
+		MEnt_Set_AttVal(List_Entry(cells,i),matt,0,rval,NULL);
 	      }
 	    }
 	    else {
@@ -1107,6 +1084,7 @@ extern "C" {
   }
 
   fclose(fp);
+  List_Delete(cells);
 
 
 
-- 
2.43.0


From 3f0bb3b53cd008cb9c9e4db6bd7c11738a8d47dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:46 +0000
Subject: [PATCH 27/98] fix: FLAG X3D export and import crash without a
 communicator, use wrong numbers and leak

The serial writer and reader dereferenced a NULL communicator, the reader
wrote into a constant file name, materials were matched by index instead of
by name, region and boundary files used entity IDs instead of file numbering
and the current directory, and several attributes, files and buffers leaked.
---
 src/io/MESH_ExportToFLAGX3D.c   | 111 +++++++++++++++++++++-----------
 src/io/MESH_ImportFromFLAGX3D.c | 101 ++++++++++++++++++-----------
 2 files changed, 137 insertions(+), 75 deletions(-)

diff --git a/src/io/MESH_ExportToFLAGX3D.c b/src/io/MESH_ExportToFLAGX3D.c
index 0043f02..a96db1e 100644
--- a/src/io/MESH_ExportToFLAGX3D.c
+++ b/src/io/MESH_ExportToFLAGX3D.c
@@ -45,7 +45,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
   MAttrib_ptr           vidatt_tmp, eidatt_tmp, fidatt_tmp, ridatt_tmp, oppatt, opppidatt;
   MAttType              atttype;
   char                  attname[256], matname[256], tmpstr[256];
-  char                  modfilename[256];
+  char                  *modfilename, *basefilename;
   int                   jv, je, jr, jf;
   int                   nv, ne, nf, nr, nrf, nfv, nef, nfe, nfr, nvout;
   int			i, found, k, nmeshatt, ival=0, ndim;
@@ -61,12 +61,15 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
 
   int                   pid = 0, numprocs = 1;
 #ifdef MSTK_HAVE_MPI
-  MPI_Comm_size(comm,&numprocs);
-  MPI_Comm_rank(comm,&pid);
-  pid += 1;  /* FLAG X3D counts processor IDs from 1 */
+  if (comm) {
+    MPI_Comm_size(comm,&numprocs);
+    MPI_Comm_rank(comm,&pid);
+  }
 #endif
+  pid += 1;  /* FLAG X3D counts processor IDs from 1 */
 
  
+  modfilename = (char *) malloc((strlen(filename)+16)*sizeof(char));
   strcpy(modfilename,filename);
   if (numprocs > 1)
     sprintf(modfilename,"%s.%05d",filename,pid);
@@ -77,7 +80,15 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     exit(2);
   }
   
-  char *basefilename = strtok(filename, ".");
+  free(modfilename);
+
+  /* Filename without the extension */
+
+  basefilename = (char *) malloc((strlen(filename)+1)*sizeof(char));
+  strcpy(basefilename,filename);
+  char *base = strrchr(basefilename,'/');
+  base = base ? base+1 : basefilename;
+  if (strchr(base,'.')) *strchr(base,'.') = '\0';
   
   nv = MESH_Num_Vertices(mesh);
   ne = MESH_Num_Edges(mesh);
@@ -86,6 +97,8 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
   if (!nr && !nf) {
     fprintf(stderr,
 	    "Format does not support meshes with only edges or nodes\n");
+    fclose(fp);
+    free(basefilename);
     return 0;
   }
   
@@ -196,6 +209,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
    * list, we may end up with maxngent*numprocs entries if every rank
    * has a unique set of materials */
 
+  if (numprocs > 1) {
   int maxngent;
   MPI_Allreduce(&ngent, &maxngent, 1, MPI_INT, MPI_MAX, comm);
 
@@ -229,6 +243,8 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
       ngent++;
     }
   }
+  free(allgentities);
+  }
   qsort(gentities, ngent, sizeof(int), compareINT);
 #endif
   
@@ -376,8 +392,10 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
      the opposite processors */
   
 #ifdef MSTK_HAVE_MPI
-  MESH_XchngEdgeFaceAttrib(mesh,oppatt,comm);
-  MESH_XchngEdgeFaceAttrib(mesh,opppidatt,comm);
+  if (numprocs > 1) {
+    MESH_XchngEdgeFaceAttrib(mesh,oppatt,comm);
+    MESH_XchngEdgeFaceAttrib(mesh,opppidatt,comm);
+  }
 #endif
   
   /* Make a list of vertices on partition boundaries and determine
@@ -404,7 +422,8 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
   /* Transmit master vertex IDs to slave IDs */
 
 #ifdef MSTK_HAVE_MPI
-  MESH_Update1Attribute(mesh,vmasteratt,comm);
+  if (numprocs > 1)
+    MESH_Update1Attribute(mesh,vmasteratt,comm);
 #endif
   
   
@@ -480,8 +499,11 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
       attrib = MESH_Attrib(mesh,i);
 
       /* No need to write out the temporary array we created in this routine */
-      if (attrib == oppatt || attrib == vidatt_tmp || attrib == eidatt_tmp || attrib == fidatt_tmp || attrib == ridatt_tmp)
+      if (attrib == oppatt || attrib == opppidatt || attrib == vmasteratt || attrib == vidatt_tmp || attrib == eidatt_tmp || attrib == fidatt_tmp || attrib == ridatt_tmp)
         continue;
+
+      MAttrib_Get_Name(attrib,attname);
+      if (strcmp(attname,"partelm") == 0) continue;  /* always written */
       
       atttype = MAttrib_Get_Type(attrib);      
       if (atttype != INT && atttype != DOUBLE && atttype != VECTOR && atttype != TENSOR)
@@ -517,12 +539,18 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
       
       if (nr) {
         if ((attentdim == MREGION) || (attentdim == MALLTYPE)) {
-          cellatts[ncellatt++] = attrib;
+          if (atttype == INT || atttype == DOUBLE)
+            cellatts[ncellatt++] = attrib;
+          else
+            MSTK_Report("MESH_ExportToFLAGX3D", "Export of cell vectors and tensors to X3D file not implemented", MSTK_WARN);
         }
       }
       else if (nf) {
         if ((attentdim == MFACE) || (attentdim == MALLTYPE)) {
-          cellatts[ncellatt++] = attrib;
+          if (atttype == INT || atttype == DOUBLE)
+            cellatts[ncellatt++] = attrib;
+          else
+            MSTK_Report("MESH_ExportToFLAGX3D", "Export of cell vectors and tensors to X3D file not implemented", MSTK_WARN);
         }
       }
     }
@@ -1097,8 +1125,9 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     while ((region = MESH_Next_Region(mesh,&idx))) {
       if (MR_PType(region) == PGHOST) continue;
       gentid = MR_GEntID(region);
-      if (!gentid) gentid = 1;
-      fprintf(fp,"% 10d",gentid);
+      for (i = 0; i < ngent-1; i++)
+        if (gentities[i] == gentid) break;
+      fprintf(fp,"% 10d",i+1);
       k++;
       if (k%10 == 0)
         fprintf(fp,"\n");
@@ -1110,8 +1139,9 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     while ((face = MESH_Next_Face(mesh,&idx))) {
       if (MF_PType(face) == PGHOST) continue;
       gentid = MF_GEntID(face);
-      if (!gentid) gentid = 1;
-      fprintf(fp,"% 10d",gentid);
+      for (i = 0; i < ngent-1; i++)
+        if (gentities[i] == gentid) break;
+      fprintf(fp,"% 10d",i+1);
       k++;
       if (k%10 == 0)
         fprintf(fp,"\n");
@@ -1158,14 +1188,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
   for (i = 0; i < ncellatt; i++) {
     attrib = cellatts[i];
     atttype = MAttrib_Get_Type(attrib);
-    if (atttype == VECTOR || atttype == TENSOR) {
-      MSTK_Report("MESH_ExportToFLAGX3D", "Export of cell vectors and tensors to X3D file not implemented", MSTK_WARN);
-      continue;
-    }
-
     MAttrib_Get_Name(attrib,attname);
-    if (strcmp("_tmp",attname-4) == 0)
-      continue;
 
     fprintf(fp,"%s\n",attname);
     
@@ -1215,12 +1238,9 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
   for (i = 0; i < nnodatt; i++) {
     attrib = nodatts[i];
     atttype = MAttrib_Get_Type(attrib);
-    if (atttype != VECTOR) continue;  /* X3D only supports vector attributes for nodes */
     int ncomps = MAttrib_Get_NumComps(attrib);
 
     MAttrib_Get_Name(attrib,attname);
-    if (strcmp("_tmp",attname-4) == 0)
-      continue;
 
     fprintf(fp,"%s\n",attname);
     
@@ -1228,11 +1248,11 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     while ((vertex = MESH_Next_Vertex(mesh,&idx))) {
       if (MV_PType(vertex) == PGHOST && !MV_OnParBoundary(vertex)) continue;
 
-      double *vval;
+      double *vval = NULL;
       MEnt_Get_AttVal(vertex,attrib,&ival,&rval,(void **) &vval);
       
       for (k = 0; k < ncomps; k++)
-        fprintf(fp,"% 20.12E", vval[k]);
+        fprintf(fp,"% 20.12E", vval ? vval[k] : 0.0);
       for (k = ncomps; k < 3; k++)
         fprintf(fp,"% 20.12E", 0.0);  /* expects 3 components for nodal vecs */
       fprintf(fp,"\n");
@@ -1270,8 +1290,10 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     if (nr) {
       idx = 0;
       while ((region = MESH_Next_Region(mesh, &idx))) {
-        if (MR_PType(region) != PGHOST && MR_GEntID(region) == gentities[g])
-          fprintf(fp, "% 10d\n", MR_ID(region));
+        if (MR_PType(region) != PGHOST && MR_GEntID(region) == gentities[g]) {
+          MEnt_Get_AttVal(region,ridatt_tmp,&rid,&rval,&pval);
+          fprintf(fp, "% 10d\n", rid);
+        }
       }
       fprintf(fp,"\n");
 
@@ -1284,8 +1306,10 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     } else {
       idx = 0;
       while ((face = MESH_Next_Face(mesh, &idx))) {
-        if (MF_PType(face) != PGHOST && MF_GEntID(face) == gentities[g])
-          fprintf(fp, "% 10d\n", MF_ID(face));
+        if (MF_PType(face) != PGHOST && MF_GEntID(face) == gentities[g]) {
+          MEnt_Get_AttVal(face,fidatt_tmp,&fid,&rval,&pval);
+          fprintf(fp, "% 10d\n", fid);
+        }
       }
       fprintf(fp,"\n");
       
@@ -1312,7 +1336,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     char setname[256];
     MSet_Name(mset, setname);
 
-    char regfilename[256];
+    char *regfilename = (char *) malloc((strlen(basefilename)+300)*sizeof(char));
     strcpy(regfilename, basefilename);
     strcat(regfilename, ".");
     strcat(regfilename, setname);
@@ -1324,12 +1348,15 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     }
 
     fp = fopen(regfilename, "w");
+    free(regfilename);
     
     int idx2 = 0;
     MEntity_ptr ment;
     while ((ment = MSet_Next_Entry(mset, &idx2)))
-      if (MEnt_PType(ment) != PGHOST)
-        fprintf(fp, "% 10d\n", MEnt_ID(ment));
+      if (MEnt_PType(ment) != PGHOST) {
+        MEnt_Get_AttVal(ment, nr ? ridatt_tmp : fidatt_tmp, &rid, &rval, &pval);
+        fprintf(fp, "% 10d\n", rid);
+      }
     fprintf(fp,"\n");
     idx2 = 0;
     while ((ment = MSet_Next_Entry(mset, &idx2)))
@@ -1349,7 +1376,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     char setname[256];
     MSet_Name(mset, setname);
 
-    char bdyfilename[256];
+    char *bdyfilename = (char *) malloc((strlen(basefilename)+300)*sizeof(char));
     strcpy(bdyfilename, basefilename);
     strcat(bdyfilename, ".");
     strcat(bdyfilename, setname);
@@ -1361,12 +1388,15 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     }
 
     fp = fopen(bdyfilename, "w");
+    free(bdyfilename);
     
     int idx2 = 0;
     MEntity_ptr ment;
     while ((ment = MSet_Next_Entry(mset, &idx2)))
-      if (MEnt_PType(ment) != PGHOST || MEnt_OnParBoundary(ment))
-        fprintf(fp, "% 10d\n", MEnt_ID(ment));
+      if (MEnt_PType(ment) != PGHOST || MEnt_OnParBoundary(ment)) {
+        MEnt_Get_AttVal(ment, vidatt_tmp, &vid, &rval, &pval);
+        fprintf(fp, "% 10d\n", vid);
+      }
 
     fclose(fp);
   }
@@ -1394,6 +1424,13 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
   while ((region = MESH_Next_Region(mesh,&idx)))
     MEnt_Rem_AttVal(region,ridatt_tmp);
 
+  idx = 0;
+  while ((vertex = MESH_Next_Vertex(mesh,&idx)))
+    MEnt_Rem_AttVal(vertex,vmasteratt);
+  MAttrib_Delete(vmasteratt);
+  List_Delete(prtn_bndry_verts);
+  free(basefilename);
+
   MAttrib_Delete(vidatt_tmp);
   MAttrib_Delete(eidatt_tmp);
   MAttrib_Delete(fidatt_tmp);
diff --git a/src/io/MESH_ImportFromFLAGX3D.c b/src/io/MESH_ImportFromFLAGX3D.c
index e1a3300..eb3d6aa 100644
--- a/src/io/MESH_ImportFromFLAGX3D.c
+++ b/src/io/MESH_ImportFromFLAGX3D.c
@@ -47,23 +47,44 @@ extern "C" {
     string[lnew] = '\0';
   }
 
-  int isRegFile(const struct dirent *item) {
-    if (!item) return 0;
+  /* Directory part of a file name, including the trailing slash (to be
+     freed by the caller) */
+
+  static char *x3dDirName(const char *filename) {
+    char *dirname = (char *) malloc((strlen(filename)+1)*sizeof(char));
+    strcpy(dirname,filename);
+    char *slash = strrchr(dirname,'/');
+    if (slash)
+      slash[1] = '\0';
+    else
+      dirname[0] = '\0';
+    return dirname;
+  }
+
+  /* Open a file in the same directory as the x3d file */
+
+  static FILE *x3dOpenSibling(const char *x3dfilename, const char *name) {
+    char *dirname = x3dDirName(x3dfilename);
+    char *path = (char *) malloc((strlen(dirname)+strlen(name)+1)*sizeof(char));
+    strcpy(path,dirname);
+    strcat(path,name);
+    FILE *fp = fopen(path,"r");
+    free(path);
+    free(dirname);
+    return fp;
   }
 
   int getRegFileNames(const char *x3dfilename_in, int numprocs, int rank, char (**regFileNames)[256], char (**regNames)[256]) {
 
     char x3dfilename[256];
-    strcpy(x3dfilename, x3dfilename_in);  /* hack to remove constness */
-
-    char dirname[256];
-    strcpy(dirname, basename(x3dfilename));
-    if (strcmp(dirname,x3dfilename) == 0)
-      strcpy(dirname, ".");
-    DIR *dir_p = opendir(dirname);
+    char *dirname = x3dDirName(x3dfilename_in);
+    snprintf(x3dfilename, sizeof(x3dfilename), "%s", x3dfilename_in+strlen(dirname));
+    DIR *dir_p = opendir(strlen(dirname) ? dirname : ".");
     int ncandidates = 0;
-    if (!dir_p)
+    if (!dir_p) {
+      free(dirname);
       return 0;
+    }
 
     struct dirent *diritem;
     while ((diritem = readdir(dir_p)))
@@ -75,7 +96,7 @@ extern "C" {
 
     char *basefilename = strtok(x3dfilename, ".");
 
-    dir_p = opendir(dirname);
+    dir_p = opendir(strlen(dirname) ? dirname : ".");
     int nfiles = 0;
     while ((diritem = readdir(dir_p))) {
       char fname[256];
@@ -93,7 +114,7 @@ extern "C" {
 
       char *matname = (char *) strtok(NULL, ".");
       char *regstr  = (char *) strtok(NULL, ".");
-      if (strcmp(regstr, "Reg") != 0)  /* Sanity check */
+      if (!matname || !regstr || strcmp(regstr, "Reg") != 0)  /* Sanity check */
         continue;
 
       if (numprocs > 1) {
@@ -117,10 +138,11 @@ extern "C" {
       strcpy((*regNames)[nfiles], matname);
       nfiles++;
     }
-    *regFileNames = realloc(*regFileNames, nfiles*sizeof(char[256]));
-    *regNames = realloc(*regNames, nfiles*sizeof(char[256]));
+    *regFileNames = realloc(*regFileNames, (nfiles+1)*sizeof(char[256]));
+    *regNames = realloc(*regNames, (nfiles+1)*sizeof(char[256]));
 
     closedir(dir_p);
+    free(dirname);
 
     return nfiles;
   }
@@ -128,16 +150,14 @@ extern "C" {
   int getBdyFileNames(const char *x3dfilename_in, int numprocs, int rank, char (**nodesetFileNames)[256], char (**nodesetNames)[256]) {
 
     char x3dfilename[256];
-    strcpy(x3dfilename, x3dfilename_in);  /* hack to remove constness */
-
-    char dirname[256];
-    strcpy(dirname, basename(x3dfilename));
-    if (strcmp(dirname,x3dfilename) == 0)
-      strcpy(dirname, ".");
-    DIR *dir_p = opendir(dirname);
+    char *dirname = x3dDirName(x3dfilename_in);
+    snprintf(x3dfilename, sizeof(x3dfilename), "%s", x3dfilename_in+strlen(dirname));
+    DIR *dir_p = opendir(strlen(dirname) ? dirname : ".");
     int ncandidates = 0;
-    if (!dir_p)
+    if (!dir_p) {
+      free(dirname);
       return 0;
+    }
 
     struct dirent *diritem;
     while ((diritem = readdir(dir_p)))
@@ -149,7 +169,7 @@ extern "C" {
 
     char *basefilename = strtok(x3dfilename, ".");
 
-    dir_p = opendir(dirname);
+    dir_p = opendir(strlen(dirname) ? dirname : ".");
     int nfiles = 0;
     while ((diritem = readdir(dir_p))) {
       char fname[256];
@@ -167,7 +187,7 @@ extern "C" {
 
       char *matname = (char *) strtok(NULL, ".");
       char *bdystr  = (char *) strtok(NULL, ".");
-      if (strcmp(bdystr, "Bdy") != 0)  /* Sanity check */
+      if (!matname || !bdystr || strcmp(bdystr, "Bdy") != 0)  /* Sanity check */
         continue;
 
       if (numprocs > 1) {
@@ -191,10 +211,11 @@ extern "C" {
       strcpy((*nodesetNames)[nfiles], matname);
       nfiles++;
     }
-    *nodesetFileNames = realloc(*nodesetFileNames, nfiles*sizeof(char[256]));
-    *nodesetNames = realloc(*nodesetNames, nfiles*sizeof(char[256]));
+    *nodesetFileNames = realloc(*nodesetFileNames, (nfiles+1)*sizeof(char[256]));
+    *nodesetNames = realloc(*nodesetNames, (nfiles+1)*sizeof(char[256]));
 
     closedir(dir_p);
+    free(dirname);
 
     return nfiles;
   }
@@ -225,8 +246,10 @@ extern "C" {
   rank = 0;
 
 #ifdef MSTK_HAVE_MPI
-  MPI_Comm_size(comm,&numprocs);
-  MPI_Comm_rank(comm,&rank);
+  if (comm) {
+    MPI_Comm_size(comm,&numprocs);
+    MPI_Comm_rank(comm,&rank);
+  }
 #endif
 
   char *ext = strstr(filename,".x3d"); /* Search for the x3d extension */
@@ -235,7 +258,7 @@ extern "C" {
 
 
   if (!(fp = fopen(filename,"r"))) {
-    sprintf(mesg,"Cannot open file %s for reading", filename);
+    snprintf(mesg,sizeof(mesg),"Cannot open file %s for reading", filename);
     MSTK_Report(funcname,mesg,MSTK_FATAL);
   }
 
@@ -791,6 +814,7 @@ extern "C" {
     }
 
   }
+  fclose(fp);
 
   /* Some codes don't respect (and write out) appropriate matid
    * data. Instead they rely on .Reg (Material Region) files to
@@ -805,7 +829,7 @@ extern "C" {
    * membership of cells in materials, we will overwrite the
    * classification from the material ID fields */
 
-  char (*regfilenames)[256], (*regnames)[256];
+  char (*regfilenames)[256]=NULL, (*regnames)[256]=NULL;
   int nfiles = getRegFileNames(filename, numprocs, rank, &regfilenames, &regnames);
   sprintf(temp_str,"Found %d Reg files on rank %d. \n NOTE:Region file reading ignores multiple materials per cells and volume fraction data", nfiles, rank);
   MSTK_Report("MESH_ImportFromFLAGX3D", temp_str, MSTK_MESG);
@@ -817,7 +841,7 @@ extern "C" {
       char *regname = regnames[i];
 
       char *regfname = regfilenames[i];
-      if (!(fp = fopen(regfname, "r"))) {
+      if (!(fp = x3dOpenSibling(filename, regfname))) {
         sprintf(temp_str, "Could not open region file %s", regfname);
         MSTK_Report("MESH_ImportFromFLAGX3D", temp_str, MSTK_FATAL);
       }
@@ -850,7 +874,7 @@ extern "C" {
             sprintf(temp_str, "Could not find element ID %d from Reg file %s in mesh with %d elements", elemid, regfname, MESH_Num_Regions(mesh)); 
             MSTK_Report("MESH_ImportFromFLAGX3D", temp_str, MSTK_FATAL);
           }
-          MR_Set_GEntDim(mr, 2);
+          MR_Set_GEntDim(mr, 3);
           MR_Set_GEntID(mr, matid);
 	  MSet_Add(elset, mr);
           nelements++;
@@ -867,7 +891,7 @@ extern "C" {
 
   /* Read node sets from .Bdy files */
   
-  char (*nodeset_filenames)[256], (*nodeset_names)[256];
+  char (*nodeset_filenames)[256]=NULL, (*nodeset_names)[256]=NULL;
   nfiles = getBdyFileNames(filename, numprocs, rank, &nodeset_filenames, &nodeset_names);
   sprintf(temp_str,"Found %d Bdy files on rank %d.", nfiles, rank);
   MSTK_Report("MESH_ImportFromFLAGX3D", temp_str, MSTK_MESG);
@@ -877,7 +901,7 @@ extern "C" {
       char *nodeset_name = nodeset_names[i];
 
       char *nodeset_fname = nodeset_filenames[i];
-      if (!(fp = fopen(nodeset_fname, "r"))) {
+      if (!(fp = x3dOpenSibling(filename, nodeset_fname))) {
         sprintf(temp_str, "Could not open bdy (nodeset) file %s", nodeset_fname);
         MSTK_Report("MESH_ImportFromFLAGX3D", temp_str, MSTK_FATAL);
       }
@@ -904,10 +928,11 @@ extern "C" {
     }
   }
 
-  if (ndim == 2)
-    free(medir);
-  else if (ndim == 3)
-    free(mfdir);
+  free(regfilenames); free(regnames);
+  free(nodeset_filenames); free(nodeset_names);
+
+  free(mv); free(me); free(mf);
+  free(medir); free(mfdir);
 
   free(matnames);
   free(mateos);
-- 
2.43.0


From da22df25159116a9ea0ccf5e5419927c161c6341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:07 +0000
Subject: [PATCH 28/98] fix: STL export writes no line breaks after endloop and
 endfacet and loses small coordinates

---
 src/io/MESH_ExportToSTL.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/io/MESH_ExportToSTL.c b/src/io/MESH_ExportToSTL.c
index ad4ed5b..fd0703a 100644
--- a/src/io/MESH_ExportToSTL.c
+++ b/src/io/MESH_ExportToSTL.c
@@ -29,12 +29,6 @@ int MESH_ExportToSTL(Mesh_ptr mesh, const char *filename) {
   FILE		        *fp;
 
   
-  if (!(fp = fopen(filename,"w"))) {
-    sprintf(mesg,"Couldn't open output file %s\n",filename);
-    MSTK_Report("MESH_ExportToSTL",mesg,MSTK_ERROR);
-    return 0;
-  }
-
   if (MESH_Num_Regions(mesh)) {
     MSTK_Report("MESH_ExportToSTL","Cannot export solid meshes\n",MSTK_ERROR);
     return 0;
@@ -50,7 +44,12 @@ int MESH_ExportToSTL(Mesh_ptr mesh, const char *filename) {
       return 0;
     }
   }
-  
+
+  if (!(fp = fopen(filename,"w"))) {
+    sprintf(mesg,"Couldn't open output file %s\n",filename);
+    MSTK_Report("MESH_ExportToSTL",mesg,MSTK_ERROR);
+    return 0;
+  }
 
   /* Opening line for STL file */
   fprintf(fp,"solid\n");
@@ -79,18 +78,22 @@ int MESH_ExportToSTL(Mesh_ptr mesh, const char *filename) {
       
       len = sqrt(normal[0]*normal[0]+normal[1]*normal[1]+normal[2]*normal[2]);
       
-      normal[0] /= len; normal[1] /= len; normal[2] /= len;
+      if (len > 0.0) {
+        normal[0] /= len; normal[1] /= len; normal[2] /= len;
+      }
     }
 
     fprintf(fp,"facet normal %12.8lf %12.8lf %12.8lf\n",normal[0],normal[1],normal[2]);
     fprintf(fp,"  outer loop\n");
     for (j = 0; j < 3; j++) 
-      fprintf(fp,"    vertex %20.10lf %20.10lf %20.10lf\n",fxyz[j][0],fxyz[j][1],fxyz[j][2]);
-    fprintf(fp,"endloop");
-    fprintf(fp,"endfacet");
+      fprintf(fp,"    vertex %22.15e %22.15e %22.15e\n",fxyz[j][0],fxyz[j][1],fxyz[j][2]);
+    fprintf(fp,"  endloop\n");
+    fprintf(fp,"endfacet\n");
+
+    List_Delete(fverts);
   }
 
-  fprintf(fp,"endsolid");
+  fprintf(fp,"endsolid\n");
 
   fclose(fp);
 
-- 
2.43.0


From e0e4a91fbf4991e4f5eccab37e7a5a735f17d74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:07 +0000
Subject: [PATCH 29/98] fix: OFF export numbers vertices from 1, uses mesh IDs
 and never closes the file

---
 src/io/MESH_ExportToOFF.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/io/MESH_ExportToOFF.c b/src/io/MESH_ExportToOFF.c
index aad997f..b25e379 100644
--- a/src/io/MESH_ExportToOFF.c
+++ b/src/io/MESH_ExportToOFF.c
@@ -32,7 +32,7 @@ int MESH_ExportToOFF(Mesh_ptr mesh, const char *filename) {
 
   if (!(fp = fopen(filename,"w"))) {
     sprintf(mesg,"Couldn't open output file %s\n",filename);
-    MSTK_Report("MESH_ExportToSTL",mesg,MSTK_ERROR);
+    MSTK_Report("MESH_ExportToOFF",mesg,MSTK_ERROR);
     return 0;
   }
 
@@ -44,12 +44,17 @@ int MESH_ExportToOFF(Mesh_ptr mesh, const char *filename) {
 
   /* Write vertex info */
   
-  int idx = 0;
+  /* Vertices are numbered from 0 in the order in which they are written */
+
+  MAttrib_ptr vidatt = MAttrib_New(mesh, "vidatt_off", INT, MVERTEX);
+
+  int idx = 0, nv = 0;
   MVertex_ptr mv;
   while ((mv = MESH_Next_Vertex(mesh, &idx))) {
     double xyz[3];
     MV_Coords(mv, xyz);
-    fprintf(fp,"%20.12lf %20.12lf %20.12lf\n",xyz[0],xyz[1],xyz[2]);
+    fprintf(fp,"%22.15e %22.15e %22.15e\n",xyz[0],xyz[1],xyz[2]);
+    MEnt_Set_AttVal(mv, vidatt, nv++, 0.0, NULL);
   }
 
 
@@ -59,12 +64,22 @@ int MESH_ExportToOFF(Mesh_ptr mesh, const char *filename) {
   while ((mf = MESH_Next_Face(mesh, &idx))) {
     List_ptr fverts = MF_Vertices(mf,1,0);
     fprintf(fp,"%d ",List_Num_Entries(fverts));
-    for (int i = 0; i < List_Num_Entries(fverts); i++)
-      fprintf(fp," %d",MV_ID(List_Entry(fverts,i)));
+    for (int i = 0; i < List_Num_Entries(fverts); i++) {
+      int vid = 0;
+      MEnt_Get_AttVal(List_Entry(fverts,i), vidatt, &vid, NULL, NULL);
+      fprintf(fp," %d",vid);
+    }
     fprintf(fp,"\n");
     List_Delete(fverts);
   }
 
+  idx = 0;
+  while ((mv = MESH_Next_Vertex(mesh, &idx)))
+    MEnt_Rem_AttVal(mv, vidatt);
+  MAttrib_Delete(vidatt);
+
+  fclose(fp);
+
   return 1;
 }
 
-- 
2.43.0


From 6fc7162e16d57b04fa75abfdbcc6d66617439af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:07 +0000
Subject: [PATCH 30/98] fix: DX export overruns its arrays, misreads pyramids
 and prisms, mislabels the byte order and returns nothing

---
 src/io/MESH_ExportToDXBin.c | 312 ++++++++++++++----------------------
 1 file changed, 119 insertions(+), 193 deletions(-)

diff --git a/src/io/MESH_ExportToDXBin.c b/src/io/MESH_ExportToDXBin.c
index 173992f..061f8b4 100644
--- a/src/io/MESH_ExportToDXBin.c
+++ b/src/io/MESH_ExportToDXBin.c
@@ -11,48 +11,73 @@ https://github.com/MeshToolkit/MSTK/blob/master/LICENSE
 #include <string.h>
 #include "MSTK.h"
 
-void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
-  int i, k, k1, bt, bq, bgf, bpy, bpr, bh, nreg, np, offset;
-  int nvf, nrf, objnum, fed0, fed1, fed2, rfd0, flip;
+/* Number of a vertex in the file (starts from 0) */
+static int dx_vid(MVertex_ptr v, MAttrib_ptr vidatt) {
+  int vid = 0;
+  MEnt_Get_AttVal(v,vidatt,&vid,NULL,NULL);
+  return vid;
+}
+
+int MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
+  int i, k, bt, bq, bgf, bpy, bpr, bh, nreg, np, offset;
+  int nvf, objnum, ngfaces;
   int nbtris=0, nbquads=0, ngenf=0, ntets=0, npyrs=0, nprisms=0, nhexes=0;
   int *idbtri=0, *idbquad=0, *idbtet=0, *idbprm=0, *idbpyr=0, *idbhex=0;
   int *edgarr, *loopstartarr, *facearr, *polcenidx;
   int nfaces, nedges=0, index, maxvf, maxtri=0;
-  int genpoly2, id, nfv;
+  int id, nfv;
   FILE *fout, *fdat;
-  MVertex_ptr vertex, evert0, evert1, lvert[8];
-  List_ptr verts, elist, rfaces, fedges;
+  MVertex_ptr vertex;
+  List_ptr verts;
   MRegion_ptr reg;
-  MFace_ptr face, rface, rface0, rface1, rface2;
-  MEdge_ptr edge, ecmn;
+  MFace_ptr face;
+  MAttrib_ptr vidatt, fidatt;
   float  flxyz[3];
   float *dattri=0, *datquad=0, *datgenf=0, *dattet=0, *datprm=0, *datpyr=0, *dathex=0;
   double xyz[3], fxyz[MAXPV2][3];
   double (*polcen2)[3];
-  char   basename[256], datfname[256];
+  char   datfname[1024], mesg[1152];
   char   xsb[4];
+  int    bytetest = 1;
+  /* DX does not have pyramids and prisms - they are collapsed cubes.
+     The vertices of DX cubes are ordered along the rows of a 2x2x2 grid */
   int rvtmpl[4][8]={{0,1,2,3,-1,-1,-1,-1},
-		    {0,1,2,3,4,-1,-1,-1},
-		    {0,1,2,3,4,5,-1,-1},
+		    {0,1,3,2,4,4,4,4},
+		    {0,1,2,2,3,4,5,5},
 		    {0,1,3,2,4,5,7,6}};
   int haveModel = 1;
  
-  strcpy(basename,fname);
-  basename[strlen(fname)-3] = '\0'; 
+  if (strlen(fname) < 3 || strlen(fname) + 2 > sizeof(datfname)) {
+    MSTK_Report("MESH_ExportToDX","Output file name must end in .dx",MSTK_ERROR);
+    return 0;
+  }
 
-  strcpy(datfname,basename);
-  strcat(datfname,".dat");
-  fdat = fopen(datfname,"wb");
+  strcpy(datfname,fname);
+  strcpy(datfname+strlen(fname)-3,".dat");
 
+  if (!(fdat = fopen(datfname,"wb"))) {
+    snprintf(mesg,sizeof(mesg),"Couldn't open output file %s",datfname);
+    MSTK_Report("MESH_ExportToDX",mesg,MSTK_ERROR);
+    return 0;
+  }
+  if (!(fout = fopen(fname,"w"))) {
+    snprintf(mesg,sizeof(mesg),"Couldn't open output file %s",fname);
+    MSTK_Report("MESH_ExportToDX",mesg,MSTK_ERROR);
+    fclose(fdat);
+    return 0;
+  }
 
   /* Write out vertex coordinates */
   
+  vidatt = MAttrib_New(mesh,"vidatt_dx",INT,MVERTEX);
+
   index = 0;
   np = 0;
   while( (vertex = MESH_Next_Vertex(mesh,&index)) ){
     MV_Coords(vertex,xyz);
     for (i = 0; i < 3; i++) flxyz[i] = (float) xyz[i];
     fwrite((void *)flxyz,sizeof(float),3,fdat);
+    MEnt_Set_AttVal(vertex,vidatt,np,0.0,NULL);
     np++;
   }
 
@@ -72,7 +97,9 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
   polcenidx = (int *) malloc((nfaces+1)*sizeof(int));
   polcen2 = (double (*)[3]) malloc((nfaces+1)*sizeof(double [3]));
   
-  index = 0; bgf = 0; maxvf = 0;
+  fidatt = MAttrib_New(mesh,"fidatt_dx",INT,MFACE);
+
+  index = 0; bgf = 0; maxvf = 0; ngfaces = 0;
   while ((face = MESH_Next_Face(mesh,&index))) {
     if (!MF_Region(face,0) && !MF_Region(face,1)) {
       
@@ -81,9 +108,8 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 	maxvf = nvf;
       
       if (nvf > 3) {
-	genpoly2 = 1;
-	
-	id = MF_ID(face);
+	id = ngfaces++;
+	MEnt_Set_AttVal(face,fidatt,id,0.0,NULL);
 	
 	MF_Coords(face,&nfv,fxyz);
 	for (k = 0; k < 3; k++) polcen2[id][k] = 0.0;
@@ -119,8 +145,13 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 	  dattri = (float *)malloc(maxtri*sizeof(float));
 	}
 	nbtris++;
+	if (nbtris > maxtri) {
+	  maxtri = 2*nbtris;
+	  idbtri = (int *) realloc(idbtri,3*maxtri*sizeof(int));
+	  dattri = (float *) realloc(dattri,maxtri*sizeof(float));
+	}
 	for (k = 0; k < nvf; k++)
-	  idbtri[bt++] = MV_ID(List_Entry(verts,k))-1;	
+	  idbtri[bt++] = dx_vid(List_Entry(verts,k),vidatt);
 	dattri[nbtris-1] = MF_GEntID(face);
       }
       /* We have to disallow direct writing of quads since 
@@ -154,9 +185,10 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 	    idbtri = (int *) realloc(idbtri,3*maxtri*sizeof(int));
 	    dattri = (float *) realloc(dattri,maxtri*sizeof(float));
 	  }
-	  idbtri[bt++] = MV_ID(List_Entry(verts,k))-1;
-	  idbtri[bt++] = MV_ID(List_Entry(verts,(k+1)%nvf))-1;
-	  idbtri[bt++] = polcenidx[MF_ID(face)];
+	  idbtri[bt++] = dx_vid(List_Entry(verts,k),vidatt);
+	  idbtri[bt++] = dx_vid(List_Entry(verts,(k+1)%nvf),vidatt);
+	  MEnt_Get_AttVal(face,fidatt,&id,NULL,NULL);
+	  idbtri[bt++] = polcenidx[id];
 	  dattri[nbtris-1] = MF_GEntID(face);
 	}
       }
@@ -205,7 +237,7 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 	nvf = List_Num_Entries(verts);
 
 	for (i = 0; i < nvf; i++)
-	  edgarr[bgf++] = MV_ID(List_Entry(verts,i))-1;
+	  edgarr[bgf++] = dx_vid(List_Entry(verts,i),vidatt);
 
 	List_Delete(verts);
       }
@@ -213,13 +245,18 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
     
     if (ngenf) {
       fwrite((void *)edgarr,sizeof(int),nedges,fdat);
-      fwrite((void *)loopstartarr,sizeof(int),nfaces,fdat);
-      fwrite((void *)facearr,sizeof(int),nfaces,fdat);
+      fwrite((void *)loopstartarr,sizeof(int),ngenf,fdat);
+      fwrite((void *)facearr,sizeof(int),ngenf,fdat);
       /**/
       if (haveModel)
-	fwrite((void *)datgenf,sizeof(float),nfaces,fdat);
+	fwrite((void *)datgenf,sizeof(float),ngenf,fdat);
       /**/
     } 
+
+    free(datgenf);
+    free(edgarr);
+    free(loopstartarr);
+    free(facearr);
   }
 
 
@@ -231,178 +268,57 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
     index = 0; i = 0; ntets = nprisms = npyrs = nhexes = 0;
     while ((reg = MESH_Next_Region(mesh,&index))) {
 
-      for (k = 0; k < 8; k++) lvert[k]=0;
+      MRType rtype = MR_ElementType(reg);
+      if (rtype != TET && rtype != PYRAMID && rtype != PRISM && rtype != HEX) {
+        MSTK_Report("MESH_ExportToDX","General polyhedra cannot be exported to DX - skipped",MSTK_WARN);
+        continue;
+      }
+
+      verts = MR_Vertices(reg);
 
-      nrf = MR_Num_Faces(reg);
-      switch(nrf) {
-      case 4:
+      switch (rtype) {
+      case TET:
 	if (!idbtet) {
 	  idbtet = (int *)malloc(4*nreg*sizeof(int));
 	  dattet = (float *)malloc(nreg*sizeof(float));
 	}
-	verts = MR_Vertices(reg);
-        for (k = 0; k < 4; k++) {
-	  k1 = rvtmpl[0][k];
-	  idbtet[bt++] = MV_ID(List_Entry(verts,k))-1;
-	}
-	List_Delete(verts);
-	ntets++;
-
-	dattet[ntets-1] = MR_GEntID(reg);
-
+        for (k = 0; k < 4; k++)
+	  idbtet[bt++] = dx_vid(List_Entry(verts,rvtmpl[0][k]),vidatt);
+	dattet[ntets++] = MR_GEntID(reg);
 	break;
 
-      case 5:
-	rfaces = MR_Faces(reg);
-	rface0 = List_Entry(rfaces,0);
-	rfd0 = MR_FaceDir_i(reg,0);
-
-	switch (MF_Num_Edges(rface0)) {
-
-	case 3: /****** TRIANGULAR PRISM *******/
-	  if (!idbprm) {
-	    idbprm = (int *)malloc(6*nreg*sizeof(int));
-	    datprm = (float *)malloc(nreg*sizeof(float));
-	  }
-
-	  verts =  MF_Vertices(rface0,!rfd0,0);
-	  for (k = 0; k < 3; k++) 
-	    lvert[k] = List_Entry(verts,k);
-	  List_Delete(verts);
-
-	  elist = MF_Edges(rface0,!rfd0,lvert[0]);
-	  ecmn = List_Entry(elist,0);
-	  List_Delete(elist);
-	  fed0 = MF_EdgeDir(rface0,ecmn);
-
-	  rface1 = NULL;
-	  for (k = 1; k < 6; k++) {
-	    rface = List_Entry(rfaces,k);
-	    if (rface != rface0 && MF_UsesEntity(rface,ecmn,1)) {
-	      rface1 = rface;
-	      break;
-	    }
-	  }
-	  fed1 = MF_EdgeDir(rface1,ecmn);
-
-	  fedges = MF_Edges(rface1,1,0);
-	  evert0 = evert1 = NULL;
-	  for (k = 0; k < 4; k++) {
-	    edge = List_Entry(fedges,k);
-	    if (edge == ecmn)
-	      continue;
-	    evert0 = ME_Vertex(edge,0); evert1 = ME_Vertex(edge,1);
-	    if (evert0 != lvert[0] && evert1 != lvert[0] &&
-		evert0 != lvert[1] && evert1 != lvert[1]) {
-	      ecmn = edge;
-	      break;
-	    }
-	  }
-	  List_Delete(fedges);
-	  fed2 = MF_EdgeDir(rface1,ecmn);
-
-	  flip = 0;
-	  if (fed0^(!rfd0)) /* lvert0 and lvert1 are opp to evert00,evert01 */
-	    flip = !flip;
-	  if (fed1 == fed2) /* edges pointing in different dirs w.r.t face 1 */
-	    flip = !flip;
-	  lvert[3] = flip==0 ? evert0 : evert1;
-	  lvert[4] = flip==0 ? evert1 : evert0;
-
-	  rface2 = 0;
-	  for (k = 1; k < 5; k++) {
-	    rface = List_Entry(rfaces,k);
-	    if (rface != rface0 && rface != rface1 && 
-		MF_UsesEntity(rface,ecmn,1)){
-	      rface2 = rface;
-	      break;
-	    }
-	  }
-
-	  /* Vertex opposite to edge, ecmn, in face, rface2 */
-	  verts = MF_Vertices(rface2,1,0);
-	  for (k = 0; k < 3; k++) {
-	    vertex = List_Entry(verts,k);
-	    if (!ME_UsesEntity(ecmn,vertex,0)) {
-	      lvert[5] = vertex;
-	    }
-	  }
-	  List_Delete(verts);
-	    
-	  idbprm[bpr]   = MV_ID(lvert[0])-1; 
-	  idbprm[bpr+1] = MV_ID(lvert[1])-1;
-	  idbprm[bpr+2] = MV_ID(lvert[2])-1; 
-	  idbprm[bpr+3] = MV_ID(lvert[2])-1;
-	  idbprm[bpr+4] = MV_ID(lvert[3])-1; 
-	  idbprm[bpr+5] = MV_ID(lvert[4])-1;
-	  idbprm[bpr+6] = MV_ID(lvert[5])-1; 
-	  idbprm[bpr+7] = MV_ID(lvert[5])-1;
-	  bpr += 8;
-	  nprisms++;
-
-	  datprm[nprisms-1] = MR_GEntID(reg);
-	  break;
-
-	case 4: /***** PYRAMID *****/
-	  if (!idbpyr) {
-	    idbpyr = (int *)malloc(5*nreg*sizeof(int));
-	    datpyr = (float *)malloc(nreg*sizeof(float));
-	  }
+      case PYRAMID:
+	if (!idbpyr) {
+	  idbpyr = (int *)malloc(8*nreg*sizeof(int));
+	  datpyr = (float *)malloc(nreg*sizeof(float));
+	}
+        for (k = 0; k < 8; k++)
+	  idbpyr[bpy++] = dx_vid(List_Entry(verts,rvtmpl[1][k]),vidatt);
+	datpyr[npyrs++] = MR_GEntID(reg);
+	break;
 
-	  verts =  MF_Vertices(rface0,!MR_FaceDir_i(reg,0),0);
-	  for (k = 0; k < 4; k++)
-	    lvert[k] = List_Entry(verts,k);
-	  List_Delete(verts);
-	  rface1 = List_Entry(rfaces,1); /* has to be connected to rface0 */
-	  fedges = MF_Edges(rface1,1,0);
-	  evert0 = evert1 = NULL;
-	  for (k = 0; k < 3; k++) {
-	    edge = List_Entry(fedges,k);
-	    if (!MF_UsesEntity(rface0,edge,1)) {
-	      evert0 = ME_Vertex(edge,0);
-	      if (evert0 == lvert[0] || evert0 == lvert[1] || 
-		  evert0 == lvert[2] || evert0 == lvert[3])
-		lvert[4] = ME_Vertex(edge,1);
-	      else
-		lvert[4] = evert0;
-	      break;
-	    }
-	  }
-	  List_Delete(fedges);
-	  idbpyr[bpy]   = MV_ID(lvert[0])-1; 
-	  idbpyr[bpy+1] = MV_ID(lvert[1])-1;
-	  idbpyr[bpy+2] = MV_ID(lvert[3])-1; 
-	  idbpyr[bpy+3] = MV_ID(lvert[2])-1;
-	  idbpyr[bpy+4] = idbpyr[bpy+5] = idbpyr[bpy+6] = idbpyr[bpy+7] = 
-	    MV_ID(lvert[4])-1;
-	  bpy += 8;
-	  npyrs++;
-
-	  datpyr[npyrs-1] = MR_GEntID(reg);
-
-	  break;
+      case PRISM:
+	if (!idbprm) {
+	  idbprm = (int *)malloc(8*nreg*sizeof(int));
+	  datprm = (float *)malloc(nreg*sizeof(float));
 	}
+        for (k = 0; k < 8; k++)
+	  idbprm[bpr++] = dx_vid(List_Entry(verts,rvtmpl[2][k]),vidatt);
+	datprm[nprisms++] = MR_GEntID(reg);
 	break;
-      case 6: /******* HEXAHEDRON *********/
+
+      default: /* HEX */
 	if (!idbhex) {
 	  idbhex = (int *)malloc(8*nreg*sizeof(int));
 	  dathex = (float *)malloc(nreg*sizeof(float));
 	}
-
-	verts = MR_Vertices(reg);
-        for (k = 0; k < 8; k++) {
-	  k1 = rvtmpl[3][k];
-	  idbhex[bh++] = MV_ID(List_Entry(verts,k1))-1;
-	}
-	List_Delete(verts);
-	nhexes++;
-
-	dathex[nhexes-1] = MR_GEntID(reg);
-
+        for (k = 0; k < 8; k++)
+	  idbhex[bh++] = dx_vid(List_Entry(verts,rvtmpl[3][k]),vidatt);
+	dathex[nhexes++] = MR_GEntID(reg);
 	break;
-      default: /* General - have to do it some other way */
-	fprintf(stderr,"Not handled\n");
       }
+
+      List_Delete(verts);
     }
 
     if (ntets) {
@@ -428,16 +344,24 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
   }
   fclose(fdat);
     
-  free(idbtet);
+  free(idbtet); free(dattet);
+  free(idbpyr); free(datpyr);
+  free(idbprm); free(datprm);
+  free(idbhex); free(dathex);
+  free(polcenidx);
+  free(polcen2);
 
-  /* Now write into the .dx file */
-  fout = fopen(fname,"w");
-  
-#ifdef i686_linux
-  strcpy(xsb,"lsb");
-#else 
-  strcpy(xsb,"msb");
-#endif
+  index = 0;
+  while ((vertex = MESH_Next_Vertex(mesh,&index)))
+    MEnt_Rem_AttVal(vertex,vidatt);
+  MAttrib_Delete(vidatt);
+  index = 0;
+  while ((face = MESH_Next_Face(mesh,&index)))
+    MEnt_Rem_AttVal(face,fidatt);
+  MAttrib_Delete(fidatt);
+
+  /* Now write into the .dx file; the byte order is that of this machine */
+  strcpy(xsb, *((char *) &bytetest) ? "lsb" : "msb");
 
   objnum = 1;
   fprintf(fout,"object %d class array type float rank 1 shape 3 items %d %3s binary\n",objnum++,np,xsb);
@@ -630,5 +554,7 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 
   fprintf(fout,"end\n");
   fclose(fout);
+
+  return 1;
 }
 
-- 
2.43.0


From b24890c1199be27f2760708d78c0c1892b580cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:02 +0000
Subject: [PATCH 31/98] fix: keep given model edge/vertex classification and
 distinguish model vertices and edges in MESH_BuildClassfn

---
 src/hilev/MESH_BuildEdgeClassfn.c   |  41 ++++---
 src/hilev/MESH_BuildVertexClassfn.c | 179 ++++------------------------
 2 files changed, 47 insertions(+), 173 deletions(-)

diff --git a/src/hilev/MESH_BuildEdgeClassfn.c b/src/hilev/MESH_BuildEdgeClassfn.c
index 93fb511..e09d0f9 100644
--- a/src/hilev/MESH_BuildEdgeClassfn.c
+++ b/src/hilev/MESH_BuildEdgeClassfn.c
@@ -87,7 +87,7 @@ extern "C" {
 	geids[ngedges] = geid;
 
 	efaces = ME_Faces(edge);
-	nef = List_Num_Entries(efaces);
+	nef = efaces ? List_Num_Entries(efaces) : 0;
 
 	gefaceids[ngedges] = (int *) malloc((1+nef)*sizeof(int));
         ngef = 0;
@@ -102,7 +102,7 @@ extern "C" {
 
 	ngedges++;
 
-	List_Delete(efaces);
+	if (efaces) List_Delete(efaces);
       }
 
     }
@@ -134,6 +134,11 @@ extern "C" {
       /* Isolated edge (must be on model edge). Did we encounter such
 	 an edge before? */
 
+      if (efaces) List_Delete(efaces);
+
+      if (gdim == 1 && geid > 0)
+        continue; /* classification was given, keep it */
+
       ME_Set_GEntDim(edge,1);
 
       for (i = 0, fnd = 0; i < ngedges; i++) {
@@ -158,6 +163,7 @@ extern "C" {
 	geids[ngedges] = max_gedge_id;
 	gefaceids[ngedges] = malloc(1*sizeof(int *));
 	gefaceids[ngedges][0] = 0;
+	ngedges++;
       }
 
       continue; /* nothing else to do */
@@ -177,6 +183,11 @@ extern "C" {
       }
     }
     
+    if (ngef && gdim == 1 && geid > 0) {
+      List_Delete(efaces);
+      continue; /* classification was given, keep it */
+    }
+
     switch (ngef) {
     case 0:
       /* Interior edge - we took care of the case of the isolated edge b4 */
@@ -203,8 +214,8 @@ extern "C" {
 	    if (gefaceids[i][0] != 2)
 	      continue;
 
-	    if ((loc_gfids[0] == gefaceids[i][0]) && 
-		(gefaceids[i][0] == gefaceids[i][1])) {
+	    if ((loc_gfids[0] == gefaceids[i][1]) && 
+		(gefaceids[i][1] == gefaceids[i][2])) {
 	      fnd = 1;
 	      break;
 	    }
@@ -297,23 +308,19 @@ extern "C" {
 	  continue; /* number of connected model faces is different */
 	
 	/* see if all the model faces of the current edge can be found
-	   in the i'th model edge's faces */
+	   in the i'th model edge's faces, each as many times */
+
+	fnd2 = 1;
+	for (j = 0; j < ngef && fnd2; j++) {
+	  int cnt1 = 0, cnt2 = 0;
 
-	fnd2 = 0;
-	for (j = 0; j < ngef; j++) {
-	  
-	  fnd2 = 0;
 	  for (k = 0; k < ngef; k++) {
-	    if (loc_gfids[j] == gefaceids[i][1+k]) {
-	      fnd2 = 1;
-	      break;
-	    }
+	    if (loc_gfids[k] == loc_gfids[j]) cnt1++;
+	    if (gefaceids[i][1+k] == loc_gfids[j]) cnt2++;
 	  }
 
-	  /* Did not find loc_gfid[j] in the list gefaceids[i] */
-
-	  if (!fnd2)
-	    break;
+	  if (cnt1 != cnt2)
+	    fnd2 = 0;
 	}
 
 	/* if a model face connected to this edge was not found in the
diff --git a/src/hilev/MESH_BuildVertexClassfn.c b/src/hilev/MESH_BuildVertexClassfn.c
index 4356acc..e1184a3 100644
--- a/src/hilev/MESH_BuildVertexClassfn.c
+++ b/src/hilev/MESH_BuildVertexClassfn.c
@@ -26,10 +26,10 @@ extern "C" {
  */
 
 int MESH_BuildVertexClassfn(Mesh_ptr mesh, int use_geometry) {
-  int i, j, k, idx, fnd, fnd2, gvid, gdim, multiple_gfids=0;
-  int ngverts, ngvalloc, ngve, max_loc_geids, *loc_geids;
+  int i, idx, fnd, gvid, gdim, multiple_gfids=0;
+  int ngve, max_loc_geids, *loc_geids;
   int max_gvert_id;
-  int nve, *gvids, **gvedgeids, gfid, prev_gfid;
+  int nve, gfid;
   MVertex_ptr vertex;
   MEdge_ptr vedge;
   List_ptr vedges;
@@ -38,12 +38,6 @@ int MESH_BuildVertexClassfn(Mesh_ptr mesh, int use_geometry) {
   /* Verify that mesh vertices on the boundary have classification
      information; if not, assign all vertices to the same model vertex */
 
-  ngverts = 0; ngvalloc = 10;
-  gvids = (int *) malloc(ngvalloc*sizeof(int)); /* model vertex ids */
-  /* Number of model edges connected to vertex followed by model edge ids */
-  gvedgeids = (int **) malloc(ngvalloc*sizeof(int *));
-
-
   /* Take stock of existing model vertex information */
 
   max_gvert_id = 0;
@@ -57,31 +51,6 @@ int MESH_BuildVertexClassfn(Mesh_ptr mesh, int use_geometry) {
     if (gvid) {
       if (gvid > max_gvert_id)
 	max_gvert_id = gvid;
-      
-      if (ngvalloc == ngverts) {
-	ngvalloc *= 2;
-	gvids = (int *) realloc(gvids,ngvalloc*sizeof(int));
-	gvedgeids = (int **)realloc(gvedgeids,ngvalloc*sizeof(int *));
-      }
-
-      gvids[ngverts] = gvid;
-      
-      vedges = MV_Edges(vertex);
-      nve = vedges ? List_Num_Entries(vedges) : 0;
-
-      gvedgeids[ngverts] = (int *) malloc((1+nve)*sizeof(int));
-      ngve = 0;
-      for (i = 0; i < nve; i++) {
-	vedge = List_Entry(vedges,i);
-	if (ME_GEntDim(vedge) == 1) {
-	  gvedgeids[ngverts][1+ngve] = ME_GEntID(vedge);
-	  ngve++;
-	}
-      }
-      gvedgeids[ngverts][0] = ngve;
-
-      if (vedges) List_Delete(vedges);
-      ngverts++;
     }
   }
 
@@ -107,6 +76,21 @@ int MESH_BuildVertexClassfn(Mesh_ptr mesh, int use_geometry) {
     vedges = MV_Edges(vertex);
     nve = vedges ? List_Num_Entries(vedges) : 0;
 
+    if (gdim == 0 && gvid > 0) {
+
+      /* Classification was given, keep it unless the vertex is in the
+         interior of a model region */
+
+      for (i = 0, fnd = 0; i < nve; i++)
+        if (ME_GEntDim(List_Entry(vedges,i)) <= 2)
+          fnd = 1;
+
+      if (fnd || !nve) {
+        if (vedges) List_Delete(vedges);
+        continue;
+      }
+    }
+
     if (!nve) {
       /* Isolated vertex (must be a model vertex) */
 
@@ -114,17 +98,8 @@ int MESH_BuildVertexClassfn(Mesh_ptr mesh, int use_geometry) {
 
       max_gvert_id++;
       MV_Set_GEntID(vertex,max_gvert_id);
-	
-      if (ngvalloc == ngverts) {
-	ngvalloc *= 2;
-	gvids = (int *) realloc(gvids,ngvalloc*sizeof(int));
-	gvedgeids = (int **) realloc(gvedgeids,ngvalloc*sizeof(int *));
-      }
-	    
-      gvids[ngverts] = max_gvert_id;
-      gvedgeids[ngverts] = malloc(1*sizeof(int *));
-      gvedgeids[ngverts][0] = 0;
 
+      if (vedges) List_Delete(vedges);
       continue; /* nothing else to do */
     }
 
@@ -199,19 +174,6 @@ int MESH_BuildVertexClassfn(Mesh_ptr mesh, int use_geometry) {
 
 	  max_gvert_id++;
 	  MV_Set_GEntID(vertex,max_gvert_id);
-	    
-	  if (ngvalloc == ngverts) {
-	    ngvalloc *= 2;
-	    gvids = (int *) realloc(gvids,ngvalloc*sizeof(int));
-	    gvedgeids = (int **) realloc(gvedgeids,ngvalloc*sizeof(int *));
-	  }
-	    
-	  gvids[ngverts] = max_gvert_id;
-	  gvedgeids[ngverts] = malloc((1+ngve)*sizeof(int *));
-	  gvedgeids[ngverts][0] = ngve;
-	  for (i = 0; i < ngve; i++)
-	    gvedgeids[ngverts][1+i] = loc_geids[i];
-	  ngverts++;
 	}
 	else {
 	  /* vertex must be on model edge */
@@ -226,41 +188,8 @@ int MESH_BuildVertexClassfn(Mesh_ptr mesh, int use_geometry) {
 
 	MV_Set_GEntDim(vertex,0);
 
-	/* Check if such a vertex was encountered before (if so, we
-	   have coincident mesh vertices) */
-	
-	for (i = 0, fnd = 0; i < ngverts; i++) {
-	  if (gvedgeids[i][0] != 2)
-	    continue;
-	  
-	  if (((loc_geids[0] == gvedgeids[i][1]) && 
-	       (loc_geids[1] == gvedgeids[i][2])) ||
-	      ((loc_geids[1] == gvedgeids[i][1]) &&
-	       (loc_geids[0] == gvedgeids[i][2])))   {
-	    fnd = 1;
-	    break;
-	  }
-	}
-
-	if (fnd) 
-	  MV_Set_GEntID(vertex,gvids[i]);
-	else {
-	  max_gvert_id++;
-	  MV_Set_GEntID(vertex,max_gvert_id);
-	  
-	  if (ngvalloc == ngverts) {
-	    ngvalloc *= 2;
-	    gvids = (int *) realloc(gvids,ngvalloc*sizeof(int));
-	    gvedgeids = (int **) realloc(gvedgeids,ngvalloc*sizeof(int *));
-	  }
-	  
-	  gvids[ngverts] = max_gvert_id;
-	  gvedgeids[ngverts] = malloc((1+ngve)*sizeof(int *));
-	  gvedgeids[ngverts][0] = ngve;
-	  for (i = 0; i < ngve; i++)
-	    gvedgeids[ngverts][1+i] = loc_geids[i];
-	  ngverts++;
-	}
+	max_gvert_id++;
+	MV_Set_GEntID(vertex,max_gvert_id);
       }
       break;
 
@@ -272,66 +201,9 @@ int MESH_BuildVertexClassfn(Mesh_ptr mesh, int use_geometry) {
       */
       
       MV_Set_GEntDim(vertex,0);
-      
-      /* Check if a previously encountered model vertex has this
-	 combination of connected edges (if so, then we have
-	 coincident mesh vertices) */
-      
-      for (i = 0, fnd = 0; i < ngverts; i++) {
-	if (ngve != gvedgeids[i][0]) 
-	  continue; /* number of connected model edges is different */
-	
-	/* see if all the model edges of the current vertex can be
-	   found in the i'th model vertex's edges */
-
-	fnd2 = 0;
-	for (j = 0; j < ngve; j++) {
-	  
-	  fnd2 = 0;
-	  for (k = 0; k < ngve; k++) {
-	    if (loc_geids[j] == gvedgeids[i][1+k]) {
-	      fnd2 = 1;
-	      break;
-	    }
-	  }
-
-	  /* Did not find loc_gfid[j] in the list gvedgeids[i] */
-
-	  if (!fnd2)
-	    break;
-	}
-
-	/* if a model edge connected to this vertex was not found in
-	   the model edge list of the previously processed vertex,
-	   then the two model vertices are obviously different */
 
-	if (!fnd2)
-	  continue;
-	else {
-	  fnd = 1;
-	  break;
-	}
-      }
-
-      if (fnd)
-	MV_Set_GEntID(vertex,gvids[i]);
-      else {
-	max_gvert_id++;
-	MV_Set_GEntID(vertex,max_gvert_id);
-	
-	if (ngvalloc == ngverts) {
-	  ngvalloc *= 2;
-	  gvids = (int *) realloc(gvids,ngvalloc*sizeof(int));
-	  gvedgeids = (int **) realloc(gvedgeids,ngvalloc*sizeof(int *));
-	}
-	
-	gvids[ngverts] = max_gvert_id;
-	gvedgeids[ngverts] = malloc((1+ngve)*sizeof(int *));
-	gvedgeids[ngverts][0] = ngve;
-	for (i = 0; i < ngve; i++)
-	  gvedgeids[ngverts][1+i] = loc_geids[i];
-	ngverts++;
-      }
+      max_gvert_id++;
+      MV_Set_GEntID(vertex,max_gvert_id);
       break;
     }
 
@@ -340,11 +212,6 @@ int MESH_BuildVertexClassfn(Mesh_ptr mesh, int use_geometry) {
   free(loc_geids);
 
 
-  free(gvids);
-  for (i = 0; i < ngverts; i++)
-    free(gvedgeids[i]);
-  free(gvedgeids);
-       
   return 1;
 }
 
-- 
2.43.0


From c3c4cb75cfcc9943a5c9b51d1ce6e61b2dfe880c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 32/98] fix: MESH_Tet2Hex and MESH_Tri2Quad refuse other meshes
 before touching them

---
 src/hilev/MESH_Tet2Hex.c  | 25 +++++++++++++++++++++----
 src/hilev/MESH_Tri2Quad.c | 17 +++++++++++++----
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/hilev/MESH_Tet2Hex.c b/src/hilev/MESH_Tet2Hex.c
index 0662032..ab82b76 100644
--- a/src/hilev/MESH_Tet2Hex.c
+++ b/src/hilev/MESH_Tet2Hex.c
@@ -52,6 +52,27 @@ extern "C" {
     nV = MESH_Num_Vertices(tetmesh);
     nR = MESH_Num_Regions(tetmesh);
     
+    *hexmesh = NULL;
+
+    /* verify that this is a tetrahedral mesh */
+
+    idf = 0;
+    while( (ptr_f = MESH_Next_Face(tetmesh, &idf)) ) {
+      if( MF_Num_Vertices(ptr_f) != 3 ) {
+	MSTK_Report("MESH_Tet2Hex","Input mesh is not a tetrahedral mesh",MSTK_WARN);
+	return 0;
+      }
+    }
+
+    idr = 0;
+    while( (ptr_r = MESH_Next_Region(tetmesh, &idr)) ) {
+      if( MR_Num_Faces(ptr_r) != 4 || MR_Num_Vertices(ptr_r) != 4 ) {
+	MSTK_Report("MESH_Tet2Hex","Input mesh is not a tetrahedral mesh",MSTK_WARN);
+	return 0;
+      }
+    }
+
+
     *hexmesh = MESH_New(MESH_RepType(tetmesh));
     
     
@@ -99,10 +120,6 @@ extern "C" {
     idf = 0;
     while( (ptr_f = MESH_Next_Face(tetmesh, &idf)) ) {
       MF_Coords(ptr_f, &n, xyz_lst);
-      if( n != 3 ) {
-	MSTK_Report("MESH_Tet2Hex","Input mesh is not a tetrahedral mesh",MSTK_WARN);
-	return 0;
-      }
 
       for( i=0; i<3; i++ ) xyz[i] = (xyz_lst[0][i] + xyz_lst[1][i] + xyz_lst[2][i]) / 3;
 
diff --git a/src/hilev/MESH_Tri2Quad.c b/src/hilev/MESH_Tri2Quad.c
index 8f0407c..455e3f7 100644
--- a/src/hilev/MESH_Tri2Quad.c
+++ b/src/hilev/MESH_Tri2Quad.c
@@ -50,6 +50,19 @@ extern "C" {
     nV = MESH_Num_Vertices(trimesh);
     nF = MESH_Num_Faces(trimesh);
     
+    *quadmesh = NULL;
+
+    /* verify that this is a triangle mesh */
+
+    idf = 0;
+    while( (ptr_f = MESH_Next_Face(trimesh, &idf)) ) {
+      if( MF_Num_Vertices(ptr_f) != 3 ) {
+	MSTK_Report("MESH_Tri2Quad","Input mesh is not a triangle mesh",MSTK_WARN);
+	return 0;
+      }
+    }
+
+
     *quadmesh = MESH_New(MESH_RepType(trimesh));
     
     
@@ -97,10 +110,6 @@ extern "C" {
     idf = 0;
     while( (ptr_f = MESH_Next_Face(trimesh, &idf)) ) {
       MF_Coords(ptr_f, &n, xyz_lst);
-      if( n != 3 ) {
-	MSTK_Report("MESH_Tri2Quad","Input mesh is not a triangle mesh",MSTK_WARN);
-	return 0;
-      }
 
       for( i=0; i<3; i++ ) xyz[i] = (xyz_lst[0][i] + xyz_lst[1][i] + xyz_lst[2][i]) / 3;
 
-- 
2.43.0


From bd970cdf4a64b836bf4544c4106e69af88163d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 33/98] fix: MESH_CheckTopo checks both edge vertices and fails
 on every error it reports without crashing

---
 src/hilev/MESH_CheckTopo.c | 245 ++++++++++++++++++-------------------
 1 file changed, 121 insertions(+), 124 deletions(-)

diff --git a/src/hilev/MESH_CheckTopo.c b/src/hilev/MESH_CheckTopo.c
index f8a7db3..4eb89a3 100644
--- a/src/hilev/MESH_CheckTopo.c
+++ b/src/hilev/MESH_CheckTopo.c
@@ -126,18 +126,19 @@ extern "C" {
 
 	found = 0;
 	idx2 = 0;
-	while ((vf = List_Next_Entry(vfaces,&idx2))) {
-	  if (MF_GEntDim(vf) == 2) {
+	while (vfaces && (vf = List_Next_Entry(vfaces,&idx2))) {
+	  if (MF_GEntDim(vf) == 2 && MF_GEntID(vf) == gvid) {
 	    found = 1;
 	    break;
 	  }
 	}
-        List_Delete(vfaces);
+        if (vfaces) List_Delete(vfaces);
 
 	if (!found) {
 	  sprintf(mesg,"Vertex %-d classified on model face %-d but could not \n find connected face classified on this model face",vid,gvid);
 	  MSTK_Report(funcname,mesg,MSTK_WARN);
 	  valid = 0;
+	  continue;
 	}
 
 	fcur = vf;
@@ -155,14 +156,14 @@ extern "C" {
 	  efaces = ME_Faces(ecur);
 	  found = 0;
 	  idx3 = 0;
-	  while ((ef = List_Next_Entry(efaces,&idx3))) {
+	  while (efaces && (ef = List_Next_Entry(efaces,&idx3))) {
 	    if (ef != fcur && MF_GEntDim(ef) == 2 && MF_GEntID(ef) == gvid) {
 	      fcur = ef;
 	      found = 1;
 	      break;
 	    }
 	  }
-	  List_Delete(efaces);
+	  if (efaces) List_Delete(efaces);
 
 	  if (!found) {
 	    sprintf(mesg,"Could not find next boundary face connected to vertex %-d",vid);
@@ -183,6 +184,9 @@ extern "C" {
           else {
             sprintf(mesg,"Could not find next edge while traversing around vertex %-d on model face %-d",vid,gvid);
             MSTK_Report(funcname,mesg,MSTK_ERROR);
+            valid = 0;
+            List_Delete(fedges);
+            break;
           }
 
 	  List_Delete(fedges);
@@ -197,11 +201,12 @@ extern "C" {
 	if (!done) {
 	  sprintf(mesg,"Vertex %-d classified on model face %-d but could not  find ring of faces classified on this model face",vid,gvid);
 	  MSTK_Report(funcname,mesg,MSTK_WARN);
+	  valid = 0;
 	}
 
         if (done && flipped) {
           List_ptr fregs = MF_Regions(fcur);
-          if (List_Num_Entries(fregs) < 2) {
+          if (!fregs || List_Num_Entries(fregs) < 2) {
             sprintf(mesg,"Inconsistent orientations of boundary faces around vertex %-d",vid);
             MSTK_Report(funcname,mesg,MSTK_WARN);
           }
@@ -240,6 +245,7 @@ extern "C" {
       if (ME_Vertex(me,0) == ME_Vertex(me,1)) {
         sprintf(mesg,"Edge %-d has repeated vertices",eid);
         MSTK_Report(funcname,mesg,MSTK_ERROR);
+        valid = 0;
       }
 
       for (i = 0; i < 2; i++) {
@@ -249,7 +255,7 @@ extern "C" {
 	gvid = MV_GEntID(ev);
 	gvdim = MV_GEntDim(ev);
 
-        if (gvdim != 4 && gvdim != 4) {  /* vertex and edge classifn is known */
+        if (gvdim != 4 && gedim != 4) {  /* vertex and edge classifn is known */
           if (gedim < gvdim) {
             sprintf(mesg,"Edge %-d classified on lower dimensional entity than  connected vertex %-d",eid,vid);
             MSTK_Report(funcname,mesg,MSTK_WARN);
@@ -263,154 +269,141 @@ extern "C" {
         }
 
 	vedges = MV_Edges(ev);
-	if (!List_Contains(vedges,me)) {
+	if (!vedges || !List_Contains(vedges,me)) {
 	  sprintf(mesg,"Edge %-d sees vertex %-d but not vice versa",eid,vid);
 	  MSTK_Report(funcname,mesg,MSTK_ERROR);
 	  valid = 0;
 	}
-	List_Delete(vedges);
-
-	if (gedim == 2) {
-	  MFace_ptr ebf[2], fcur, fnxt;
-	  MRegion_ptr rcur;
-	  int nf, nfr;
-	  List_ptr eregs;
-
-	  /* Edge is classified on model face - it should be connected
-	     to two and only two faces also classified on this model
-	     face */
-
-	  ebf[0] = ebf[1] = NULL;
-	  nf = 0;
-	  efaces = ME_Faces(me);
-	  idx2 = 0;
-	  while ((ef = List_Next_Entry(efaces,&idx2))) {
-	    fid = MF_ID(ef);
-
-	    if (MF_GEntDim(ef) == 2) {
-	      nf++;
-	      if (gedim == 2 && MF_GEntID(ef) != geid) {
-		sprintf(mesg,"Face %-d connected to edge %-d classified on different model face",fid,eid);
-		MSTK_Report(funcname,mesg,MSTK_WARN);
-		valid = 0;
-	      }
+	if (vedges) List_Delete(vedges);
+
+      } /* for (i = 0; i < 2; i++) */
+
+
+      if (gedim == 2) {
+	MFace_ptr ebf[2], fcur, fnxt;
+	MRegion_ptr rcur, rnxt;
+	int nf, nfr;
+	List_ptr eregs;
 
-	      if (ebf[0] == NULL)
-		ebf[0] = ef;
-	      else
-		ebf[1] = ef;
+	/* Edge is classified on model face - it should be connected
+	   to two and only two faces also classified on this model
+	   face */
+
+	ebf[0] = ebf[1] = NULL;
+	nf = 0;
+	efaces = ME_Faces(me);
+	idx2 = 0;
+	while (efaces && (ef = List_Next_Entry(efaces,&idx2))) {
+	  fid = MF_ID(ef);
+
+	  if (MF_GEntDim(ef) == 2) {
+	    nf++;
+	    if (MF_GEntID(ef) != geid) {
+	      sprintf(mesg,"Face %-d connected to edge %-d classified on different model face",fid,eid);
+	      MSTK_Report(funcname,mesg,MSTK_WARN);
+	      valid = 0;
 	    }
-	  }
-	  List_Delete(efaces);
 
-	  if (nf != 2) {
-	    sprintf(mesg,"Boundary edge %-d is not connected to exactly two\n  faces classified on the boundary",eid);
-	    MSTK_Report(funcname,mesg,MSTK_ERROR);
-	    valid = 0;
+	    if (ebf[0] == NULL)
+	      ebf[0] = ef;
+	    else
+	      ebf[1] = ef;
 	  }
+	}
+	if (efaces) List_Delete(efaces);
 
+	if (nf != 2) {
+	  sprintf(mesg,"Boundary edge %-d is not connected to exactly two\n  faces classified on the boundary",eid);
+	  MSTK_Report(funcname,mesg,MSTK_ERROR);
+	  valid = 0;
+	  continue;
+	}
 
-	  eregs = ME_Regions(me);
-	  if (!eregs) 
-	    continue;
-	  else
-	    List_Delete(eregs);
 
-	  /* Can we go from f0 to f1 in one or two dirs? */
+	eregs = ME_Regions(me);
+	if (!eregs) 
+	  continue;
+	else
+	  List_Delete(eregs);
 
+	/* Can we go from f0 to f1 in one or two dirs? */
+
+	fregs = MF_Regions(ebf[0]);
+	if (!fregs) {
+	  fid = MF_ID(ebf[0]);
+	  sprintf(mesg,"Edge %-d connected to regions but face %-d is not",eid,fid);
+	  MSTK_Report(funcname,mesg,MSTK_ERROR);
+	  valid = 0;
+	  continue;
+	}
+
+	nfr = List_Num_Entries(fregs);
+	for (i = 0; i < nfr; i++) {
+	  rcur = List_Entry(fregs,i);
 	  fcur = ebf[0];
-          fnxt = NULL;
-	  fregs = MF_Regions(fcur);
-	  if (!fregs) {
-	    fid = MF_ID(fcur);
-	    sprintf(mesg,"Edge %-d connected to regions but face %-d is not",eid,fid);
-	    MSTK_Report(funcname,mesg,MSTK_ERROR);
-	    valid = 0;
-	  }
 
-	  nfr = List_Num_Entries(fregs);
-	  for (i = 0; i < nfr; i++) {
-	    rcur = List_Entry(fregs,i);
-	  
+	  done = 0; j = 0;
+	  while (!done) {
+
+	    /* Other face of region using the edge */
+
 	    rfaces = MR_Faces(rcur);
 	    idx3 = 0;
-	    found = 0;
+	    fnxt = NULL;
 	    while ((rf = List_Next_Entry(rfaces,&idx3))) {
-	      if (rf != fcur && MF_UsesEntity(rf,me,1)) {
-		found = 1;
+	      if (rf != fcur && MF_UsesEntity(rf,me,MEDGE)) {
 		fnxt = rf;
 		break;
 	      }
 	    }
 	    List_Delete(rfaces);
-	    
-	    if (!found) {
+
+	    if (!fnxt) {
 	      rid = MR_ID(rcur);
 	      sprintf(mesg,"Could not find second face in region %-d using edge %-d",rid,eid);
+	      MSTK_Report(funcname,mesg,MSTK_ERROR);
+	      break;
 	    }
-	    
-	    
-	    done = 0; j = 0;
-	    while (!done) {
-	      fcur = fnxt;
-	      fid = MF_ID(fcur);
-	      
-	      if (fnxt == ebf[1]) {
-		done = 1;
-		break;
-	      }
-	      
-	      fregs1 = MF_Regions(fcur);
-	      idx3 = 0;
-	      while ((fr = List_Next_Entry(fregs1,&idx3))) {
-		if (fr != rcur) {
-		  rcur = fr;
-		  found = 1;
-		  break;
-		}
-	      }
-	      List_Delete(fregs1);
 
-	      if (!found) {
-		sprintf(mesg,"Could not find next region around edge %-d",eid);
-		MSTK_Report(funcname,mesg,MSTK_ERROR);
-		valid = 0;
+	    fcur = fnxt;
+	    if (fcur == ebf[1]) {
+	      done = 1;
+	      break;
+	    }
+
+	    /* Region on the other side of this face */
+
+	    fregs1 = MF_Regions(fcur);
+	    idx3 = 0;
+	    rnxt = NULL;
+	    while (fregs1 && (fr = List_Next_Entry(fregs1,&idx3))) {
+	      if (fr != rcur) {
+		rnxt = fr;
 		break;
 	      }
-	      
-	      
-	      rfaces = MR_Faces(rcur);
-	      idx3 = 0;
-	      found = 0;
-	      while ((rf = List_Next_Entry(rfaces,&idx3))) {
-		if (rf != fcur && MF_UsesEntity(rf,me,1)) {
-		  found = 1;
-		  fnxt = rf;
-		  break;
-		}
-	      }
-	      List_Delete(rfaces);
-	      
-	      if (!found) {
-		rid = MR_ID(rcur);
-		sprintf(mesg,"Could not find second face in region %-d using edge %-d",rid,eid);
-	      }
-	      
-	      if (++j > maxiter)
-		break;
-	    } /* while (!done) */
+	    }
+	    if (fregs1) List_Delete(fregs1);
 
-	    if (!done) {
-	      sprintf(mesg,"Could not traverse around edge %-d from face %-d to face %-d",eid,MF_ID(ebf[0]),MF_ID(ebf[1]));
+	    if (!rnxt) {
+	      sprintf(mesg,"Could not find next region around edge %-d",eid);
 	      MSTK_Report(funcname,mesg,MSTK_ERROR);
-	      valid = 0;
+	      break;
 	    }
-	  } /* for (i = 0; i < nfr; i++) */
-          List_Delete(fregs);
+	    rcur = rnxt;
 
-	} /* if (geid == 2) */
+	    if (++j > maxiter)
+	      break;
+	  } /* while (!done) */
 
-      } /* for (i = 0; i < 2; i++) */
+	  if (!done) {
+	    sprintf(mesg,"Could not traverse around edge %-d from face %-d to face %-d",eid,MF_ID(ebf[0]),MF_ID(ebf[1]));
+	    MSTK_Report(funcname,mesg,MSTK_ERROR);
+	    valid = 0;
+	  }
+	} /* for (i = 0; i < nfr; i++) */
+	List_Delete(fregs);
+
+      } /* if (gedim == 2) */
 
     } /* while ((me = MESH_Next_Edge(mesh,&idx1))) */
 
@@ -443,6 +436,7 @@ extern "C" {
       if (List_Num_Entries(fedges) < 3) {
         sprintf(mesg,"Face %-d has less than 3 edges",fid);
         MSTK_Report(funcname,mesg,MSTK_ERROR);
+        valid = 0;
       }
 
       idx2 = 0;
@@ -460,16 +454,17 @@ extern "C" {
           else if (gedim == gfdim && geid != gfid) {
             sprintf(mesg,"Face %-d and edge %-d classified on different\n entities of the same dimension",fid,eid);
             MSTK_Report(funcname,mesg,MSTK_WARN);
+            valid = 0;
           }
         }
 
 	efaces = ME_Faces(fe);
-	if (!List_Contains(efaces,mf)) {
+	if (!efaces || !List_Contains(efaces,mf)) {
 	  sprintf(mesg,"Face %-d refers to edge %-d but not vice versa",fid,ME_ID(fe));
 	  MSTK_Report(funcname,mesg,MSTK_ERROR);
 	  valid = 0;
 	}
-	List_Delete(efaces);
+	if (efaces) List_Delete(efaces);
       }
       List_Delete(fedges);
       
@@ -521,6 +516,7 @@ extern "C" {
       if (nrf < 4) {
         sprintf(mesg,"Region %-d has less than 4 faces",rid);
         MSTK_Report(funcname,mesg,MSTK_ERROR);
+        valid = 0;
       }
 
       /* Check that face to region and region to face links are consistent
@@ -570,6 +566,7 @@ extern "C" {
             sprintf(mesg,"Cannot find another face in region %-d sharing edge %-d (ID = %-d) of face with ID = %-d",MR_ID(mr),j,ME_ID(fe),MF_ID(rf));
             MSTK_Report(funcname,mesg,MSTK_ERROR);
             valid = 0;
+            continue;
           }
           
           int fedir_adj = MF_EdgeDir(rf2,fe);
-- 
2.43.0


From 19b598df18659449ff3e8540897c032469ba8b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 34/98] fix: MF_Replace_Edges, MF_Rem_Edge and MF_Set_Edges
 lost edge directions, edges across the start of the face and links of dropped
 edges

---
 src/base/MF_Edge_Funcs_F1F3.c | 169 ++++++++++----------------
 src/base/MF_Edge_Funcs_F2F4.c | 218 +++++++++++++++++-----------------
 2 files changed, 171 insertions(+), 216 deletions(-)

diff --git a/src/base/MF_Edge_Funcs_F1F3.c b/src/base/MF_Edge_Funcs_F1F3.c
index 2ff110e..7b43370 100644
--- a/src/base/MF_Edge_Funcs_F1F3.c
+++ b/src/base/MF_Edge_Funcs_F1F3.c
@@ -112,6 +112,7 @@ extern "C" {
   void MF_Set_Edges_F1F3(MFace_ptr f, int n, MEdge_ptr *e, int *dir) {
     int i;
     MFace_Adj_F1F3 *adj;
+    List_ptr oldedges;
 
 #ifdef DEBUG
     if (n > 32)
@@ -119,10 +120,19 @@ extern "C" {
 #endif
 
     adj = (MFace_Adj_F1F3 *) f->adj;
+    oldedges = adj->fedges;
+
     adj->edirs = 0UL;
-    if (adj->fedges)
-	List_Delete(adj->fedges);
     adj->fedges = List_New(n);
+
+    /* If the face had edges before, they must forget about it */
+
+    if (oldedges) {
+      MEdge_ptr olde;
+      int idx = 0;
+      while ((olde = List_Next_Entry(oldedges,&idx)))
+        ME_Rem_Face(olde,f);
+    }
     
     for (i = 0; i < n; i++) {
 #ifdef DEBUG
@@ -131,10 +141,13 @@ extern "C" {
 		    "Face and edge belong to different meshes",MSTK_FATAL);
 #endif
 
-      adj->edirs = adj->edirs | (dir[i] << i);
+      adj->edirs = adj->edirs | ((unsigned long long) (dir[i] & 1) << i);
       List_Add(adj->fedges,e[i]);
       ME_Add_Face(e[i],f);
     }
+
+    if (oldedges)
+      List_Delete(oldedges);
   }
 
 
@@ -203,7 +216,9 @@ extern "C" {
     MFace_Adj_F1F3 *adj;
     MEdge_ptr *oldedges, *newedges;
     MVertex_ptr vold_0, vold_1, lastv;
-    int j, k, ne, ncom, dir, *olddirs, *newdirs, rev;
+    int j, k, m, ne, *olddirs, *newdirs, rev;
+    unsigned long long edirs;
+    List_ptr fedges;
 
     adj = (MFace_Adj_F1F3 *) f->adj;
     ne = List_Num_Entries(adj->fedges);
@@ -231,12 +246,16 @@ extern "C" {
       rev = 0;
     else if (ME_UsesEntity(nuedges[0],vold_1,MVERTEX) && ME_UsesEntity(nuedges[nnu-1],vold_0,MVERTEX))
       rev = 1;
-    else
+    else {
       MSTK_Report("MF_Replace_Edge_i","Mismatched set of edges",MSTK_ERROR);
+      free(oldedges);
+      free(olddirs);
+      return;
+    }
 
 
     newedges = (MEdge_ptr *) malloc(nnu*sizeof(MEdge_ptr));
-    newdirs  = (int *) malloc(nnu*sizeof(MEdge_ptr));
+    newdirs  = (int *) malloc(nnu*sizeof(int));
     lastv = vold_0;
     for (j = 0; j < nnu; j++) {
       k = rev ? nnu-1-j : j;
@@ -251,79 +270,29 @@ extern "C" {
 #endif
     }
 
-    /* Number of common edges */
-
-    ncom = nold < nnu ? nold : nnu;
-
-
-    /* Replace old edges with new ones (up to the common number of edges) */
-
-    for (j = 0; j < ncom; j++) {
-      k = (i+j)%ne; 
-      List_Replacei(adj->fedges,k,newedges[j]);		      
-      adj->edirs = (adj->edirs & ~(1UL<<k)); /* set bit k to 0 */
-      adj->edirs = (adj->edirs | (newdirs[j]<<k)); /* set to dir */
-    }
-
-
-
-    if (nold < nnu) {
-      /* Insert the rest of the nuedges at the right place */
-
-      for (j = ncom; j < nnu; j++) {
-	List_Inserti(adj->fedges,newedges[j],i+j);
-
-      
-	/* Move the direction bits after the (i+ncom)'th bit to the
-	 left by (nnu-ncom) spaces and insert the direction bits for
-	 the rest of the inserted edges */
-
-	
-	for (k = ne-1; k >= i+j; k--) {
-
-	  /* set bit k+1 to 0 */
-	  adj->edirs = adj->edirs & ~(1UL<<(k+1));
-
-	  /* get bit k */
-	  dir = (adj->edirs>>k) & 1UL;
-
-	  /* move bit k to (k+1)'th position */
-	  adj->edirs = adj->edirs | (dir<<(k+1));	
-	}
-
-	/* set bit j according to input */
-	adj->edirs = adj->edirs & ~(1UL<<(i+j)); /* Set bit to 0 */
-	adj->edirs = adj->edirs | (newdirs[j]<<(i+j)); /* set to newdir */
-
-	ne++;
+    /* The new edges take the place of edge 'i' in the edge list of the
+       face; the other old edges, which may wrap around to the beginning
+       of the list, are dropped */
+
+    fedges = List_New(ne-nold+nnu);
+    edirs = 0UL;
+    m = 0;
+    for (k = 0; k < ne; k++) {
+      if (k == i) {
+        for (j = 0; j < nnu; j++) {
+          List_Add(fedges,newedges[j]);
+          edirs |= (unsigned long long) newdirs[j] << m++;
+        }
       }
-
-    }
-    else {
-      /* Delete the remaining old edges */
-
-      for (j = ncom; j < nold; j++)
-	List_Rem(adj->fedges,oldedges[j]);
-
-      /* Delete (nold-ncom) direction bits after the (i+ncom)'th bit and
-	 move the remaining bits to the right */
-      
-      for (j = 0; j < nold-ncom; j++) {
-	for (k = (i+ncom+j)%ne; k < ne-1; k++) {
-	  /* set bit k to 0 */
-	  adj->edirs = adj->edirs & ~(1UL<<k);
-
-	  /* get bit k+1 */
-	  dir = (adj->edirs>>(k+1)) & 1UL;
-
-	  /* move bit k+1 to k'th position */
-	  adj->edirs = adj->edirs | (dir<<k);
-	}
-
-	ne--;
+      else if ((k-i+ne)%ne >= nold) {
+        List_Add(fedges,List_Entry(adj->fedges,k));
+        edirs |= ((adj->edirs>>k) & 1UL) << m++;
       }
     }
-      
+    List_Delete(adj->fedges);
+    adj->fedges = fedges;
+    adj->edirs = edirs;
+
     /* Update upward adjacencies */
     for (j = 0; j < nold; j++) {
       ME_Rem_Face(oldedges[j],f);
@@ -344,7 +313,7 @@ extern "C" {
      consecutive */
 
   void MF_Replace_Edges_F1F3(MFace_ptr f, int nold, MEdge_ptr *oldedges, int nnu, MEdge_ptr *nuedges) {
-    int i, j, ne, found = 0, imin1, istart, *eindex, nxtidx, ipos1;
+    int i, j, ne, found = 0, istart, *eindex;
     MFace_Adj_F1F3 *adj;
     MEdge_ptr fedge;
 
@@ -373,39 +342,23 @@ extern "C" {
       }
     }
 
-    /* Find the lowest index; set it to be the start index for
-       replacing edges */
-
-    imin1 = 10000; ipos1 = -1;
-    for (i = 0; i < nold; i++)
-      if (eindex[i] < imin1) {
-	imin1 = eindex[i];
-	ipos1 = i;
-      }
-    istart = imin1;
-    
-    
-    /* Check if there is a break in the edge indices sorted in
-       ascending order. If there is a break, that means the edges are
-       spanning the start vertex in the face vertex cyle.*/
-	
-    nxtidx = imin1+1;
-    for (i = 1; i < nold; i++) {
-      j = (ipos1+i)%nold;
-
-      if (eindex[j] != nxtidx) {
-	/* There is a break in the edge indices and this is the next
-	   smallest index. Use this as the start index for replacing
-	   the edges */
-
-	istart = eindex[j];
-	break;
+    /* The edges may be listed in the direction of the face or opposite
+       to it and may span the start of the edge list of the face. The
+       first one in the direction of the face is the one whose
+       predecessor is not replaced */
+
+    istart = eindex[0];
+    for (i = 0; i < nold; i++) {
+      found = 0;
+      for (j = 0; j < nold; j++)
+        if (eindex[j] == (eindex[i]+ne-1)%ne)
+          found = 1;
+      if (!found) {
+        istart = eindex[i];
+        break;
       }
-      else
-	nxtidx++;
     }
-      
-	  
+
     MF_Replace_Edges_i_F1F3(f, nold, istart, nnu, nuedges);
 
     free(eindex);
diff --git a/src/base/MF_Edge_Funcs_F2F4.c b/src/base/MF_Edge_Funcs_F2F4.c
index 7024632..0952638 100644
--- a/src/base/MF_Edge_Funcs_F2F4.c
+++ b/src/base/MF_Edge_Funcs_F2F4.c
@@ -109,9 +109,30 @@ extern "C" {
   }
 
 
+  /* Regions using the face are linked to the edges of the face, not to
+     the face itself. Bring these links up to date when the face has
+     lost edge 'e' */
+
+  static void MF_Unlink_Edge_From_Regions(List_ptr fregs, MEdge_ptr e) {
+    int idx = 0;
+    MRegion_ptr r;
+    while ((r = List_Next_Entry(fregs,&idx)))
+      if (!MR_UsesEntity(r,(MEntity_ptr) e,MEDGE))
+        ME_Rem_Region(e,r);
+  }
+
+  static void MF_Link_Edge_To_Regions(List_ptr fregs, MEdge_ptr e) {
+    int idx = 0;
+    MRegion_ptr r;
+    while ((r = List_Next_Entry(fregs,&idx)))
+      ME_Add_Region(e,r);
+  }
+
   void MF_Set_Edges_F2F4(MFace_ptr f, int n, MEdge_ptr *e, int *dir) {
     int i;
     MFace_Adj_F2F4 *adj;
+    List_ptr oldedges;
+    List_ptr fregs;
 
 #ifdef DEBUG
     if (n > 32)
@@ -119,10 +140,20 @@ extern "C" {
 #endif
 
     adj = (MFace_Adj_F2F4 *) f->adj;
+    oldedges = adj->fedges;
+    fregs = oldedges ? MF_Regions(f) : NULL;
+
     adj->edirs = 0UL;
-    if (adj->fedges)
-      List_Delete(adj->fedges);
     adj->fedges = List_New(n);
+
+    /* If the face had edges before, they must forget about it */
+
+    if (oldedges) {
+      MEdge_ptr olde;
+      int idx = 0;
+      while ((olde = List_Next_Entry(oldedges,&idx)))
+        ME_Rem_Face(olde,f);
+    }
     
     for (i = 0; i < n; i++) {
 #ifdef DEBUG
@@ -131,10 +162,23 @@ extern "C" {
 		    "Face and edge belong to different meshes",MSTK_FATAL);
 #endif
 
-      adj->edirs = adj->edirs | (dir[i] << i);
+      adj->edirs = adj->edirs | ((unsigned long long) (dir[i] & 1) << i);
       List_Add(adj->fedges,e[i]);
       ME_Add_Face(e[i],f);
+      if (fregs)
+        MF_Link_Edge_To_Regions(fregs,e[i]);
     }
+
+    if (fregs) {
+      MEdge_ptr olde;
+      int idx = 0;
+      while ((olde = List_Next_Entry(oldedges,&idx)))
+        MF_Unlink_Edge_From_Regions(fregs,olde);
+      List_Delete(fregs);
+    }
+
+    if (oldedges)
+      List_Delete(oldedges);
   }
 
 
@@ -144,6 +188,7 @@ extern "C" {
   void MF_Rem_Edge_F2F4(MFace_ptr f, MEdge_ptr remedge) {
     int i, j, ne, eindex, found;
     MFace_Adj_F1F3 *adj;
+    List_ptr fregs;
 
     adj = (MFace_Adj_F1F3 *) f->adj;
     ne = List_Num_Entries(adj->fedges);
@@ -166,11 +211,14 @@ extern "C" {
     }
 
 
+    fregs = MF_Regions(f);
+
     List_Remi(adj->fedges,eindex);
 
     /* Move the remaining bits to the right */
-    int k, dir;
-    for (k = eindex+1; k < ne-1; k++) {
+    int k;
+    unsigned long long dir;
+    for (k = eindex; k < ne-1; k++) {
       /* set bit k to 0 */
       adj->edirs = adj->edirs & ~(1UL<<k);
 
@@ -188,6 +236,10 @@ extern "C" {
 
     ME_Rem_Face(remedge,f);
 
+    if (fregs) {
+      MF_Unlink_Edge_From_Regions(fregs,remedge);
+      List_Delete(fregs);
+    }
   }
 
 
@@ -201,7 +253,9 @@ extern "C" {
     MFace_Adj_F2F4 *adj;
     MEdge_ptr *oldedges, *newedges;
     MVertex_ptr vold_0, vold_1, lastv;
-    int j, k, ne, ncom, dir, *olddirs, *newdirs, rev;
+    int j, k, m, ne, *olddirs, *newdirs, rev;
+    unsigned long long edirs;
+    List_ptr fedges, fregs;
 
     adj = (MFace_Adj_F2F4 *) f->adj;
     ne = List_Num_Entries(adj->fedges);
@@ -229,12 +283,16 @@ extern "C" {
       rev = 0;
     else if (ME_UsesEntity(nuedges[0],vold_1,MVERTEX) && ME_UsesEntity(nuedges[nnu-1],vold_0,MVERTEX))
       rev = 1;
-    else
+    else {
       MSTK_Report("MF_Replace_Edge_i","Mismatched set of edges",MSTK_ERROR);
+      free(oldedges);
+      free(olddirs);
+      return;
+    }
 
 
     newedges = (MEdge_ptr *) malloc(nnu*sizeof(MEdge_ptr));
-    newdirs  = (int *) malloc(nnu*sizeof(MEdge_ptr));
+    newdirs  = (int *) malloc(nnu*sizeof(int));
     lastv = vold_0;
     for (j = 0; j < nnu; j++) {
       k = rev ? nnu-1-j : j;
@@ -249,79 +307,32 @@ extern "C" {
 #endif
     }
 
-    /* Number of common edges */
-
-    ncom = nold < nnu ? nold : nnu;
-
-
-    /* Replace old edges with new ones (up to the common number of edges) */
-
-    for (j = 0; j < ncom; j++) {
-      k = (i+j)%ne; 
-      List_Replacei(adj->fedges,k,newedges[j]);		      
-      adj->edirs = (adj->edirs & ~(1UL<<k)); /* set bit k to 0 */
-      adj->edirs = (adj->edirs | (newdirs[j]<<k)); /* set to dir */
-    }
-
-
-
-    if (nold < nnu) {
-      /* Insert the rest of the nuedges at the right place */
-
-      for (j = ncom; j < nnu; j++) {
-	List_Inserti(adj->fedges,newedges[j],i+j);
-
-      
-	/* Move the direction bits after the (i+ncom)'th bit to the
-	 left by (nnu-ncom) spaces and insert the direction bits for
-	 the rest of the inserted edges */
-
-	
-	for (k = ne-1; k >= i+j; k--) {
-
-	  /* set bit k+1 to 0 */
-	  adj->edirs = adj->edirs & ~(1UL<<(k+1));
-
-	  /* get bit k */
-	  dir = (adj->edirs>>k) & 1UL;
-
-	  /* move bit k to (k+1)'th position */
-	  adj->edirs = adj->edirs | (dir<<(k+1));	
-	}
-
-	/* set bit j according to input */
-	adj->edirs = adj->edirs & ~(1UL<<(i+j)); /* Set bit to 0 */
-	adj->edirs = adj->edirs | (newdirs[j]<<(i+j)); /* set to newdir */
-
-	ne++;
+    /* The new edges take the place of edge 'i' in the edge list of the
+       face; the other old edges, which may wrap around to the beginning
+       of the list, are dropped */
+
+    fedges = List_New(ne-nold+nnu);
+    edirs = 0UL;
+    m = 0;
+    for (k = 0; k < ne; k++) {
+      if (k == i) {
+        for (j = 0; j < nnu; j++) {
+          List_Add(fedges,newedges[j]);
+          edirs |= (unsigned long long) newdirs[j] << m++;
+        }
+      }
+      else if ((k-i+ne)%ne >= nold) {
+        List_Add(fedges,List_Entry(adj->fedges,k));
+        edirs |= ((adj->edirs>>k) & 1UL) << m++;
       }
-
     }
-    else {
-      /* Delete the remaining old edges */
-
-      for (j = ncom; j < nold; j++)
-	List_Rem(adj->fedges,oldedges[j]);
 
-      /* Delete (nold-ncom) direction bits after the (i+ncom)'th bit and
-	 move the remaining bits to the right */
-      
-      for (j = 0; j < nold-ncom; j++) {
-	for (k = (i+ncom+j)%ne; k < ne-1; k++) {
-	  /* set bit k to 0 */
-	  adj->edirs = adj->edirs & ~(1UL<<k);
+    fregs = MF_Regions(f);
 
-	  /* get bit k+1 */
-	  dir = (adj->edirs>>(k+1)) & 1UL;
+    List_Delete(adj->fedges);
+    adj->fedges = fedges;
+    adj->edirs = edirs;
 
-	  /* move bit k+1 to k'th position */
-	  adj->edirs = adj->edirs | (dir<<k);
-	}
-
-	ne--;
-      }
-    }
-      
     /* Update upward adjacencies */
     for (j = 0; j < nold; j++) {
       ME_Rem_Face(oldedges[j],f);
@@ -330,6 +341,13 @@ extern "C" {
       ME_Add_Face(newedges[j],f);
     }
 
+    if (fregs) {
+      for (j = 0; j < nnu; j++)
+        MF_Link_Edge_To_Regions(fregs,newedges[j]);
+      for (j = 0; j < nold; j++)
+        MF_Unlink_Edge_From_Regions(fregs,oldedges[j]);
+      List_Delete(fregs);
+    }
     free(oldedges);
     free(olddirs);
     free(newedges);
@@ -342,7 +360,7 @@ extern "C" {
      consecutive */
 
   void MF_Replace_Edges_F2F4(MFace_ptr f, int nold, MEdge_ptr *oldedges, int nnu, MEdge_ptr *nuedges) {
-    int i, j, ne, found = 0, imin1, istart, *eindex, nxtidx, ipos1;
+    int i, j, ne, found = 0, istart, *eindex;
     MFace_Adj_F2F4 *adj;
     MEdge_ptr fedge;
 
@@ -371,39 +389,23 @@ extern "C" {
       }
     }
 
-    /* Find the lowest index; set it to be the start index for
-       replacing edges */
-
-    imin1 = 10000; ipos1 = -1;
-    for (i = 0; i < nold; i++)
-      if (eindex[i] < imin1) {
-	imin1 = eindex[i];
-	ipos1 = i;
-      }
-    istart = imin1;
-    
-    
-    /* Check if there is a break in the edge indices sorted in
-       ascending order. If there is a break, that means the edges are
-       spanning the start vertex in the face vertex cyle.*/
-	
-    nxtidx = imin1+1;
-    for (i = 1; i < nold; i++) {
-      j = (ipos1+i)%nold;
-
-      if (eindex[j] != nxtidx) {
-	/* There is a break in the edge indices and this is the next
-	   smallest index. Use this as the start index for replacing
-	   the edges */
-
-	istart = eindex[j];
-	break;
+    /* The edges may be listed in the direction of the face or opposite
+       to it and may span the start of the edge list of the face. The
+       first one in the direction of the face is the one whose
+       predecessor is not replaced */
+
+    istart = eindex[0];
+    for (i = 0; i < nold; i++) {
+      found = 0;
+      for (j = 0; j < nold; j++)
+        if (eindex[j] == (eindex[i]+ne-1)%ne)
+          found = 1;
+      if (!found) {
+        istart = eindex[i];
+        break;
       }
-      else
-	nxtidx++;
     }
-      
-	  
+
     MF_Replace_Edges_i_F2F4(f, nold, istart, nnu, nuedges);
 
     free(eindex);
-- 
2.43.0


From 0a041573ce78a41b3b036ea4534f8f344caba36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 35/98] fix: region element type is not settled by face sizes
 alone (pyramid with a split lateral edge is no prism)

---
 src/base/MR_Edge_Funcs_FN.c     |   8 +-
 src/base/MR_Face_Funcs_FNR3R4.c | 131 ++++++++++++++++++--------------
 2 files changed, 79 insertions(+), 60 deletions(-)

diff --git a/src/base/MR_Edge_Funcs_FN.c b/src/base/MR_Edge_Funcs_FN.c
index 987a3b6..654b7e8 100644
--- a/src/base/MR_Edge_Funcs_FN.c
+++ b/src/base/MR_Edge_Funcs_FN.c
@@ -55,7 +55,7 @@ extern "C" {
 	}
       }
       
-      if (alltri) { /* Tet */
+      if (alltri && r->mrtype == TET) {
 	
 	botface = List_Entry(adj->rfaces,0); /* first face */
 	botfdir = adj->fdirs[0] & 1; /* Sense in which face is used in region */
@@ -129,7 +129,7 @@ extern "C" {
 	}
       }
       
-      if (nquads == 3 && ntris == 2) {
+      if (nquads == 3 && ntris == 2 && r->mrtype == PRISM) {
 
 	botfdir = MR_FaceDir_i(r,itri0); /* Sense in which face is used in region */
 	redges = MF_Edges(tri0,!botfdir,0);
@@ -196,7 +196,7 @@ extern "C" {
 	List_Delete(fverts);
 	return redges;
       }
-      else if (nquads == 1 && ntris == 4) {
+      else if (nquads == 1 && ntris == 4 && r->mrtype == PYRAMID) {
 
 	botfdir = MR_FaceDir_i(r,iquad0);  /* Sense in which face is used in region */
 	redges = MF_Edges(quad0,!botfdir,0);
@@ -245,7 +245,7 @@ extern "C" {
 	}
       }
 
-      if (allquad) { /* Hex */
+      if (allquad && r->mrtype == HEX) {
 
 	n = 0;
 	
diff --git a/src/base/MR_Face_Funcs_FNR3R4.c b/src/base/MR_Face_Funcs_FNR3R4.c
index 2c9f052..d221d27 100644
--- a/src/base/MR_Face_Funcs_FNR3R4.c
+++ b/src/base/MR_Face_Funcs_FNR3R4.c
@@ -772,73 +772,92 @@ extern "C" {
   }
 
 
-  void MR_Update_ElementType_FNR3R4(MRegion_ptr r) {
+  /* Number of vertices that two faces have in common */
 
-    int nf;
-    int i;
+  static int MFs_Num_Common_Vertices(MFace_ptr f0, MFace_ptr f1) {
+    int idx = 0, n = 0;
+    MVertex_ptr v;
+    List_ptr fverts0 = MF_Vertices(f0,1,0), fverts1 = MF_Vertices(f1,1,0);
+
+    while ((v = List_Next_Entry(fverts1,&idx)))
+      if (List_Contains(fverts0,v))
+        n++;
+
+    List_Delete(fverts0);
+    List_Delete(fverts1);
+    return n;
+  }
+
+  /* The number of edges of the faces is not enough to tell the type of
+     a region - e.g. a pyramid with a split lateral edge has two
+     triangles and three quads like a prism */
+
+  void MR_Update_ElementType_FNR3R4(MRegion_ptr r) {
+    int i, nf, nv, std, ntris = 0, nquads = 0;
+    MFace_ptr f, tri0 = NULL, quad0 = NULL;
     MRegion_Adj_FN *adj;
 
     adj = (MRegion_Adj_FN *) r->adj;
     nf = List_Num_Entries(adj->rfaces);
 
-    switch (nf) {
-      case 0: case 1: case 2: case 3: 
-        r->mrtype = RUNKNOWN;
-        break;
-      case 4: {
-        int alltri = 1;
-        for (i = 0; i < nf; i++) {
-          if (MF_Num_Vertices(List_Entry(adj->rfaces,i)) != 3) {
-            alltri = 0;
-            break;
-          }
-        }
-        
-        if (alltri) 
-          r->mrtype = TET;
-        else
-          r->mrtype = POLYHED;        
-        break;
+    for (i = 0; i < nf; i++) {
+      f = List_Entry(adj->rfaces,i);
+      nv = MF_Num_Vertices(f);
+      if (nv == 3) {
+        ntris++;
+        if (!tri0) tri0 = f;
       }
-      case 5: {
-        int nquads = 0; 
-        int ntris = 0;
-        
-        for (i = 0; i < nf; i++) {
-          int nv = MF_Num_Vertices(List_Entry(adj->rfaces,i));
-          if (nv == 3)
-            ntris++;
-          else if (nv == 4)
-            nquads++;
-        }
-        
-        if (nquads == 3 && ntris == 2)
-          r->mrtype = PRISM;
-        else if (nquads == 1 && ntris == 4)
-          r->mrtype = PYRAMID;
-        else
-          r->mrtype = POLYHED;        
-        break;
+      else if (nv == 4) {
+        nquads++;
+        if (!quad0) quad0 = f;
       }
-      case 6: {
-        int allquad = 1;
-        for (i = 0; i < nf; i++) {
-          if (MF_Num_Vertices(List_Entry(adj->rfaces,i)) != 4) {
-            allquad = 0;
-            break;
-          }
-        }
-        
-        if (allquad)
-          r->mrtype = HEX;
-        else
-          r->mrtype = POLYHED;        
-        break;
+    }
+
+    std = 1;
+    if (nf < 4)
+      r->mrtype = RUNKNOWN;
+    else if (nf == 4 && ntris == 4)
+      r->mrtype = TET;
+    else if (nf == 5 && nquads == 3 && ntris == 2) {
+
+      /* triangles are disjoint and each quad has an edge of each */
+
+      for (i = 0; i < nf && std; i++) {
+        f = List_Entry(adj->rfaces,i);
+        if (f != tri0)
+          std = (MFs_Num_Common_Vertices(tri0,f) ==
+                 (MF_Num_Vertices(f) == 3 ? 0 : 2));
       }
-      default: 
-        r->mrtype = POLYHED;
+      r->mrtype = std ? PRISM : POLYHED;
     }
+    else if (nf == 5 && nquads == 1 && ntris == 4) {
 
+      /* each triangle has an edge of the quad */
+
+      for (i = 0; i < nf && std; i++) {
+        f = List_Entry(adj->rfaces,i);
+        if (f != quad0)
+          std = (MFs_Num_Common_Vertices(quad0,f) == 2);
+      }
+      r->mrtype = std ? PYRAMID : POLYHED;
+    }
+    else if (nf == 6 && nquads == 6) {
+
+      /* one face is opposite to the first face, all others have one of
+         its edges */
+
+      int nopp = 0;
+      for (i = 1; i < nf && std; i++) {
+        int nc = MFs_Num_Common_Vertices(quad0,List_Entry(adj->rfaces,i));
+        if (nc == 0)
+          nopp++;
+        else
+          std = (nc == 2);
+      }
+      r->mrtype = (std && nopp == 1) ? HEX : POLYHED;
+    }
+    else
+      r->mrtype = POLYHED;
   }
 
 
-- 
2.43.0


From eeaa172112844558ff775138f89ea32ae1306bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 36/98] fix: MR_Set_Faces, MR_Rem_Face and MR_Replace_Face(s)
 lost face directions, region links of faces and edges and the element type

---
 src/base/MR_Face_Funcs_FNR3R4.c | 205 +++++++++++++++++++-------------
 1 file changed, 121 insertions(+), 84 deletions(-)

diff --git a/src/base/MR_Face_Funcs_FNR3R4.c b/src/base/MR_Face_Funcs_FNR3R4.c
index d221d27..420f34c 100644
--- a/src/base/MR_Face_Funcs_FNR3R4.c
+++ b/src/base/MR_Face_Funcs_FNR3R4.c
@@ -68,17 +68,85 @@ extern "C" {
 
 
 
+  /* Set the direction bit of the i'th face without any side effects */
+
+  static void MR_Set_DirBit(MRegion_Adj_FN *adj, int i, int dir) {
+    int j = (int) i/(8*sizeof(unsigned int));
+    int k = i%(8*sizeof(unsigned int));
+
+    adj->fdirs[j] = adj->fdirs[j] & ~(1U<<k);
+    adj->fdirs[j] = adj->fdirs[j] | ((unsigned int) (dir & 1)<<k);
+  }
+
+  /* Upward links to the region from a face just put into its list of
+     faces. In F4 these are from edges (not faces) to regions */
+
+  static void MR_Link_Face(MRegion_ptr r, MFace_ptr f, int dir) {
+    if (MEnt_RepType((MEntity_ptr) r) != F4)
+      MF_Add_Region(f,r,!dir);
+    else {
+      int idx = 0;
+      MEdge_ptr fe;
+      List_ptr fedges = MF_Edges(f,1,0);
+      while ((fe = List_Next_Entry(fedges,&idx)))
+        ME_Add_Region(fe,r);
+      List_Delete(fedges);
+    }
+  }
+
+  /* Undo the upward links of a face just taken out of the list of faces
+     of a region */
+
+  static void MR_Unlink_Face(MRegion_ptr r, MFace_ptr f) {
+    MRegion_Adj_FN *adj = (MRegion_Adj_FN *) r->adj;
+
+    if (MEnt_RepType((MEntity_ptr) r) != F4)
+      MF_Rem_Region(f,r);
+    else {
+      int idx = 0, idx2, used;
+      MEdge_ptr fe;
+      MFace_ptr f2;
+      List_ptr fedges = MF_Edges(f,1,0);
+      while ((fe = List_Next_Entry(fedges,&idx))) {
+        idx2 = 0;
+        used = 0;
+        while (!used && (f2 = List_Next_Entry(adj->rfaces,&idx2)))
+          used = MF_UsesEntity(f2,(MEntity_ptr) fe,MEDGE);
+        if (!used)
+          ME_Rem_Region(fe,r);
+      }
+      List_Delete(fedges);
+    }
+  }
+
+
   void MR_Set_Faces_FNR3R4(MRegion_ptr r, int nf, MFace_ptr *rfaces,int *dirs){
-    int i, j, k;
+    int i, k;
     MRegion_Adj_FN *adj;
 
     if (nf > MAXPF3)
       MSTK_Report("MR_Set_Faces","Region has too many faces",MSTK_ERROR);
 
     adj = (MRegion_Adj_FN *) r->adj;
+
+    /* The region may already have faces */
+
+    if (adj->rfaces) {
+      MFace_ptr oldf;
+      List_ptr oldfaces = adj->rfaces;
+
+      i = 0;
+      adj->rfaces = List_New(nf);
+      while ((oldf = List_Next_Entry(oldfaces,&i)))
+        MR_Unlink_Face(r,oldf);
+      List_Delete(oldfaces);
+      free(adj->fdirs);
+    }
+    else
+      adj->rfaces = List_New(nf);
+
     k = 1 + ((int) nf/(8*sizeof(unsigned int)));
     adj->fdirs = (unsigned int *) calloc(k,sizeof(unsigned int));
-    adj->rfaces = List_New(nf);
 
     for (i = 0; i < nf; i++) {
 
@@ -88,23 +156,9 @@ extern "C" {
 		    "Region and face belong to different meshes",MSTK_FATAL);
 #endif
 
-      j = (int) i/(8*sizeof(unsigned int));
-      k = i%(8*sizeof(unsigned int));
-      adj->fdirs[j] = adj->fdirs[j] | (dirs[i] << k);
-
+      MR_Set_DirBit(adj,i,dirs[i]);
       List_Add(adj->rfaces,rfaces[i]);
-
-      if (MEnt_RepType((MEntity_ptr) r) != F4) 
-	MF_Add_Region(rfaces[i],r,!dirs[i]);
-      else {
-        /* In F4 the upward links are from edges (not faces) to regions */
-        int idx = 0;
-        MEdge_ptr fe;
-        List_ptr fedges = MF_Edges(rfaces[i],1,0);
-        while ((fe = List_Next_Entry(fedges,&idx)))
-          ME_Add_Region(fe,r);
-        List_Delete(fedges);
-      }
+      MR_Link_Face(r,rfaces[i],dirs[i]);
     }
 
     MR_Update_ElementType_FNR3R4(r);
@@ -608,7 +662,7 @@ extern "C" {
 
 
   void MR_Rem_Face_FNR3R4(MRegion_ptr r, MFace_ptr remface) {
-    int i, j, k, j1, k1, nf, findex, dir, found;
+    int i, j, nf, findex, found;
     MRegion_Adj_FN *adj;
 
     adj = (MRegion_Adj_FN *) r->adj;
@@ -632,40 +686,24 @@ extern "C" {
 
     List_Remi(adj->rfaces,findex);
 
-    /* Move the remaining bits to the right */
-    
-    for (i = findex; i < nf-1; i++) {
-
-      j = (int) i/(8*sizeof(unsigned int));
-      k = i%(8*sizeof(unsigned int));
-      
-      adj->fdirs[j] = (adj->fdirs[j] & ~(1<<k)); /* set bit i to 0 */
-      
-      /* get bit for i+1 */
-      j1 = (int) (i+1)/(8*sizeof(unsigned int));
-      k1 = (i+1)%(8*sizeof(unsigned int));
-      
-      dir = (adj->fdirs[j1]>>k1) & 1;
-      
-      /* move bit for i+1 to i */
-      
-      adj->fdirs[j] = (adj->fdirs[j] | (dir<<k)); 
-      
-    }
+    /* Shift the direction bits of the faces after it */
 
-    nf--;
+    for (i = findex; i < nf-1; i++)
+      MR_Set_DirBit(adj,i,MR_FaceDir_i_FNR3R4(r,i+1));
+    MR_Set_DirBit(adj,nf-1,0);
 
-      
     /* Tell face that it is no longer bounding this region */
 
-    MF_Rem_Region(remface,r);
+    MR_Unlink_Face(r,remface);
+
+    MR_Update_ElementType_FNR3R4(r);
 
   }
 
 
   void MR_Replace_Faces_FNR3R4(MRegion_ptr r, int nold, MFace_ptr *oldf, 
                                int nnew, MFace_ptr *nuf, int *nudir) {
-    int i, j, k, nf, jf, kf, ii;
+    int i, nf, jf, kf;
     int nf_final, nint_current, nint_final;
     MRegion_Adj_FN *adj;
     MFace_ptr f;
@@ -698,51 +736,54 @@ extern "C" {
     kf = 0;
     for (jf = 0; jf < nold; jf++) {
       f = oldf[jf];
-      for (i = 0; i < nf; i++) {
-        if (f == (MFace_ptr) List_Entry(adj->rfaces,i)) {
-          if (kf < nnew) { 
-
-            /* if there are new faces remaining to be added replace the 
-               old face with the new face - cheap to do */
-
-            List_Replacei(adj->rfaces,i,nuf[kf]);
-            MR_Set_FaceDir_i(r,i,nudir[kf]);
-
-            MF_Add_Region(nuf[kf],r,!nudir[kf]);
-            kf++;
-          }
-          else {
-
-            /* no more new faces to put in place of old face - just remove
-               it from the list (this shifts all the subsequent faces up)
-               Similarly shift all the face dirs up */
-
-            for (ii = i; ii < nf-1; ii++)
-              if (MR_FaceDir_i(r,ii) != MR_FaceDir_i(r,ii+1))
-                MR_Set_FaceDir_i(r,ii,MR_FaceDir_i(r,ii+1));
-            List_Remi(adj->rfaces,i);
-          }
-          
-          MF_Rem_Region(f,r);
-        }
+      for (i = 0; i < nf; i++)
+        if (f == (MFace_ptr) List_Entry(adj->rfaces,i)) break;
+      if (i == nf) continue;
+
+      if (kf < nnew) {
+
+        /* if there are new faces remaining to be added replace the
+           old face with the new face - cheap to do */
+
+        List_Replacei(adj->rfaces,i,nuf[kf]);
+        MR_Set_DirBit(adj,i,nudir[kf]);
+        kf++;
+      }
+      else {
+
+        /* no more new faces to put in place of old face - just remove
+           it from the list (this shifts all the subsequent faces up)
+           Similarly shift all the face dirs up */
+
+        List_Remi(adj->rfaces,i);
+        for (; i < nf-1; i++)
+          MR_Set_DirBit(adj,i,MR_FaceDir_i_FNR3R4(r,i+1));
+        MR_Set_DirBit(adj,nf-1,0);
+        nf--;
       }
+
+      MR_Unlink_Face(r,f);
     }
 
     /* If there are more new faces than old ones, add the left overs */
-    if (kf < nnew) {
-      for (jf = kf; jf < nnew; jf++) {
-        List_Add(adj->rfaces,nuf[jf]);
-        MR_Set_FaceDir(r,nuf[jf],nudir[jf]);        
-        MF_Add_Region(nuf[jf],r,!nudir[jf]);
-      }
+
+    for (jf = kf; jf < nnew; jf++) {
+      List_Add(adj->rfaces,nuf[jf]);
+      MR_Set_DirBit(adj,nf,nudir[jf]);
+      nf++;
     }
 
+    /* Connect the new faces only after all the old ones have been
+       disconnected as a face may be on both lists */
+
+    for (jf = 0; jf < nnew; jf++)
+      MR_Link_Face(r,nuf[jf],nudir[jf]);
+
     MR_Update_ElementType_FNR3R4(r);
 
   }
 
   void MR_Replace_Face_i_FNR3R4(MRegion_ptr r, int i, MFace_ptr nuf, int nudir) {
-    int j, k;
     MRegion_Adj_FN *adj;
     MFace_ptr f;
 
@@ -758,15 +799,11 @@ extern "C" {
     adj = (MRegion_Adj_FN *) r->adj;
     f = List_Entry(adj->rfaces,i);
 
-    j = (int) i/(8*sizeof(unsigned int));
-    k = i%(8*sizeof(unsigned int));
-    adj->fdirs[j] = (adj->fdirs[j] & ~(1<<k)); /* set bit i to 0 */
-    adj->fdirs[j] = (adj->fdirs[j] | (nudir<<k)); /* set to nudir*/
-
+    MR_Set_DirBit(adj,i,nudir);
     List_Replacei(adj->rfaces,i,nuf);
 
-    MF_Rem_Region(f,r);
-    MF_Add_Region(nuf,r,!nudir);
+    MR_Unlink_Face(r,f);
+    MR_Link_Face(r,nuf,nudir);
 
     MR_Update_ElementType_FNR3R4(r);
   }
-- 
2.43.0


From 6420f69445730ee6def41983938718d2efe0e63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 37/98] fix: deleting an F4 region without faces crashed, and
 its face directions leaked

---
 src/base/MRegion_F4.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/base/MRegion_F4.c b/src/base/MRegion_F4.c
index 7e16fd5..7fafdc9 100644
--- a/src/base/MRegion_F4.c
+++ b/src/base/MRegion_F4.c
@@ -32,7 +32,7 @@ extern "C" {
     adj = (MRegion_Adj_FN *) r->adj;
 
     if (MEnt_Dim((MEntity_ptr) r) != MDELETED) { /* if regn hasnt been temporarily deleted */
-      if (adj) {
+      if (adj && adj->rfaces) {
 	idx = 0;
 	while ((f = List_Next_Entry(adj->rfaces,&idx))) {	  
 	  fedges = MF_Edges(f,1,0);
@@ -48,8 +48,10 @@ extern "C" {
 
     if (!keep) {
       if (adj) {
-	if (adj->rfaces)
+	if (adj->rfaces) {
+	  free(adj->fdirs);
 	  List_Delete(adj->rfaces);
+	}
 	free(adj);
       }
     }
-- 
2.43.0


From 5ce62f42e0e45bd60c83cdd01ca4cbfb586f6735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 38/98] fix: ME_Split_SimplexMesh classifies the new regions,
 faces and edges like the entities they split

---
 src/mod/ME_Split_SimplexMesh.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/mod/ME_Split_SimplexMesh.c b/src/mod/ME_Split_SimplexMesh.c
index 9b0a5dd..0d07341 100644
--- a/src/mod/ME_Split_SimplexMesh.c
+++ b/src/mod/ME_Split_SimplexMesh.c
@@ -14,9 +14,10 @@ https://github.com/MeshToolkit/MSTK/blob/master/LICENSE
 /* Split an edge in a simplex mesh and also subdivide elements (triangles or tetrahedra connected to this edge */
 
 MVertex_ptr ME_Split_SimplexMesh(MEdge_ptr esplit, double *splitxyz) {
-  int i, j, k, rfdir, ntets=0, ntris=0, *fdim, *fid, *rid=NULL, found;
+  int i, j, k, rfdir, ntets=0, ntris=0, *fdim=NULL, *fid=NULL, *rdim=NULL, *rid=NULL, found;
   MVertex_ptr vsplit, ev[2], (*tetverts)[4]=NULL, (*triverts)[3]=NULL, fv;
   MVertex_ptr fvarr[3], rvarr[4];
+  MEdge_ptr e;
   MFace_ptr f;
   MRegion_ptr r;
   List_ptr etets, rfaces, etris, fverts;
@@ -29,12 +30,15 @@ MVertex_ptr ME_Split_SimplexMesh(MEdge_ptr esplit, double *splitxyz) {
   if (etets) {
     ntets = List_Num_Entries(etets);   
     tetverts = (MVertex_ptr (*)[4]) malloc(ntets*sizeof(MVertex_ptr [4]));
+    rdim = (int *) malloc(ntets*sizeof(int));
     rid = (int *) malloc(ntets*sizeof(int));
   }
 
   for (i = 0; i < ntets; i++) {
 
     r = List_Entry(etets,i);
+    rdim[i] = MR_GEntDim(r);
+    rid[i] = MR_GEntID(r);
 
     rfaces = MR_Faces(r);
 
@@ -128,6 +132,15 @@ MVertex_ptr ME_Split_SimplexMesh(MEdge_ptr esplit, double *splitxyz) {
 
   for (i = 0; i < ntris; i++) {
 
+    /* Edge between the two triangles, classified like the triangle it
+       splits */
+
+    e = ME_New(mesh);
+    ME_Set_Vertex(e,0,vsplit);
+    ME_Set_Vertex(e,1,triverts[i][0]);
+    ME_Set_GEntDim(e,fdim[i]);
+    ME_Set_GEntID(e,fid[i]);
+
     /* First triangle */
 
     fvarr[0] = triverts[i][0]; 
@@ -160,6 +173,17 @@ MVertex_ptr ME_Split_SimplexMesh(MEdge_ptr esplit, double *splitxyz) {
      the split faces that are already created */
 
   for (i = 0; i < ntets; i++) {
+    /* Face between the two tets, classified like the tet it splits */
+
+    fvarr[0] = vsplit;
+    fvarr[1] = tetverts[i][1];
+    fvarr[2] = tetverts[i][2];
+
+    f = MF_New(mesh);
+    MF_Set_Vertices(f,3,fvarr);
+    MF_Set_GEntDim(f,rdim[i]);
+    MF_Set_GEntID(f,rid[i]);
+
     rvarr[0] = vsplit;
     rvarr[1] = tetverts[i][2];
     rvarr[2] = tetverts[i][1];
@@ -167,6 +191,7 @@ MVertex_ptr ME_Split_SimplexMesh(MEdge_ptr esplit, double *splitxyz) {
 
     r = MR_New(mesh);
     MR_Set_Vertices(r,4,rvarr,0,NULL);
+    MR_Set_GEntDim(r,rdim[i]);
     MR_Set_GEntID(r,rid[i]);
 
     rvarr[0] = vsplit;
@@ -176,11 +201,13 @@ MVertex_ptr ME_Split_SimplexMesh(MEdge_ptr esplit, double *splitxyz) {
 
     r = MR_New(mesh);
     MR_Set_Vertices(r,4,rvarr,0,NULL);
+    MR_Set_GEntDim(r,rdim[i]);
     MR_Set_GEntID(r,rid[i]);
   }
 
   if (ntets) {
     free(tetverts);
+    free(rdim);
     free(rid);
   }
 
-- 
2.43.0


From 03904ac4dd27e1968b208588f2569cc22897dea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 39/98] fix: MR_Edges and MR_Vertices of prisms and hexes take
 lateral edges of the region only

---
 src/base/MR_Edge_Funcs_FN.c       | 6 ++++--
 src/base/MR_Vertex_Funcs_FNR3R4.c | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/base/MR_Edge_Funcs_FN.c b/src/base/MR_Edge_Funcs_FN.c
index 654b7e8..2a85dee 100644
--- a/src/base/MR_Edge_Funcs_FN.c
+++ b/src/base/MR_Edge_Funcs_FN.c
@@ -149,7 +149,8 @@ extern "C" {
 	for (i = 0; i < 3; i++) {
 	  topvert = List_Entry(fverts,i);
 
-	  if ((latedge = MVs_CommonEdge(botvert,topvert))) {
+	  if ((latedge = MVs_CommonEdge(botvert,topvert)) &&
+	      MR_UsesEntity(r,(MEntity_ptr) latedge,MEDGE)) {
 	    found = 1;
 	    break;
 	  }
@@ -294,7 +295,8 @@ extern "C" {
 	for (i = 0; i < 4; i++) {
 	  topvert = List_Entry(fverts,i);
 
-	  if ((latedge = MVs_CommonEdge(botvert,topvert))) {
+	  if ((latedge = MVs_CommonEdge(botvert,topvert)) &&
+	      MR_UsesEntity(r,(MEntity_ptr) latedge,MEDGE)) {
 	    found = 1;
 	    break;
 	  }
diff --git a/src/base/MR_Vertex_Funcs_FNR3R4.c b/src/base/MR_Vertex_Funcs_FNR3R4.c
index 0cb77cb..669d571 100644
--- a/src/base/MR_Vertex_Funcs_FNR3R4.c
+++ b/src/base/MR_Vertex_Funcs_FNR3R4.c
@@ -89,7 +89,8 @@ extern "C" {
       for (i = 0; i < 3; i++) {
         vert = List_Entry(fverts,i);
         
-        if (MVs_CommonEdge(rv0,vert)) {
+        MEdge_ptr latedge = MVs_CommonEdge(rv0,vert);
+        if (latedge && MR_UsesEntity(r,(MEntity_ptr) latedge,MEDGE)) {
           List_Add(rvertices,vert);
           List_Add(rvertices,List_Entry(fverts,(i+1)%3));
           List_Add(rvertices,List_Entry(fverts,(i+2)%3));
-- 
2.43.0


From e4112a4e01b816ac0adc8c3eb90842e5ad4d1cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 40/98] fix: MF_Split and MF_Split_SimplexMesh classify new
 entities like the entity they split, and MF_Split overran its arrays

---
 src/mod/MF_Split.c             | 24 ++++++++++++++++++++----
 src/mod/MF_Split_SimplexMesh.c | 28 +++++++++++++++++++++++++++-
 2 files changed, 47 insertions(+), 5 deletions(-)

diff --git a/src/mod/MF_Split.c b/src/mod/MF_Split.c
index 69572b7..8a624f0 100644
--- a/src/mod/MF_Split.c
+++ b/src/mod/MF_Split.c
@@ -26,11 +26,11 @@ extern "C" {
 MVertex_ptr MF_Split(MFace_ptr fsplit, double *splitxyz) {
   Mesh_ptr mesh;
   MVertex_ptr vsplit, fv[3];
-  MEdge_ptr enew, *fedges0, *fedges1, fe;
-  MFace_ptr fnew[MAXPV2];
+  MEdge_ptr enew;
+  MFace_ptr *fnew;
   MRegion_ptr fr;
-  int gid, gdim, i, j, idx, nnew;
-  int nfv, fnewdir[MAXPV2], rfdir;
+  int gid, gdim, i, j, nnew;
+  int nfv, *fnewdir, rfdir;
   List_ptr fregs, fverts;
 
   gdim = MF_GEntDim(fsplit);
@@ -56,8 +56,21 @@ MVertex_ptr MF_Split(MFace_ptr fsplit, double *splitxyz) {
   MV_Set_GEntDim(vsplit,gdim);
   MV_Set_GEntID(vsplit,gid);
 
+  /* Create the edges from the splitting vertex, classified like the face */
+
+  for (i = 0; i < nfv; i++) {
+    enew = ME_New(mesh);
+    ME_Set_Vertex(enew,0,vsplit);
+    ME_Set_Vertex(enew,1,List_Entry(fverts,i));
+    ME_Set_GEntDim(enew,gdim);
+    ME_Set_GEntID(enew,gid);
+  }
+
   /* Create the 'nfe' faces */
 
+  fnew = (MFace_ptr *) malloc(nfv*sizeof(MFace_ptr));
+  fnewdir = (int *) malloc(nfv*sizeof(int));
+
   for (i = 0; i < nfv; i++) {
     fv[0] = vsplit;
     fv[1] = List_Entry(fverts,i);
@@ -83,6 +96,9 @@ MVertex_ptr MF_Split(MFace_ptr fsplit, double *splitxyz) {
     List_Delete(fregs);
   }
 
+  free(fnew);
+  free(fnewdir);
+
   MF_Delete(fsplit,0);
 
   return vsplit;
diff --git a/src/mod/MF_Split_SimplexMesh.c b/src/mod/MF_Split_SimplexMesh.c
index bbb6b97..9250fbf 100644
--- a/src/mod/MF_Split_SimplexMesh.c
+++ b/src/mod/MF_Split_SimplexMesh.c
@@ -21,9 +21,10 @@ https://github.com/MeshToolkit/MSTK/blob/master/LICENSE
 
 
 MVertex_ptr MF_Split_SimplexMesh(MFace_ptr fsplit, double *splitxyz) {
-  int i, j, k, rfdir=1, ntets=0, ntris=0, *rid=NULL, fgdim, fgid, found;
+  int i, j, k, rfdir=1, ntets=0, ntris=0, *rdim=NULL, *rid=NULL, fgdim, fgid, found;
   MVertex_ptr vsplit, ev[2], (*tetverts)[4]=NULL, triverts[3], fv;
   MVertex_ptr fvarr[3], rvarr[4];
+  MEdge_ptr e;
   MFace_ptr f;
   MRegion_ptr r;
   List_ptr fedges, ftets, rfaces, fverts;
@@ -35,12 +36,15 @@ MVertex_ptr MF_Split_SimplexMesh(MFace_ptr fsplit, double *splitxyz) {
   if (ftets) {
     ntets = List_Num_Entries(ftets);   
     tetverts = (MVertex_ptr (*)[4]) malloc(ntets*sizeof(MVertex_ptr [4]));
+    rdim = (int *) malloc(ntets*sizeof(int));
     rid = (int *) malloc(ntets*sizeof(int));
   }
 
   for (i = 0; i < ntets; i++) {
 
     r = List_Entry(ftets,i);
+    rdim[i] = MR_GEntDim(r);
+    rid[i] = MR_GEntID(r);
 
     rfaces = MR_Faces(r);
 
@@ -116,6 +120,26 @@ MVertex_ptr MF_Split_SimplexMesh(MFace_ptr fsplit, double *splitxyz) {
   /* Create three tets for each tet that was deleted */
 
   for (i = 0; i < ntets; i++) {
+    /* Edge and faces between the three tets, classified like the tet
+       they split */
+
+    e = ME_New(mesh);
+    ME_Set_Vertex(e,0,vsplit);
+    ME_Set_Vertex(e,1,tetverts[i][3]);
+    ME_Set_GEntDim(e,rdim[i]);
+    ME_Set_GEntID(e,rid[i]);
+
+    for (j = 0; j < 3; j++) {
+      fvarr[0] = vsplit;
+      fvarr[1] = tetverts[i][j];
+      fvarr[2] = tetverts[i][3];
+
+      f = MF_New(mesh);
+      MF_Set_Vertices(f,3,fvarr);
+      MF_Set_GEntDim(f,rdim[i]);
+      MF_Set_GEntID(f,rid[i]);
+    }
+
     for (j = 0; j < 3; j++) {
       r = MR_New(mesh);
       rvarr[0] = vsplit;
@@ -123,12 +147,14 @@ MVertex_ptr MF_Split_SimplexMesh(MFace_ptr fsplit, double *splitxyz) {
       rvarr[2] = tetverts[i][(j+1)%3];
       rvarr[3] = tetverts[i][3];
       MR_Set_Vertices(r, 4, rvarr, 0, NULL);
+      MR_Set_GEntDim(r,rdim[i]);
       MR_Set_GEntID(r,rid[i]);
     }
   }
 
   if (ntets) {
     free(tetverts);
+    free(rdim);
     free(rid);
   }
 
-- 
2.43.0


From b4cff877e9cfb23300982270382b5856b877eaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 41/98] fix: MF_Split_with_Edge did not split along an existing
 edge that is not part of the face

---
 src/mod/MF_Split_with_Edge.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/mod/MF_Split_with_Edge.c b/src/mod/MF_Split_with_Edge.c
index f5497f8..561891a 100644
--- a/src/mod/MF_Split_with_Edge.c
+++ b/src/mod/MF_Split_with_Edge.c
@@ -27,11 +27,13 @@ MEdge_ptr MF_Split_with_Edge(MFace_ptr fsplit, MVertex_ptr v0, MVertex_ptr v1) {
   MFace_ptr fnew[2];
   MRegion_ptr fr;
   int gid, gdim, i, idx, found, done;
-  int nfe, n0, n1, *fedirs, *fedirs0, *fedirs1;;
+  int nfe, n0, n1, *fedirs, *fedirs0, *fedirs1, endir;
   List_ptr fregions, felist;
 
+  /* Nothing to split if the vertices are joined by an edge of the face */
+
   enew = MVs_CommonEdge(v0,v1);
-  if (enew)
+  if (enew && MF_UsesEntity(fsplit,(MEntity_ptr) enew,MEDGE))
     return enew;
 
   gdim = MF_GEntDim(fsplit);
@@ -57,14 +59,16 @@ MEdge_ptr MF_Split_with_Edge(MFace_ptr fsplit, MVertex_ptr v0, MVertex_ptr v1) {
   fedges1 = (MEdge_ptr *) malloc(nfe*sizeof(MEdge_ptr));
   fedirs1 = (int *) malloc(nfe*sizeof(int));
 
-  /* Create the splitting edge */
-
-  enew = ME_New(mesh);
-  ME_Set_Vertex(enew,0,v0);
-  ME_Set_Vertex(enew,1,v1);
-  ME_Set_GEntDim(enew,gdim);
-  ME_Set_GEntID(enew,gid);
+  /* Create the splitting edge unless there is an edge along the split */
 
+  if (!enew) {
+    enew = ME_New(mesh);
+    ME_Set_Vertex(enew,0,v0);
+    ME_Set_Vertex(enew,1,v1);
+    ME_Set_GEntDim(enew,gdim);
+    ME_Set_GEntID(enew,gid);
+  }
+  endir = (ME_Vertex(enew,0) == v0);
 
   /* collect edges and dirs for right face */
   found = 0;
@@ -100,7 +104,7 @@ MEdge_ptr MF_Split_with_Edge(MFace_ptr fsplit, MVertex_ptr v0, MVertex_ptr v1) {
   }
 
   fedges0[n0] = enew;
-  fedirs0[n0] = 0;
+  fedirs0[n0] = !endir;
   n0++;
 
   fnew[0] = MF_New(mesh);
@@ -131,7 +135,7 @@ MEdge_ptr MF_Split_with_Edge(MFace_ptr fsplit, MVertex_ptr v0, MVertex_ptr v1) {
   }
 
   fedges1[n1] = enew;
-  fedirs1[n1] = 1;
+  fedirs1[n1] = endir;
   n1++;
 
   fnew[1] = MF_New(mesh);
@@ -140,6 +144,8 @@ MEdge_ptr MF_Split_with_Edge(MFace_ptr fsplit, MVertex_ptr v0, MVertex_ptr v1) {
   MF_Set_GEntID(fnew[1],gid);
 
 
+  List_Delete(felist);
+  free(fedirs);
   free(fedges0);
   free(fedirs0);
   free(fedges1);
-- 
2.43.0


From 560784346a9ca246f1d535e9c125aed8292ce660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 42/98] fix: MFs_Join compares both classifications, joins
 oppositely oriented faces and refuses faces it cannot join

---
 src/mod/MFs_Join.c | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/mod/MFs_Join.c b/src/mod/MFs_Join.c
index 4de0580..e4244dd 100644
--- a/src/mod/MFs_Join.c
+++ b/src/mod/MFs_Join.c
@@ -12,7 +12,7 @@ https://github.com/MeshToolkit/MSTK/blob/master/LICENSE
 
 
 MFace_ptr MFs_Join(MFace_ptr f0, MFace_ptr f1, MEdge_ptr e) {
-  int i, k0, k1, nfe0, nfe1, *fedir0, *fedir1, *fedir3, gdim, gid;
+  int i, k, k0, k1, rev, ncom, nfe0, nfe1, *fedir0, *fedir1, *fedir3, gdim, gid;
   MEdge_ptr *fe0, *fe1, *fe3;
   MFace_ptr  nuface;
   MRegion_ptr fr00=NULL, fr01=NULL, fr10=NULL, fr11=NULL;
@@ -27,7 +27,7 @@ MFace_ptr MFs_Join(MFace_ptr f0, MFace_ptr f1, MEdge_ptr e) {
     MSTK_Report("MFs_Join","Faces not from same mesh",MSTK_ERROR);
     return 0;
   }
-  else if (gid != MF_GEntID(f0) || gdim != MF_GEntDim(f0)) {
+  else if (gid != MF_GEntID(f1) || gdim != MF_GEntDim(f1)) {
     MSTK_Report("MFs_Join","Faces not from same geometric entity",MSTK_ERROR);
     return 0;
   }
@@ -48,13 +48,33 @@ MFace_ptr MFs_Join(MFace_ptr f0, MFace_ptr f1, MEdge_ptr e) {
     List_Delete(fregs);
   }
 
-  if (fr00 != fr10 || fr01 != fr11) {
+  /* The regions may be listed in a different order for the two faces */
+
+  if (!((fr00 == fr10 && fr01 == fr11) || (fr00 == fr11 && fr01 == fr10))) {
     MSTK_Report("MFs_Join","Faces have incompatible regions connected to them",
                 MSTK_ERROR);
     return 0;
   }
 
 
+  /* The result would not be a simple face or would leave a face
+     without one of its edges */
+
+  fedges = MF_Edges(f0,1,0);
+  nfe0 = List_Num_Entries(fedges);
+  for (i = 0, ncom = 0; i < nfe0; i++)
+    ncom += MF_UsesEntity(f1,List_Entry(fedges,i),MEDGE);
+  List_Delete(fedges);
+  if (ncom > 1) {
+    MSTK_Report("MFs_Join","Faces have more than one edge in common",
+                MSTK_ERROR);
+    return 0;
+  }
+  if (ME_Num_Faces(e) > 2) {
+    MSTK_Report("MFs_Join","Common edge is used by other faces",MSTK_ERROR);
+    return 0;
+  }
+
   nfe0 = MF_Num_Edges(f0);
   nfe1 = MF_Num_Edges(f1);
 
@@ -85,6 +105,9 @@ MFace_ptr MFs_Join(MFace_ptr f0, MFace_ptr f1, MEdge_ptr e) {
 
   if (k0 == -1 || k1 == -1) {
     MSTK_Report("MFs_Join","Cannot find edge in face",MSTK_ERROR);
+    free(fe0); free(fedir0);
+    free(fe1); free(fedir1);
+    free(fe3); free(fedir3);
     return 0;
   }
 
@@ -93,12 +116,16 @@ MFace_ptr MFs_Join(MFace_ptr f0, MFace_ptr f1, MEdge_ptr e) {
     fedir3[i] = fedir0[(k0+1+i)%nfe0];
   }
 
+  /* If both faces use the common edge in the same direction, they are
+     oppositely oriented - go around the second face backwards */
+
+  rev = (fedir0[k0] == fedir1[k1]);
   for (i = 0; i < nfe1-1; i++) {
-    fe3[(nfe0-1)+i] = fe1[(k1+1+i)%nfe1];
-    fedir3[(nfe0-1)+i] = fedir1[(k1+1+i)%nfe1];
+    k = rev ? (k1-1-i+nfe1)%nfe1 : (k1+1+i)%nfe1;
+    fe3[(nfe0-1)+i] = fe1[k];
+    fedir3[(nfe0-1)+i] = rev ? !fedir1[k] : fedir1[k];
   }
 
-  
   nuface = MF_New(mesh);
   MF_Set_Edges(nuface,(nfe0+nfe1-2),fe3,fedir3);
 
-- 
2.43.0


From e936dd0d4341491271b27b2aef21905edb751b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 43/98] fix: MRs_Join refuses regions with several common
 faces, MR_Split_with_EdgeLoop overran its arrays

---
 src/mod/MR_Split_with_EdgeLoop.c | 17 ++++++++++---
 src/mod/MRs_Join.c               | 42 +++++++++++++++++---------------
 2 files changed, 36 insertions(+), 23 deletions(-)

diff --git a/src/mod/MR_Split_with_EdgeLoop.c b/src/mod/MR_Split_with_EdgeLoop.c
index 5bfc6bb..33148ca 100644
--- a/src/mod/MR_Split_with_EdgeLoop.c
+++ b/src/mod/MR_Split_with_EdgeLoop.c
@@ -23,10 +23,10 @@ extern "C" {
 
 MFace_ptr MR_Split_with_EdgeLoop(MRegion_ptr rsplit, int nfe, MEdge_ptr *fedges) {
   Mesh_ptr mesh;
-  int i, j, idx1, idx2, fedirs[MAXPV2], rfdir_adj, curdir, edir, edir_adj;;
-  int gid, mkid, nrf1, nrf2, rfdirs1[MAXPF3], rfdirs2[MAXPF3];
+  int i, j, idx1, idx2, *fedirs, rfdir_adj, curdir, edir, edir_adj;;
+  int gid, nrf1, nrf2, *rfdirs1, *rfdirs2;
   MEdge_ptr fe;
-  MFace_ptr fnew, eface, rfarray1[MAXPF3], rfarray2[MAXPF3], curface;
+  MFace_ptr fnew, eface, *rfarray1, *rfarray2, curface;
   MRegion_ptr rnew[2];
   List_ptr felist, efaces;
 
@@ -48,6 +48,14 @@ MFace_ptr MR_Split_with_EdgeLoop(MRegion_ptr rsplit, int nfe, MEdge_ptr *fedges)
 
   mesh = MR_Mesh(rsplit);
 
+  fedirs = (int *) malloc(nfe*sizeof(int));
+
+  int nrfmax = MR_Num_Faces(rsplit)+1;
+  rfarray1 = (MFace_ptr *) malloc(nrfmax*sizeof(MFace_ptr));
+  rfarray2 = (MFace_ptr *) malloc(nrfmax*sizeof(MFace_ptr));
+  rfdirs1 = (int *) malloc(nrfmax*sizeof(int));
+  rfdirs2 = (int *) malloc(nrfmax*sizeof(int));
+
 
   /* Fix a set of directions for the edges */
 
@@ -218,6 +226,9 @@ MFace_ptr MR_Split_with_EdgeLoop(MRegion_ptr rsplit, int nfe, MEdge_ptr *fedges)
   MR_Set_Faces(rnew[1],nrf2,rfarray2,rfdirs2);
 
   List_Delete(processed_faces);
+  free(fedirs);
+  free(rfarray1); free(rfarray2);
+  free(rfdirs1); free(rfdirs2);
 
   return fnew;
 }
diff --git a/src/mod/MRs_Join.c b/src/mod/MRs_Join.c
index de4bf8b..dd34b9b 100644
--- a/src/mod/MRs_Join.c
+++ b/src/mod/MRs_Join.c
@@ -17,7 +17,7 @@ https://github.com/MeshToolkit/MSTK/blob/master/LICENSE
 
 
 MRegion_ptr MRs_Join(MRegion_ptr r1, MRegion_ptr r2, MFace_ptr f) {
-  int i, j, nrf1, nrf2, gdim, gid, *rfdir2;
+  int i, j, ncom, nrf2, gdim, gid, *rfdir2;
   MFace_ptr *rf2, fcmn=f;
   Mesh_ptr   mesh;
   List_ptr   rfaces2;
@@ -39,27 +39,28 @@ MRegion_ptr MRs_Join(MRegion_ptr r1, MRegion_ptr r2, MFace_ptr f) {
   rfaces2 = MR_Faces(r2);
   nrf2 = List_Num_Entries(rfaces2);
   
-  if (fcmn) {
-    if (!MR_UsesEntity(r1,fcmn,MFACE)) {
-      MSTK_Report("MRs_Join","Cannot find common face in region",MSTK_ERROR);
-      return 0;
-    }
-  }
-  else { /* find the common face */
-
-    List_ptr rfaces1 = MR_Faces(r1);
+  /* Find the common face, if it is not given. Joining across only one
+     of several common faces would leave faces inside the result */
 
-    int idx = 0;
-    MFace_ptr rf;
-    while ((rf = List_Next_Entry(rfaces2,&idx))) {
-      if (List_Contains(rfaces1,rf)) {
-        fcmn = rf;
-        break;
-      }
+  ncom = 0;
+  for (i = 0; i < nrf2; i++) {
+    MFace_ptr rface = List_Entry(rfaces2,i);
+    if (MR_UsesEntity(r1,rface,MFACE)) {
+      ncom++;
+      if (!f)
+        fcmn = rface;
     }
-
-    List_Delete(rfaces1);
-
+  }
+  if (ncom > 1) {
+    MSTK_Report("MRs_Join","Regions have more than one face in common",
+                MSTK_ERROR);
+    List_Delete(rfaces2);
+    return 0;
+  }
+  if (ncom == 0 || !MR_UsesEntity(r1,fcmn,MFACE)) {
+    MSTK_Report("MRs_Join","Cannot find common face in region",MSTK_ERROR);
+    List_Delete(rfaces2);
+    return 0;
   }
 
   rf2 = (MFace_ptr) malloc(nrf2*sizeof(MFace_ptr));
@@ -80,6 +81,7 @@ MRegion_ptr MRs_Join(MRegion_ptr r1, MRegion_ptr r2, MFace_ptr f) {
 
   if (!found) {
     MSTK_Report("MRs_Join","Cannot find common face in region",MSTK_ERROR);
+    free(rf2); free(rfdir2);
     return 0;
   }
 
-- 
2.43.0


From 8d4e7842dd969f1d28110b9c69b69164e9b83233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 44/98] fix: ME_Swap2D keeps the classification and refuses
 swaps it cannot do

---
 src/mod/ME_Swap2D.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/mod/ME_Swap2D.c b/src/mod/ME_Swap2D.c
index a5b1ac7..79dfb05 100644
--- a/src/mod/ME_Swap2D.c
+++ b/src/mod/ME_Swap2D.c
@@ -23,8 +23,7 @@ int ME_Swap2D(MEdge_ptr eswp, MEdge_ptr *enew, MFace_ptr fnew[2]) {
     MSTK_Report("ME_Swap2D","Can swap edges on model faces only",MSTK_ERROR);
     return 0;
   } 
-  /*  gid = ME_GEntID(eswp); */
-  gid = 0;
+  gid = ME_GEntID(eswp);
  
   /* Collect information */
 
@@ -33,14 +32,29 @@ int ME_Swap2D(MEdge_ptr eswp, MEdge_ptr *enew, MFace_ptr fnew[2]) {
   v[1] = ME_Vertex(eswp,1);
 
   efaces = ME_Faces(eswp);
-  nf = List_Num_Entries(efaces);
+  nf = efaces ? List_Num_Entries(efaces) : 0;
 
   if (nf != 2) {
     MSTK_Report("ME_Swap2D","Edge must be connected to exactly two faces for 2D swap",MSTK_ERROR);
-    List_Delete(efaces);
+    if (efaces) List_Delete(efaces);
     return 0;
   }
 
+  for (k = 0; k < nf; k++) {
+    List_ptr fregs = MF_Regions(List_Entry(efaces,k));
+    if (fregs) {
+      MSTK_Report("ME_Swap2D","Cannot swap edge of faces connected to regions",MSTK_ERROR);
+      List_Delete(fregs);
+      List_Delete(efaces);
+      return 0;
+    }
+  }
+
+  if (MF_EdgeDir(List_Entry(efaces,0),eswp) == MF_EdgeDir(List_Entry(efaces,1),eswp)) {
+    MSTK_Report("ME_Swap2D","Cannot swap edge of inconsistently oriented faces",MSTK_ERROR);
+    List_Delete(efaces);
+    return 0;
+  }
 
   k = 0;
   f[0] = List_Entry(efaces,0);
@@ -83,6 +97,10 @@ int ME_Swap2D(MEdge_ptr eswp, MEdge_ptr *enew, MFace_ptr fnew[2]) {
 
   List_Delete(efaces);
 
+  if (v[2] == v[3] || MVs_CommonEdge(v[2],v[3])) {
+    MSTK_Report("ME_Swap2D","Vertices opposite to edge are already connected",MSTK_ERROR);
+    return 0;
+  }
 
   /* Delete old configuration */
 
-- 
2.43.0


From b7158fc8f44ef86c0dbc97dc1218a5e44cf15311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 45/98] fix: MFs_Merge checks every edge and the occupied sides
 before merging, whatever the build type

---
 src/mod/MFs_Merge_FN.c | 77 ++++++++++++++++++------------------------
 1 file changed, 32 insertions(+), 45 deletions(-)

diff --git a/src/mod/MFs_Merge_FN.c b/src/mod/MFs_Merge_FN.c
index 1b58929..584081d 100644
--- a/src/mod/MFs_Merge_FN.c
+++ b/src/mod/MFs_Merge_FN.c
@@ -14,9 +14,8 @@ https://github.com/MeshToolkit/MSTK/blob/master/LICENSE
 /* Replace f2 with f1 in all the regions using f2 and delete f2 */
 
 MFace_ptr MFs_Merge_FN(MFace_ptr f1, MFace_ptr f2, int topoflag) {
-  int i, idx, gdim1, gid1, gdim2, gid2, dir, nfe1, nfe2, nsets;
+  int i, i0, idx, gdim1, gid1, gdim2, gid2, dir, same, nfe1, nfe2, nsets;
   MRegion_ptr reg;
-  MVertex_ptr fv0;
   Mesh_ptr    mesh;
   List_ptr    fregs2, fedges1, fedges2;
   MSet_ptr    mset;
@@ -53,68 +52,56 @@ MFace_ptr MFs_Merge_FN(MFace_ptr f1, MFace_ptr f2, int topoflag) {
   /* check to make sure edges of faces are identical */
 
   fedges1 = MF_Edges(f1,1,0);
-  nfe1 = List_Num_Entries(fedges1);
-  dir = MF_EdgeDir_i(f1,0);
-  fv0 = ME_Vertex(List_Entry(fedges1,0),!dir);
-  
-  fedges2 = MF_Edges(f2,1,fv0);
-  nfe2 = List_Num_Entries(fedges2);
-  
+  fedges2 = MF_Edges(f2,1,0);
+  nfe1 = fedges1 ? List_Num_Entries(fedges1) : 0;
+  nfe2 = fedges2 ? List_Num_Entries(fedges2) : 0;
+
   if (nfe1 != nfe2) {
     MSTK_Report("MFs_Merge",
 		"To-be-merged faces have different number of edges",
 		MSTK_ERROR);
+    if (fedges1) List_Delete(fedges1);
+    if (fedges2) List_Delete(fedges2);
     return 0;
   }
-  
-  
-  if (List_Entry(fedges1,0) == List_Entry(fedges2,0)) {
-    dir = 1;
-
-#ifdef DEBUG  
 
-    /* Full edge-by-edge check */
-
-    for (i = 0; i < nfe1; i++) {
-      if (List_Entry(fedges1,i) != List_Entry(fedges2,i)) {
-	MSTK_Report("MFs_Merge",
-		    "Edges of faces must be merged before merging faces",
-		    MSTK_ERROR);
-	return 0;
+  /* Edge-by-edge check starting from the first edge of face 1 */
+
+  same = 1; dir = 1;
+  if (nfe1) {
+    i0 = List_Locate(fedges2,List_Entry(fedges1,0));
+    if (i0 == -1)
+      same = 0;
+    else {
+      dir = (MF_EdgeDir(f1,List_Entry(fedges1,0)) ==
+             MF_EdgeDir(f2,List_Entry(fedges1,0)));
+      for (i = 1; i < nfe1 && same; i++) {
+        int i2 = dir ? (i0+i)%nfe1 : (i0-i+nfe1)%nfe1;
+        same = (List_Entry(fedges1,i) == List_Entry(fedges2,i2));
       }
     }
-#endif 
-
   }
-  else if (List_Entry(fedges1,0) == List_Entry(fedges2,nfe1-1)) {
-    dir = 0;
-    
-#ifdef DEBUG  
-
-    /* Full edge-by-edge check */
-
-    for (i = 0; i < nfe1; i++) {
-      if (List_Entry(fedges1,i) != List_Entry(fedges2,nfe1-i-1)) {
-	MSTK_Report("MFs_Merge",
-		    "Edges of faces must be merged before merging faces",
-		    MSTK_ERROR);
-	return 0;
-      }
-    }
 
-#endif 
+  if (fedges1) List_Delete(fedges1);
+  if (fedges2) List_Delete(fedges2);
 
-  }
-  else {
+  if (!same) {
     MSTK_Report("MFs_Merge",
 		"Edges of faces must be merged before merging faces",
 		MSTK_ERROR);
     return 0;
   }
 
-  List_Delete(fedges1);
-  List_Delete(fedges2);
+  /* A face can have only one region on each side */
 
+  for (i = 0; i < 2; i++) {
+    if (MF_Region(f2,i) && MF_Region(f1,(dir ? i : !i))) {
+      MSTK_Report("MFs_Merge",
+		  "Faces have regions on the same side - Cannot merge",
+		  MSTK_ERROR);
+      return 0;
+    }
+  }
 
 
   /* Replace f2 with f1 in all regions connected to f2 */
-- 
2.43.0


From 15525adeb5ec745ec0f3b62fd663417a89f547c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:19 +0000
Subject: [PATCH 46/98] fix: ME_Collapse keeps the vertex asked for, refuses
 every merge against the classification beforehand and handles edges without
 faces

---
 src/mod/ME_Collapse.c | 170 ++++++++++++++++++++++++++++--------------
 1 file changed, 115 insertions(+), 55 deletions(-)

diff --git a/src/mod/ME_Collapse.c b/src/mod/ME_Collapse.c
index d5f0277..32c0bc6 100644
--- a/src/mod/ME_Collapse.c
+++ b/src/mod/ME_Collapse.c
@@ -44,6 +44,9 @@ https://github.com/MeshToolkit/MSTK/blob/master/LICENSE
 /* DOES NOT ACTUALLY DELETE THEM. IF YOU WANT THEM REALLY DELETED, YOU  */
 /* CALL THE MEnt_Delete(entity, 0) ROUTINE ON THEM                      */
 
+static int pvtCollapse_Respects_Topology(MEdge_ptr e, MVertex_ptr vdel,
+                                         MVertex_ptr vkeep);
+
 MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
                         List_ptr *deleted_entities,
                         List_ptr *merged_entity_pairs) {
@@ -79,12 +82,13 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
         status = 0;                 /* cannot allow since it will cause 
                                        a dimensional reduction in mesh */
       else {
-        /* No restriction because of topology - pick the one with the
-         * lower global ID to delete - important for parallel
-         * operation consistency */
+        /* No restriction because of topology - unless the caller
+         * asked for a particular vertex to be kept, keep the one with
+         * the lower global ID - important for parallel operation
+         * consistency */
         int vdel_gid = MV_GlobalID(vdel);
         int vkeep_gid = MV_GlobalID(vkeep);
-        if (vdel_gid < vkeep_gid) {
+        if (vkeep_in == NULL && vdel_gid < vkeep_gid) {
           MVertex_ptr vtemp = vdel;
           vdel = vkeep;
           vkeep = vtemp;
@@ -124,8 +128,8 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
     idx1 = 0;
     while ((edge = (MEdge_ptr) List_Next_Entry(vedges,&idx1))) {
       List_ptr efaces = ME_Faces(edge);
-      int nef = List_Num_Entries(efaces);
-      List_Delete(efaces);
+      int nef = efaces ? List_Num_Entries(efaces) : 0;
+      if (efaces) List_Delete(efaces);
       if (nef < 2) {
         vdel_external = 1;
         break;
@@ -141,18 +145,18 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
       vfaces = MV_Faces(vdel);
 
       idx1 = 0;
-      while ((face = (MFace_ptr) List_Next_Entry(vfaces,&idx1))) {
+      while (vfaces && (face = (MFace_ptr) List_Next_Entry(vfaces,&idx1))) {
         List_ptr fregs = MF_Regions(face);
         int nfr = fregs ? List_Num_Entries(fregs) : 0;
         if (fregs) List_Delete(fregs);
 
         if (nfr == 1) {
-          vdel_external = 0;
+          vdel_external = 1;
           break;
         }
       }
 
-      List_Delete(vfaces);
+      if (vfaces) List_Delete(vfaces);
     }
 
     if (vdel_external) {
@@ -169,6 +173,11 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
   }
 
 
+  /* Edges and faces that become coincident must be allowed to merge too */
+
+  if (status && topoflag == 1)
+    status = pvtCollapse_Respects_Topology(e,vdel,vkeep);
+
   if (status == 0)
     return NULL;   /* Cannot collapse due to constraints of topological
 		   conformity with geometric model */
@@ -397,12 +406,12 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
              edge */
           
           efaces = ME_Faces(edge);
-          int nef = List_Num_Entries(efaces);
+          int nef = efaces ? List_Num_Entries(efaces) : 0;
           if (nef == 1) {
             edge_on_boundary = 1;
           } else {
             idx3 = 0;
-            while ((face = List_Next_Entry(efaces,&idx3))) {
+            while (efaces && (face = List_Next_Entry(efaces,&idx3))) {
               List_ptr fregs = MF_Regions(face);
               if (fregs) {
                 int nfr = List_Num_Entries(fregs);
@@ -415,7 +424,7 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
               if (edge_on_boundary) break;
             }
           }
-          List_Delete(efaces);
+          if (efaces) List_Delete(efaces);
         }
     
         edge2_on_boundary = 0;
@@ -429,12 +438,12 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
              boundary of a ghost layer can mimic an external edge */
           
           efaces = ME_Faces(edge2);
-          int nef = List_Num_Entries(efaces);
+          int nef = efaces ? List_Num_Entries(efaces) : 0;
           if (nef == 1) {
             edge2_on_boundary = 1;
           } else {
             idx3 = 0;
-            while ((face = List_Next_Entry(efaces,&idx3))) {
+            while (efaces && (face = List_Next_Entry(efaces,&idx3))) {
               List_ptr fregs = MF_Regions(face);
               if (fregs) {
                 int nfr = List_Num_Entries(fregs);
@@ -447,10 +456,15 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
               if (edge2_on_boundary) break;
             }
           }
-          List_Delete(efaces);
+          if (efaces) List_Delete(efaces);
         }
     
-        if (edge_on_boundary == edge2_on_boundary) {
+        int merge_edge2;
+        if (topoflag == 1 && ME_GEntDim(edge) != ME_GEntDim(edge2)) {
+          /* The edge on the lower dimensional model entity survives */
+
+          merge_edge2 = (ME_GEntDim(edge) < ME_GEntDim(edge2));
+        } else if (edge_on_boundary == edge2_on_boundary) {
           /* if both edges are boundary edges or both are interior, then we
              don't have to worry about topological consistency of the
              mesh with the model which way we merge. In that case,
@@ -458,26 +472,20 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
              with the lower global ID - this preserves parallel
              consistency; if not, continue on and 'edge' will get
              merged onto 'edge2' when we are processing 'edge2' in the
-             outer loop */
-
-          int egid = ME_GlobalID(edge);
-          int egid2 = ME_GlobalID(edge2);
-          if (egid <= egid2) {  /* Want this to work even when egid,egid2 = 0 */
-            MEs_Merge(edge,edge2,topoflag);	
-            List_Rem(vedges,edge2);	
-            List_Add(*deleted_entities,edge2);
-            List_Add(*merged_entity_pairs, edge2);
-            List_Add(*merged_entity_pairs, edge);
-            break;
-          }
-        } else if (edge_on_boundary) {
-          /* 'edge' is external while 'edge2' is not; merge 'edge2'
+             outer loop. Want this to work even when both IDs are 0 */
+
+          merge_edge2 = (ME_GlobalID(edge) <= ME_GlobalID(edge2));
+        } else {
+          /* if 'edge' is external while 'edge2' is not; merge 'edge2'
            * onto 'edge' regardless of global IDs because boundary
            * entities may be in boundary sets for boundary
            * conditions. Any other processor encountering these two
            * edges will make the same decision */
 
-          MEs_Merge(edge,edge2,topoflag);	
+          merge_edge2 = edge_on_boundary;
+        }
+
+        if (merge_edge2 && MEs_Merge(edge,edge2,topoflag)) {
           List_Rem(vedges,edge2);	
           List_Add(*deleted_entities,edge2);
           List_Add(*merged_entity_pairs, edge2);
@@ -542,33 +550,30 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
           int face2_on_boundary = ((MF_PType(face2) != PGHOST) && !fregs2) ? 1 : 0;
           if (fregs2) List_Delete(fregs2);
 
-          if (face_on_boundary == face2_on_boundary) {
-          /* if both faces are boundary faces or both are interior, then we
-             don't have to worry about topological consistency of the
-             mesh with the model which way we merge. In that case,
-             merge 'face2' onto 'face' only if 'face' has the lower
-             with the lower global ID - this preserves parallel
-             consistency; if not, continue on and 'face' will get
-             merged onto 'face2' when we are processing 'face2' in the
-             outer loop */
-
-            int fgid = MF_GlobalID(face);
-            int fgid2 = MF_GlobalID(face2);
-            if (fgid <= fgid2) {  /* Want this to work when fgid, fgid2 = 0 */
-              MFs_Merge(face,face2,topoflag);	
-              List_Rem(vfaces,face2);
-              List_Add(*deleted_entities,face2);
-              List_Add(*merged_entity_pairs, face2);
-              List_Add(*merged_entity_pairs, face);
-              break;
-            }
-          } else if (face_on_boundary) {
-            MFs_Merge(face,face2,topoflag);	
+          int merge_face2;
+          if (topoflag == 1 && MF_GEntDim(face) != MF_GEntDim(face2)) {
+            /* The face on the lower dimensional model entity survives */
+
+            merge_face2 = (MF_GEntDim(face) < MF_GEntDim(face2));
+          } else if (face_on_boundary == face2_on_boundary) {
+            /* if both faces are boundary faces or both are interior, then we
+               don't have to worry about topological consistency of the
+               mesh with the model which way we merge. In that case,
+               merge 'face2' onto 'face' only if 'face' has the lower
+               with the lower global ID - this preserves parallel
+               consistency; if not, continue on and 'face' will get
+               merged onto 'face2' when we are processing 'face2' in the
+               outer loop. Want this to work when both IDs are 0 */
+
+            merge_face2 = (MF_GlobalID(face) <= MF_GlobalID(face2));
+          } else
+            merge_face2 = face_on_boundary;
+
+          if (merge_face2 && MFs_Merge(face,face2,topoflag)) {
             List_Rem(vfaces,face2);
             List_Add(*deleted_entities,face2);
             List_Add(*merged_entity_pairs, face2);
             List_Add(*merged_entity_pairs, face);
-            break;
           }
         }
 	
@@ -600,4 +605,59 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
 
   return vkeep;
 }
-  
+
+
+/* Check if every pair of edges and every pair of faces that become
+   coincident when 'e' is collapsed from 'vdel' to 'vkeep' can be merged
+   without violating topological conformity with the geometric model */
+
+static int pvtCollapse_Respects_Topology(MEdge_ptr e, MVertex_ptr vdel,
+                                         MVertex_ptr vkeep) {
+  int idx1, idx2, idx3, status = 1;
+  MVertex_ptr vert;
+  MEdge_ptr edge, edge2;
+  MFace_ptr face, face2;
+  List_ptr vedges, vfaces, vfaces2, fverts, fverts2;
+
+  vedges = MV_Edges(vdel);
+  idx1 = 0;
+  while (status && (edge = List_Next_Entry(vedges,&idx1))) {
+    if (edge == e) continue;
+    edge2 = MVs_CommonEdge(vkeep,ME_OppVertex(edge,vdel));
+    if (edge2 && ME_GEntDim(edge) == ME_GEntDim(edge2) &&
+        ME_GEntID(edge) != ME_GEntID(edge2))
+      status = 0;
+  }
+  List_Delete(vedges);
+
+  vfaces = MV_Faces(vdel);
+  vfaces2 = MV_Faces(vkeep);
+  idx1 = 0;
+  while (status && vfaces && vfaces2 &&
+         (face = List_Next_Entry(vfaces,&idx1))) {
+    fverts = MF_Vertices(face,1,0);
+    int n = List_Num_Entries(fverts) - List_Contains(fverts,vkeep);
+
+    idx2 = 0;
+    while (n > 2 && status && (face2 = List_Next_Entry(vfaces2,&idx2))) {
+      if (face2 == face || MF_GEntDim(face) != MF_GEntDim(face2) ||
+          MF_GEntID(face) == MF_GEntID(face2))
+        continue;
+
+      fverts2 = MF_Vertices(face2,1,0);
+      int coincident =
+          (List_Num_Entries(fverts2) - List_Contains(fverts2,vdel) == n);
+      idx3 = 0;
+      while (coincident && (vert = List_Next_Entry(fverts2,&idx3)))
+        coincident = (vert == vdel || vert == vkeep ||
+                      List_Contains(fverts,vert));
+      if (coincident) status = 0;
+      List_Delete(fverts2);
+    }
+    List_Delete(fverts);
+  }
+  if (vfaces) List_Delete(vfaces);
+  if (vfaces2) List_Delete(vfaces2);
+
+  return status;
+}
-- 
2.43.0


From 2a5bfd0f325beaf05d633dc54e4151ccb2951d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:02 +0000
Subject: [PATCH 47/98] fix: MESH_CopySet dereferenced a null list for set
 entries that belong to no element

---
 src/par/MESH_CopySet.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/par/MESH_CopySet.c b/src/par/MESH_CopySet.c
index 55e127f..913e7b7 100644
--- a/src/par/MESH_CopySet.c
+++ b/src/par/MESH_CopySet.c
@@ -54,6 +54,7 @@ extern "C" {
   idx = 0;
   while ((gment = MSet_Next_Entry(gmset,&idx))) {
     MEnt_Get_AttVal(gment,g2latt,0,0,&lmentlist);
+    if (!lmentlist) continue; /* not part of any element */
     
     idx2 = 0;
     while ((lment = List_Next_Entry(lmentlist,&idx2))) {
-- 
2.43.0


From 5177f4eea3686f4b3b4ee9cf876fc71d29097104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:17 +0000
Subject: [PATCH 48/98] fix: vector attributes were lost or crashed when a mesh
 is partitioned (null values, one component)

---
 src/par/MESH_CopyAttr.c  | 16 ++++++++--------
 src/par/MESH_Partition.c |  5 +----
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/par/MESH_CopyAttr.c b/src/par/MESH_CopyAttr.c
index 4504c22..670cc98 100644
--- a/src/par/MESH_CopyAttr.c
+++ b/src/par/MESH_CopyAttr.c
@@ -89,7 +89,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       if ((atttype == INT && ival == 0) || 
           (atttype == DOUBLE  && rval == 0.0) ||
-          (atttype == POINTER && pval == NULL))
+          (atttype != INT && atttype != DOUBLE && pval == NULL))
         continue;
 
       int dummy_ival;
@@ -99,7 +99,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lmv = List_Next_Entry(lmvlist,&idx2))) {
-        if (ncomp > 1) {
+        if (atttype == VECTOR || atttype == TENSOR) {
           pval_arr = (void *)malloc(ncomp*sizeof(double));
           memcpy(pval_arr,pval,ncomp*sizeof(double));
         }
@@ -129,7 +129,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       if ((atttype == INT && ival == 0) || 
           (atttype == DOUBLE  && rval == 0.0) ||
-          (atttype == POINTER && pval == NULL))
+          (atttype != INT && atttype != DOUBLE && pval == NULL))
         continue;
 
       int dummy_ival;
@@ -139,7 +139,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lme = List_Next_Entry(lmelist,&idx2))) {
-        if (ncomp > 1) {
+        if (atttype == VECTOR || atttype == TENSOR) {
           pval_arr = (void *)malloc(ncomp*sizeof(double));
           memcpy(pval_arr,pval,ncomp*sizeof(double));
         }
@@ -169,7 +169,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       if ((atttype == INT && ival == 0) || 
           (atttype == DOUBLE  && rval == 0.0) ||
-          (atttype == POINTER && pval == NULL))
+          (atttype != INT && atttype != DOUBLE && pval == NULL))
         continue;
 
       int dummy_ival;
@@ -179,7 +179,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lmf = List_Next_Entry(lmflist,&idx2))) {
-        if (ncomp > 1) {
+        if (atttype == VECTOR || atttype == TENSOR) {
           pval_arr = (void *)malloc(ncomp*sizeof(double));
           memcpy(pval_arr,pval,ncomp*sizeof(double));
         }
@@ -210,7 +210,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       if ((atttype == INT && ival == 0) || 
           (atttype == DOUBLE  && rval == 0.0) ||
-          (atttype == POINTER && pval == NULL))
+          (atttype != INT && atttype != DOUBLE && pval == NULL))
         continue;
 
       int dummy_ival;
@@ -220,7 +220,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lmr = List_Next_Entry(lmrlist,&idx2))) {
-        if (ncomp > 1) {
+        if (atttype == VECTOR || atttype == TENSOR) {
           pval_arr = (void *)malloc(ncomp*sizeof(double));
           memcpy(pval_arr,pval,ncomp*sizeof(double));
         }
diff --git a/src/par/MESH_Partition.c b/src/par/MESH_Partition.c
index 38c418b..eb63087 100644
--- a/src/par/MESH_Partition.c
+++ b/src/par/MESH_Partition.c
@@ -106,10 +106,7 @@ extern "C" {
       ncomp = MAttrib_Get_NumComps(attrib);
       mtype = MAttrib_Get_EntDim(attrib);
       for (i = 0; i < num; i++) {
-	if (ncomp == 1)
-	  attrib =  MAttrib_New(submeshes[i], attname, att_type, mtype);
-	else
-	  attrib =  MAttrib_New(submeshes[i], attname, att_type, mtype, ncomp);
+	attrib =  MAttrib_New(submeshes[i], attname, att_type, mtype, ncomp);
       }
     }
 
-- 
2.43.0


From f2483286696fab3d997a783d8c40cc66a1725404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:17 +0000
Subject: [PATCH 49/98] fix: MESH_Partition took owners left by an earlier
 partitioning as already set

---
 src/par/MESH_Partition.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/par/MESH_Partition.c b/src/par/MESH_Partition.c
index eb63087..5def65e 100644
--- a/src/par/MESH_Partition.c
+++ b/src/par/MESH_Partition.c
@@ -81,6 +81,19 @@ extern "C" {
       exit(-1);
     }
 
+    /* A master partition ID of 0 means "not set" while partitioning.
+       Clear what an earlier distribution of this mesh left behind */
+
+    idx = 0;
+    while ((gmv = MESH_Next_Vertex(mesh,&idx)))
+      MV_Set_MasterParID(gmv,0);
+    idx = 0;
+    while ((gme = MESH_Next_Edge(mesh,&idx)))
+      ME_Set_MasterParID(gme,0);
+    idx = 0;
+    while ((gmf = MESH_Next_Face(mesh,&idx)))
+      MF_Set_MasterParID(gmf,0);
+
     if (nr) {
       ok = MESH_Vol_Partition(mesh,num,part,submeshes);
     }
-- 
2.43.0


From 359d0b9ed1fb319aaa764c3a9576357fdbfffb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:17 +0000
Subject: [PATCH 50/98] fix: MESH_AddGhost kept temporary vertex attributes of
 surface meshes on the wrong mesh

---
 src/par/MESH_AddGhost.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/par/MESH_AddGhost.c b/src/par/MESH_AddGhost.c
index 9bc3a74..a9c3ff7 100644
--- a/src/par/MESH_AddGhost.c
+++ b/src/par/MESH_AddGhost.c
@@ -161,8 +161,8 @@ int MESH_Surf_AddGhost_FN(Mesh_ptr mesh, Mesh_ptr submesh, int part_no, int ring
 #ifdef MSTK_USE_MARKERS
   int mkvid = MSTK_GetMarker();
 #else
-  MAttrib_ptr lvidatt = MAttrib_New(mesh, "temp_lv_id", INT, MVERTEX);
-  MAttrib_ptr gvidatt = MAttrib_New(submesh, "temp_gv_id", INT, MVERTEX);
+  MAttrib_ptr lvidatt = MAttrib_New(submesh, "temp_lv_id", INT, MVERTEX);
+  MAttrib_ptr gvidatt = MAttrib_New(mesh, "temp_gv_id", INT, MVERTEX);
 #endif
 
   bverts = List_New(10);
-- 
2.43.0


From a278f9d78cc7fb51b3d3ba6fadf9e439d04d1b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:17 +0000
Subject: [PATCH 51/98] fix: MESH_PartitionWithMetis overflowed its graph on
 surfaces with edges of many faces

---
 src/par/MESH_PartitionWithMetis.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/par/MESH_PartitionWithMetis.c b/src/par/MESH_PartitionWithMetis.c
index 0c87112..1b574b9 100644
--- a/src/par/MESH_PartitionWithMetis.c
+++ b/src/par/MESH_PartitionWithMetis.c
@@ -54,8 +54,19 @@ int MESH_PartitionWithMetis(Mesh_ptr mesh, int nparts, int **part) {
       exit(-1);
     }
 
+    /* An edge may have more than two faces, so count the neighbor pairs */
+
+    int nadj = 0;
+    idx = 0;
+    while ((fedge = MESH_Next_Edge(mesh,&idx))) {
+      efaces = ME_Faces(fedge);
+      nef = efaces ? List_Num_Entries(efaces) : 0;
+      nadj += nef*(nef-1);
+      if (efaces) List_Delete(efaces);
+    }
+
     xadj = (idx_t *) malloc((nf+1)*sizeof(idx_t));
-    adjncy = (idx_t *) malloc(2*ne*sizeof(idx_t));
+    adjncy = (idx_t *) malloc((nadj+1)*sizeof(idx_t));
     ncells = nf;
 
     /* Surface mesh */
@@ -74,6 +85,7 @@ int MESH_PartitionWithMetis(Mesh_ptr mesh, int nparts, int **part) {
 	nef = List_Num_Entries(efaces);
 	
 	if (nef == 1) {
+	  List_Delete(efaces);
 	  continue;          /* boundary edge; nothing to do */
 	}
 	else {
-- 
2.43.0


From a7acec9a8dc47470eec28c285a9eaab688fba190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:17 +0000
Subject: [PATCH 52/98] fix: MESH_PartitionWithZoltan made every surface face
 its own neighbor in the graph

---
 src/par/MESH_PartitionWithZoltan.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/par/MESH_PartitionWithZoltan.c b/src/par/MESH_PartitionWithZoltan.c
index 8d2f8e0..839bb1d 100644
--- a/src/par/MESH_PartitionWithZoltan.c
+++ b/src/par/MESH_PartitionWithZoltan.c
@@ -262,8 +262,19 @@ int NDIM_4_ZOLTAN = 3;
 
         graph.nodeGID = (ZOLTAN_ID_TYPE *)malloc(sizeof(ZOLTAN_ID_TYPE) * nf);
         graph.nborIndex = (int *)malloc(sizeof(int) * (nf + 1));
-        graph.nborGID = (ZOLTAN_ID_TYPE *)malloc(sizeof(ZOLTAN_ID_TYPE) * 2*ne);
-        graph.nborProc = (int *)malloc(sizeof(int) * 2*ne);
+
+        /* An edge may have more than two faces, so count the neighbor pairs */
+
+        int nadj = 0;
+        idx = 0;
+        while ((fedge = MESH_Next_Edge(mesh,&idx))) {
+          efaces = ME_Faces(fedge);
+          nef = efaces ? List_Num_Entries(efaces) : 0;
+          nadj += nef*(nef-1);
+          if (efaces) List_Delete(efaces);
+        }
+        graph.nborGID = (ZOLTAN_ID_TYPE *)malloc(sizeof(ZOLTAN_ID_TYPE) * (nadj+1));
+        graph.nborProc = (int *)malloc(sizeof(int) * (nadj+1));
       
         graph.nborIndex[0] = 0;
       
@@ -281,12 +292,13 @@ int NDIM_4_ZOLTAN = 3;
             nef = List_Num_Entries(efaces);
 	  
             if (nef == 1) {
+              List_Delete(efaces);
               continue;          /* boundary edge; nothing to do */
             } else {
               int j;
               for (j = 0; j < nef; j++) {
                 oppf = List_Entry(efaces,j);
-                if (oppf == mf) {
+                if (oppf != mf) {
                   graph.nborGID[ipos] = MF_ID(oppf);
                   /* initially set all nodes on processor 0 */
                   graph.nborProc[ipos] = 0;
-- 
2.43.0


From f58c7a05b4834ecf7caaabe3c4310ecad2cb58db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:45 +0000
Subject: [PATCH 53/98] fix: sending vector attributes dereferenced unset
 values and sent only one value of one-component vectors

---
 src/par/MESH_Recv_Attribute.c         | 12 +++++-------
 src/par/MESH_Recv_AttributeMetaData.c |  5 +----
 src/par/MESH_Send_Attribute.c         | 12 +++++-------
 3 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/par/MESH_Recv_Attribute.c b/src/par/MESH_Recv_Attribute.c
index bd432ea..3a7204d 100644
--- a/src/par/MESH_Recv_Attribute.c
+++ b/src/par/MESH_Recv_Attribute.c
@@ -134,12 +134,10 @@ extern "C" {
       if (rval != 0.0) nullval = 0;
     }
     else {
-      if (ncomp > 1) {
-        nullval = 0;  /* always add vectors */
-        rval_arr = (double *) malloc(ncomp*sizeof(double));
-        for(k = 0; k < ncomp; k++)
-          rval_arr[k] = list_value_double[j*ncomp+k];
-      }
+      nullval = 0;  /* always add vectors */
+      rval_arr = (double *) malloc(ncomp*sizeof(double));
+      for(k = 0; k < ncomp; k++)
+        rval_arr[k] = list_value_double[j*ncomp+k];
     }
     if (nullval) continue; /* Don't waste time initializing to zero */
 
@@ -149,7 +147,7 @@ extern "C" {
    free(list_info);
    if (att_type == INT) 
      free(list_value_int);
-   else if (att_type == DOUBLE)
+   else
      free(list_value_double);
 
   return 1;
diff --git a/src/par/MESH_Recv_AttributeMetaData.c b/src/par/MESH_Recv_AttributeMetaData.c
index 36054a3..8e631f6 100644
--- a/src/par/MESH_Recv_AttributeMetaData.c
+++ b/src/par/MESH_Recv_AttributeMetaData.c
@@ -81,10 +81,7 @@ extern "C" {
       att_type = list_attr_info[i] & 7;
       mtype = (list_attr_info[i] >> 3) & 7;
       ncomp = list_attr_info[i] >> 6;
-      if(ncomp == 1)
-        attrib =  MAttrib_New(mesh, attname, att_type, mtype);
-      else
-        attrib =  MAttrib_New(mesh, attname, att_type, mtype, ncomp);
+      attrib =  MAttrib_New(mesh, attname, att_type, mtype, ncomp);
     }
     
     if (natt) {
diff --git a/src/par/MESH_Send_Attribute.c b/src/par/MESH_Send_Attribute.c
index e45d1ae..b0957a3 100644
--- a/src/par/MESH_Send_Attribute.c
+++ b/src/par/MESH_Send_Attribute.c
@@ -124,14 +124,12 @@ extern "C" {
       list_info[j] = MEnt_GlobalID(ment);
       if (att_type == INT)
         list_value_int[j] = ival;
+      else if (att_type == DOUBLE)
+        list_value_double[j] = rval;
       else {
-        if(ncomp == 1)
-          list_value_double[j] = rval;
-        if(ncomp > 1) {
-          rval_arr = (double *)pval;
-          for(k = 0; k < ncomp; k++)
-            list_value_double[ncomp*j+k] = rval_arr[k];
-        }
+        rval_arr = (double *)pval;   /* NULL if no value was set */
+        for(k = 0; k < ncomp; k++)
+          list_value_double[ncomp*j+k] = rval_arr ? rval_arr[k] : 0.0;
       }
     }
   
-- 
2.43.0


From 68fd39788dd5d7be044de1a7f72aebdf9db24e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:45 +0000
Subject: [PATCH 54/98] fix: MESH_Send_MSet freed a buffer still being sent
 when the set was empty

---
 src/par/MESH_Send_MSet.c | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/par/MESH_Send_MSet.c b/src/par/MESH_Send_MSet.c
index c71f639..f2ce827 100644
--- a/src/par/MESH_Send_MSet.c
+++ b/src/par/MESH_Send_MSet.c
@@ -58,10 +58,21 @@ extern "C" {
     (*requests)[*numreq] = mpirequest;
     (*numreq)++;
 
-    if (!nent) {
-      free(list_info);
-      return 1;
+    /* track the buffers used for sending */
+
+    if (*maxptrs2free == 0) {
+      *maxptrs2free = 25;
+      *ptrs2free = (void **) malloc(*maxptrs2free*sizeof(void *));
+      *numptrs2free = 0;
     }
+    else if (*maxptrs2free < (*numptrs2free) + 2) {
+      *maxptrs2free = 2*(*maxptrs2free) + 2 ;
+      *ptrs2free = (void **) realloc(*ptrs2free,(*maxptrs2free)*sizeof(void *));
+    }
+
+    (*ptrs2free)[(*numptrs2free)++] = list_info;
+
+    if (!nent) return 1;
 
     /* attribute index and global id */ 
     num = 2*nent;
@@ -79,19 +90,6 @@ extern "C" {
     (*requests)[*numreq] = mpirequest;
     (*numreq)++;
 
-    /* track the buffers used for sending */
-
-    if (*maxptrs2free == 0) {
-      *maxptrs2free = 25;
-      *ptrs2free = (void **) malloc(*maxptrs2free*sizeof(void *));
-      *numptrs2free = 0;
-    }
-    else if (*maxptrs2free < (*numptrs2free) + 2) {
-      *maxptrs2free = 2*(*maxptrs2free) + 2 ;
-      *ptrs2free = (void **) realloc(*ptrs2free,(*maxptrs2free)*sizeof(void *));
-    }
-
-    (*ptrs2free)[(*numptrs2free)++] = list_info;
     (*ptrs2free)[(*numptrs2free)++] = list_value_int;  
   
     return 1;
-- 
2.43.0


From 61097c688bf9a7135938ddb4222c630c04e16976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:45 +0000
Subject: [PATCH 55/98] fix: a mesh kept for a second distribution held
 attribute pointers to freed lists

---
 src/par/MESH_Partition_and_Send.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/par/MESH_Partition_and_Send.c b/src/par/MESH_Partition_and_Send.c
index 5c3151c..6ee3b7b 100644
--- a/src/par/MESH_Partition_and_Send.c
+++ b/src/par/MESH_Partition_and_Send.c
@@ -402,7 +402,10 @@ extern "C" {
       if (g2llist) List_Delete(g2llist);
     }	
 	
-    if (del_inmesh) MESH_Delete(parentmesh);
+    if (del_inmesh) 
+      MESH_Delete(parentmesh);
+    else /* the lists are gone, so don't leave pointers to them on the mesh */
+      MAttrib_Delete(g2latt);
     return 1;
   }
 
-- 
2.43.0


From 2264c21a83ef24f247d638c3efb7d5c033cf1325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:24 +0000
Subject: [PATCH 56/98] fix: receive ghost descriptions of another partition in
 full in MESH_Parallel_Check

The receives allowed for as many entities as this partition holds, although
the sender may have more ghosts than that (its buffer was already large enough)
---
 src/par/MESH_Parallel_Check.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/par/MESH_Parallel_Check.c b/src/par/MESH_Parallel_Check.c
index 9107ad6..848a7cf 100644
--- a/src/par/MESH_Parallel_Check.c
+++ b/src/par/MESH_Parallel_Check.c
@@ -135,10 +135,10 @@ int MESH_Parallel_Check_VertexGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
     if(i == rank) continue;
     if(i < rank) {     
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MVERTEX) ) {
-	MPI_Recv(recv_list_vertex,3*nv,MPI_INT,i,rank,comm,&status);
+	MPI_Recv(recv_list_vertex,3*max_nv,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	//printf("rank %d receives %d verts from rank %d\n", rank,count/3, i);
-	MPI_Recv(recv_list_coor,3*nv,MPI_DOUBLE,i,rank,comm,&status);
+	MPI_Recv(recv_list_coor,3*max_nv,MPI_DOUBLE,i,rank,comm,&status);
 	for(j = 0; j < count/3;  j++) {
 	  global_id = recv_list_vertex[3*j+2];
 	  loc = (int *)bsearch(&global_id,
@@ -237,9 +237,9 @@ int MESH_Parallel_Check_VertexGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
 	
       }
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MVERTEX) ) {
-	MPI_Recv(recv_list_vertex,3*nv,MPI_INT,i,rank,comm,&status);
+	MPI_Recv(recv_list_vertex,3*max_nv,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
-	MPI_Recv(recv_list_coor,3*nv,MPI_DOUBLE,i,rank,comm,&status);
+	MPI_Recv(recv_list_coor,3*max_nv,MPI_DOUBLE,i,rank,comm,&status);
 	for(j = 0; j < count/3;  j++) {
 	  global_id = recv_list_vertex[3*j+2];
 	  loc = (int *)bsearch(&global_id,
@@ -374,7 +374,7 @@ int MESH_Parallel_Check_EdgeGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
     if(i == rank) continue;
     if(i < rank) {     
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MEDGE) ) {
-	MPI_Recv(recv_list_edge,5*ne,MPI_INT,i,rank,comm,&status);  // should we get 5*max_ne?
+	MPI_Recv(recv_list_edge,5*max_ne,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	for(j = 0; j < count/5;  j++) {
 	  global_id = recv_list_edge[5*j+4];
@@ -466,7 +466,7 @@ int MESH_Parallel_Check_EdgeGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
 	MPI_Send(list_edge,5*index_me,MPI_INT,i,i,comm);
       }
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MEDGE) ) {
-	MPI_Recv(recv_list_edge,5*ne,MPI_INT,i,rank,comm,&status);  // should we get 5*max_ne
+	MPI_Recv(recv_list_edge,5*max_ne,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	for(j = 0; j < count/5;  j++) {
 	  global_id = recv_list_edge[5*j+4];
@@ -623,7 +623,7 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
     if(i == rank) continue;
     if(i < rank) {     
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MFACE) ) {
-	MPI_Recv(recv_list_face,(MAXPV3+4)*nf,MPI_INT,i,rank,comm,&status);
+	MPI_Recv(recv_list_face,(MAXPV3+4)*max_nf,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	//printf("rank %d receives %d faces from rank %d\n", rank,count, i);
 	for(index_mf = 0; index_mf < count;) {
@@ -725,7 +725,7 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
       }
 
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MFACE) ) {
-	MPI_Recv(recv_list_face,(MAXPV3+4)*nf,MPI_INT,i,rank,comm,&status);
+	MPI_Recv(recv_list_face,(MAXPV3+4)*max_nf,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	//printf("rank %d receives %d faces from rank %d\n", rank,count, i);
 	for(index_mf = 0; index_mf < count;) {
@@ -853,7 +853,7 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
     if(i == rank) continue;
     if(i < rank) {     
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MREGION) ) {
-	MPI_Recv(recv_list_region,(MAXPF3+4)*nr,MPI_INT,i,rank,comm,&status);
+	MPI_Recv(recv_list_region,(MAXPF3+4)*max_nr,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	//	printf("rank %d receives %d regions from rank %d\n", rank,count, i);
 	for(index_mr = 0; index_mr < count;) {
@@ -952,7 +952,7 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
 	MPI_Send(list_region,index_mr,MPI_INT,i,i,comm);
       }
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MREGION) ) {
-	MPI_Recv(recv_list_region,(MAXPF3+4)*nr,MPI_INT,i,rank,comm,&status);
+	MPI_Recv(recv_list_region,(MAXPF3+4)*max_nr,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	for(index_mr = 0; index_mr < count;) {
 	  nrf = recv_list_region[index_mr];
-- 
2.43.0


From 6f40ceda7e7ca66ae5ff6293c36b00711dab1dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:48 +0000
Subject: [PATCH 57/98] fix: endless loop in MESH_Parallel_Check when a ghost
 face or region has no original

The loop over the received faces (regions) was left with 'continue' without
moving to the next one
---
 src/par/MESH_Parallel_Check.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/par/MESH_Parallel_Check.c b/src/par/MESH_Parallel_Check.c
index 848a7cf..e3a7cd9 100644
--- a/src/par/MESH_Parallel_Check.c
+++ b/src/par/MESH_Parallel_Check.c
@@ -626,7 +626,7 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
 	MPI_Recv(recv_list_face,(MAXPV3+4)*max_nf,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	//printf("rank %d receives %d faces from rank %d\n", rank,count, i);
-	for(index_mf = 0; index_mf < count;) {
+	for(index_mf = 0; index_mf < count; index_mf += (nfe + 4)) {
 	  nfe = recv_list_face[index_mf];
 	  global_id = recv_list_face[index_mf+nfe+3];;
 	  loc = (int *)bsearch(&global_id,
@@ -676,7 +676,6 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
 	      MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    }
 	  }
-	  index_mf += (nfe + 4);
 	}
       }
       if( MESH_Has_Ghosts_From_Prtn(mesh,i,MFACE) ) {
@@ -728,7 +727,7 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
 	MPI_Recv(recv_list_face,(MAXPV3+4)*max_nf,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	//printf("rank %d receives %d faces from rank %d\n", rank,count, i);
-	for(index_mf = 0; index_mf < count;) {
+	for(index_mf = 0; index_mf < count; index_mf += (nfe + 4)) {
 	  nfe = recv_list_face[index_mf];
 	  global_id = recv_list_face[index_mf+nfe+3];;
 	  loc = (int *)bsearch(&global_id,
@@ -778,7 +777,6 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
 	      MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    }
 	  }
-	  index_mf += (nfe + 4);
 	}
       }
     }
@@ -856,7 +854,7 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
 	MPI_Recv(recv_list_region,(MAXPF3+4)*max_nr,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	//	printf("rank %d receives %d regions from rank %d\n", rank,count, i);
-	for(index_mr = 0; index_mr < count;) {
+	for(index_mr = 0; index_mr < count; index_mr += (nrf + 4)) {
 	  nrf = recv_list_region[index_mr];
 	  global_id = recv_list_region[index_mr+nrf+3];;
 	  loc = (int *)bsearch(&global_id,
@@ -905,7 +903,6 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
 	      MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    }
 	  }
-	  index_mr += (nrf + 4);
 	}
       }
       if( MESH_Has_Ghosts_From_Prtn(mesh,i,MREGION) ) {
@@ -954,7 +951,7 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MREGION) ) {
 	MPI_Recv(recv_list_region,(MAXPF3+4)*max_nr,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
-	for(index_mr = 0; index_mr < count;) {
+	for(index_mr = 0; index_mr < count; index_mr += (nrf + 4)) {
 	  nrf = recv_list_region[index_mr];
 	  global_id = recv_list_region[index_mr+nrf+3];;
 	  loc = (int *)bsearch(&global_id,
@@ -1004,7 +1001,6 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
 	      MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    }
 	  }
-	  index_mr += (nrf + 4);
 	}
       }
     }
-- 
2.43.0


From 7f5d053cfe7281f4fae4a92b605315ec0432f0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:48 +0000
Subject: [PATCH 58/98] fix: MESH_Parallel_Check no longer hangs if one
 partition is invalid or has no regions

The checks exchange messages, so every partition has to take part in them
---
 src/par/MESH_Parallel_Check.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/par/MESH_Parallel_Check.c b/src/par/MESH_Parallel_Check.c
index e3a7cd9..cd18235 100644
--- a/src/par/MESH_Parallel_Check.c
+++ b/src/par/MESH_Parallel_Check.c
@@ -40,8 +40,8 @@ int MESH_Parallel_Check(Mesh_ptr mesh, MSTK_Comm comm) {
   fprintf(stderr,"Begin checking parallel information on submesh %d\n",rank);
 #endif
   valid = MESH_Parallel_Check_Ghost(mesh,rank);
-  if(valid)
-    valid = MESH_Parallel_Check_GlobalID(mesh,rank,num,comm);
+  /* collective, so it has to be called whether this partition is valid or not */
+  valid &= MESH_Parallel_Check_GlobalID(mesh,rank,num,comm);
 #ifdef DEBUG
   if (valid) fprintf(stderr,"Passed parallel checking on submesh %d\n",rank);
   else fprintf(stderr,"Failed parallel checking on submesh %d\n",rank);
@@ -62,8 +62,8 @@ int MESH_Parallel_Check_GlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm com
   valid = MESH_Parallel_Check_VertexGlobalID(mesh,rank,num,comm);
   valid &= MESH_Parallel_Check_EdgeGlobalID(mesh,rank,num,comm);
   valid &= MESH_Parallel_Check_FaceGlobalID(mesh,rank,num,comm);
-  if(MESH_Num_Regions(mesh))
-    valid &= MESH_Parallel_Check_RegionGlobalID(mesh,rank,num,comm);
+  /* collective, so it has to be called even if this partition has no regions */
+  valid &= MESH_Parallel_Check_RegionGlobalID(mesh,rank,num,comm);
   return valid;
 
 }
-- 
2.43.0


From b4ab9addc853bf9e8469cae04a39864348b0b03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 59/98] fix: flag the shared edges of rank 0 as being on the
 partition boundary when weaving

Only the other ranks flagged their edges, so that for surface meshes the two
sides of a boundary disagreed (MESH_XchngEdgeFaceAttrib relies on the flag)
---
 src/par/MESH_AssignGlobalIDs.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/par/MESH_AssignGlobalIDs.c b/src/par/MESH_AssignGlobalIDs.c
index 17ff68d..9c165f3 100644
--- a/src/par/MESH_AssignGlobalIDs.c
+++ b/src/par/MESH_AssignGlobalIDs.c
@@ -463,9 +463,9 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
   MPI_Allgather(list_edge,2*max_nbe,MPI_INT,recv_list_edge,2*max_nbe,MPI_INT,comm);
 
   nge = 0;
-  /* for processor other than 0 (because there are no ghost entities
-   * on rank 0 by convention) */
-  if(rank > 0) {
+  /* on all processors: there are no ghost entities on rank 0 by
+   * convention, but edges on the parallel boundary must be flagged */
+  if(num > 1) {
     for(i = 0; i < nbe; i++) {
       me = List_Entry(boundary_edges,i);
       edge_id[0] = MV_GlobalID(ME_Vertex(me,0));
-- 
2.43.0


From 7c05a2ae803aec4f135f81502d85d757009c2fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 60/98] fix: edges shared by more than two ranks in
 MESH_AssignGlobalIDs_p2p

Such an edge was counted as a ghost, and given a new master, for every lower
rank that has it. The count shifts all following global IDs, and a master
that is not the lowest rank has the edge as a ghost itself
---
 src/par/MESH_AssignGlobalIDs_point.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/par/MESH_AssignGlobalIDs_point.c b/src/par/MESH_AssignGlobalIDs_point.c
index c84f1d7..8a01d16 100644
--- a/src/par/MESH_AssignGlobalIDs_point.c
+++ b/src/par/MESH_AssignGlobalIDs_point.c
@@ -495,6 +495,7 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
 	for(j = 0; j < nbe; j++) {
 	  me = List_Entry(boundary_edges,j);
 	  if (ME_PType(me) == POVERLAP) continue;  /* already labeled overlap edge */
+	  if (ME_PType(me) == PGHOST) continue;  /* master is a lower rank */
 	  edge_id[0] = MV_GlobalID(ME_Vertex(me,0));
 	  edge_id[1] = MV_GlobalID(ME_Vertex(me,1));
 	  loc = (int *)bsearch(&edge_id,
@@ -737,6 +738,7 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
 	for(j = 0; j < nbf; j++) {
 	  mf = List_Entry(boundary_faces,j);
 	  if(MF_PType(mf) == POVERLAP) continue; /* already labeled as overlap */
+	  if(MF_PType(mf) == PGHOST) continue; /* master is a lower rank */
 	  mfverts = MF_Vertices(mf,1,0);
 	  nfv = List_Num_Entries(mfverts);
 	  face_id[0] = nfv;                           
-- 
2.43.0


From 8cc6a3d096ea5ea30f039ed09ee0a3b04856dc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 61/98] fix: MESH_AssignGlobalIDs_p2p flagged interior edges
 and faces as being on the partition boundary

It is not enough that all their vertices are on the boundary; as in
MESH_AssignGlobalIDs, another rank must have the same edge (face)
---
 src/par/MESH_AssignGlobalIDs_point.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/par/MESH_AssignGlobalIDs_point.c b/src/par/MESH_AssignGlobalIDs_point.c
index 8a01d16..8d92264 100644
--- a/src/par/MESH_AssignGlobalIDs_point.c
+++ b/src/par/MESH_AssignGlobalIDs_point.c
@@ -432,7 +432,8 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
 
   /* 
      collect 'boundary' edges
-     if endpoints are either GHOST or OVERLAP, then it is a boundary edge 
+     if endpoints are on the parallel boundary, then it may be a boundary
+     edge; it is flagged as such if another rank has it too
   */
   nbe = 0;  boundary_edges = List_New(10);
   for(i = 0; i < ne; i++) {
@@ -444,7 +445,6 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
         is_boundary = 0;
     }
     if(is_boundary) {
-      ME_Flag_OnParBoundary(me);
       List_Add(boundary_edges,me);
       nbe++;
     }
@@ -507,6 +507,7 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
 	    iloc = (int)(loc - recv_list_edge)/2;
 	    ME_Set_PType(me,PGHOST);
 	    ME_Set_MasterParID(me,i);
+	    ME_Flag_OnParBoundary(me);
 	    nge++;
 	    me_remote_info[j] = iloc;
 	    me_ov_label[iloc] = 1;
@@ -526,6 +527,7 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
 	    noe++;
 	    ME_Set_PType(me,POVERLAP);
 	    ME_Set_MasterParID(me,rank);
+	    ME_Flag_OnParBoundary(me);
 	  }
 	}
       }
@@ -669,7 +671,8 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
 
   /* 
      collect 'boundary' faces
-     if all endpoints are either GHOST or OVERLAP, then it is a boundary face 
+     if all vertices are on the parallel boundary, then it may be a
+     boundary face; it is flagged as such if another rank has it too
   */
   nbf = 0;  boundary_faces = List_New(10);
   for(i = 0; i < nf; i++) {
@@ -683,7 +686,6 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
         is_boundary = 0;
     }
     if(is_boundary) {
-      MF_Flag_OnParBoundary(mf);
       List_Add(boundary_faces,mf);
       nbf++;
     }
@@ -753,6 +755,7 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
 	    iloc = (int)(loc - recv_list_face)/(MAXPV2+3);
 	    MF_Set_PType(mf,PGHOST);
 	    MF_Set_MasterParID(mf,i);
+	    MF_Flag_OnParBoundary(mf);
 	    ngf++;
 	    mf_remote_info[j] = iloc;
 	    mf_ov_label[iloc] = 1;
@@ -773,6 +776,7 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
 	    nof++;
 	    MF_Set_PType(mf,POVERLAP);
 	    MF_Set_MasterParID(mf,rank);
+	    MF_Flag_OnParBoundary(mf);
 	  }
 	}
       }
-- 
2.43.0


From fdcaffefc0c529fba0221bcb9846f0c3636b173f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:32 +0000
Subject: [PATCH 62/98] fix: update of vector and tensor attributes on ghosts

MESH_Update1Attribute dereferenced the missing value of entities on which
the attribute was never set, and took attributes with one component for
scalars (garbage on the ghosts). It also leaked a copy of every value
---
 src/par/MESH_Update1Attribute.c | 42 +++++++++++++--------------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/src/par/MESH_Update1Attribute.c b/src/par/MESH_Update1Attribute.c
index f1241da..eb2681f 100644
--- a/src/par/MESH_Update1Attribute.c
+++ b/src/par/MESH_Update1Attribute.c
@@ -130,14 +130,13 @@ extern "C" {
       if (att_type == INT) {
 	list_value_int_send[j] = ival;
       }
-      else {
-	if (ncomp == 1)
-	  list_value_double_send[j] = rval;
-	if (ncomp > 1) {
-	  rval_arr = (double *)pval;
-	  for(k = 0; k < ncomp; k++)
-	    list_value_double_send[ncomp*j+k] = rval_arr[k];
-	}
+      else if (att_type == DOUBLE) {
+	list_value_double_send[j] = rval;
+      }
+      else {  /* vector or tensor; no value means zero */
+	rval_arr = (double *)pval;
+	for(k = 0; k < ncomp; k++)
+	  list_value_double_send[ncomp*j+k] = rval_arr ? rval_arr[k] : 0.0;
       }
     }
 
@@ -311,25 +310,16 @@ extern "C" {
       i = (int)(loc - &list_info_recv[0]);
       if (att_type == INT)
 	ival = list_value_int_recv[i];
+      else if (att_type == DOUBLE)
+	rval = list_value_double_recv[i];
       else {
-	if(ncomp == 1) 
-	  rval = list_value_double_recv[i];
-	if(ncomp > 1)
-	  {
-            int allzero = 1;
-            for (k = 0; k < ncomp; k++)
-              if (list_value_double_recv[i*ncomp+k] != 0.0) {
-                allzero = 0;
-                break;
-              }
-            if (!allzero) {
-              rval_arr = (double *) malloc(ncomp*sizeof(double));
-              for(k = 0; k < ncomp; k++)
-                rval_arr[k] = list_value_double_recv[i*ncomp+k];
-            }	
-            else
-              rval_arr = NULL;
-          }
+	rval_arr = NULL;
+	for (k = 0; k < ncomp; k++)
+	  if (list_value_double_recv[i*ncomp+k] != 0.0) {
+	    /* the values are copied into the attribute */
+	    rval_arr = &list_value_double_recv[i*ncomp];
+	    break;
+	  }
       }
       if ((att_type == INT && ival) ||
           (att_type == DOUBLE && rval) ||
-- 
2.43.0


From 8ba5730b9265266d1dcdd0e10e4d535a66601ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:32 +0000
Subject: [PATCH 63/98] fix: ghosts kept their old attribute value when the
 owner's value became zero

---
 src/par/MESH_Update1Attribute.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/par/MESH_Update1Attribute.c b/src/par/MESH_Update1Attribute.c
index eb2681f..7838cbf 100644
--- a/src/par/MESH_Update1Attribute.c
+++ b/src/par/MESH_Update1Attribute.c
@@ -325,6 +325,8 @@ extern "C" {
           (att_type == DOUBLE && rval) ||
           ((att_type == VECTOR || att_type == TENSOR) && rval_arr))
         MEnt_Set_AttVal(ment,attrib,ival,rval,(void*) rval_arr);
+      else  /* zero on the owner; the ghost must not keep an older value */
+        MEnt_Rem_AttVal(ment,attrib);
     }
 
     /* release the send buffer */
-- 
2.43.0


From 02f3044e1b8209b4b705fd3f2a13b1c0303f59bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:08 +0000
Subject: [PATCH 64/98] fix: gather-scatter of vector and tensor attributes

The current value of the master was never read (its pointer was written over
a buffer of values), the maximum was copied into the received value instead of
the result, the minimum fell through into the sum, a zero value was never
smaller, and an average was only taken if the last value received was not zero.
Entities without a value, and vectors with one component, were mishandled as
in MESH_Update1Attribute
---
 src/par/MESH_GathScat1Attribute.c | 121 +++++++++++++-----------------
 1 file changed, 52 insertions(+), 69 deletions(-)

diff --git a/src/par/MESH_GathScat1Attribute.c b/src/par/MESH_GathScat1Attribute.c
index 9d94437..ee3dc53 100644
--- a/src/par/MESH_GathScat1Attribute.c
+++ b/src/par/MESH_GathScat1Attribute.c
@@ -272,14 +272,13 @@ extern "C" {
 	    if (att_type == INT) {
 	      list_value_int_send[n] = ival;
 	    }
-	    else {
-	      if (ncomp == 1)
-		list_value_double_send[n] = rval;
-	      if (ncomp > 1) {
-		rval_arr = (double *)pval;
-		for(k = 0; k < ncomp; k++)
-		  list_value_double_send[ncomp*n+k] = rval_arr[k];
-	      }
+	    else if (att_type == DOUBLE) {
+	      list_value_double_send[n] = rval;
+	    }
+	    else {  /* vector or tensor; no value means zero */
+	      rval_arr = (double *)pval;
+	      for(k = 0; k < ncomp; k++)
+		list_value_double_send[ncomp*n+k] = rval_arr ? rval_arr[k] : 0.0;
 	    }
             n++;
             if (n > send_size[i]) 
@@ -420,10 +419,11 @@ extern "C" {
       int nfound = 0;
       int final_ival;
       double final_rval;
-      double *final_rval_arr = (double *) malloc(ncomp*sizeof(double));
+      double *final_rval_arr = (double *) calloc(ncomp,sizeof(double));
 
-      MEnt_Get_AttVal(ment,attrib,&final_ival,&final_rval,
-                      (void *) final_rval_arr);
+      MEnt_Get_AttVal(ment,attrib,&final_ival,&final_rval,&pval);
+      if ((att_type == VECTOR || att_type == TENSOR) && pval)
+        memcpy(final_rval_arr,pval,ncomp*sizeof(double));
 
       for (i = 0; i < num_recv_procs; i++) {
         int offset = recv_pos[i];   /* recv_pos array is num_recv_procs long */
@@ -462,64 +462,46 @@ extern "C" {
               break;
           }
         }
-        else {
-          if(ncomp == 1) {
-            rval = list_value_double_recv[ind];
-            switch (optype) {
-              case ATTOP_MAX:
-                if (rval > final_rval) final_rval = rval;
-                break;
-              case ATTOP_MIN:
-                if (rval < final_rval) final_rval = rval;
-                break;
-              case ATTOP_SUM: case ATTOP_AVG:
-                final_rval += rval;
-                break;
-              case ATTOP_UNDEF:
-                final_rval = rval;
-                break;
-            }
+        else if (att_type == DOUBLE) {
+          rval = list_value_double_recv[ind];
+          switch (optype) {
+            case ATTOP_MAX:
+              if (rval > final_rval) final_rval = rval;
+              break;
+            case ATTOP_MIN:
+              if (rval < final_rval) final_rval = rval;
+              break;
+            case ATTOP_SUM: case ATTOP_AVG:
+              final_rval += rval;
+              break;
+            case ATTOP_UNDEF:
+              final_rval = rval;
+              break;
           }
-          if(ncomp > 1) {
-            int allzero = 1;
-            for (k = 0; k < ncomp; k++)
-              if (list_value_double_recv[ind*ncomp+k] != 0.0) {
-                allzero = 0;
-                break;
-              }
-            if (!allzero) {
-              rval_arr = (double *)malloc(ncomp*sizeof(double));
-              for(k = 0; k < ncomp; k++)
-                rval_arr[k] = list_value_double_recv[ind*ncomp+k];
-              double final_norm = 0.0, norm = 0.0;
-              switch (optype) {
-                case ATTOP_MAX:
-                  for (k = 0; k < ncomp; k++) 
-                    final_norm += final_rval_arr[k]*final_rval_arr[k];
-                  for (k = 0; k < ncomp; k++)
-                    norm += rval_arr[k]*rval_arr[k];
-                  if (norm > final_norm)
-                    memcpy(rval_arr,final_rval_arr,ncomp*sizeof(double));
-                  break;
-                case ATTOP_MIN:
-                  for (k = 0; k < ncomp; k++) 
-                    final_norm += final_rval_arr[k]*final_rval_arr[k];
-                  for (k = 0; k < ncomp; k++)
-                    norm += rval_arr[k]*rval_arr[k];
-                  if (norm < final_norm)
-                    memcpy(rval_arr,final_rval_arr,ncomp*sizeof(double));
-                case ATTOP_SUM: case ATTOP_AVG:
-                  for (k = 0; k < ncomp; k++)
-                    final_rval_arr[k] += rval_arr[k];
-                  break;
-                default:
-                  for (k = 0; k < ncomp; k++)
-                    final_rval_arr[k] = rval_arr[k];
-                  break;
-              }
-            }	
-            else
-              rval_arr = NULL;
+        }
+        else {  /* vector or tensor; maximum and minimum are by norm */
+          double final_norm = 0.0, norm = 0.0;
+          rval_arr = &list_value_double_recv[ind*ncomp];
+          for (k = 0; k < ncomp; k++) {
+            final_norm += final_rval_arr[k]*final_rval_arr[k];
+            norm += rval_arr[k]*rval_arr[k];
+          }
+          switch (optype) {
+            case ATTOP_MAX:
+              if (norm > final_norm)
+                memcpy(final_rval_arr,rval_arr,ncomp*sizeof(double));
+              break;
+            case ATTOP_MIN:
+              if (norm < final_norm)
+                memcpy(final_rval_arr,rval_arr,ncomp*sizeof(double));
+              break;
+            case ATTOP_SUM: case ATTOP_AVG:
+              for (k = 0; k < ncomp; k++)
+                final_rval_arr[k] += rval_arr[k];
+              break;
+            case ATTOP_UNDEF:
+              memcpy(final_rval_arr,rval_arr,ncomp*sizeof(double));
+              break;
           }
         }
 
@@ -535,7 +517,7 @@ extern "C" {
 
       if (optype == ATTOP_AVG) {
         if (att_type == DOUBLE) final_rval /= nfound+1;
-        if ((att_type == VECTOR || att_type == TENSOR) && rval_arr)
+        if (att_type == VECTOR || att_type == TENSOR)
           for (k = 0; k < ncomp; k++)
             final_rval_arr[k] /= nfound+1;
       }
@@ -545,6 +527,7 @@ extern "C" {
           ((att_type == VECTOR || att_type == TENSOR) && final_rval_arr))
         MEnt_Set_AttVal(ment,attrib,final_ival,final_rval,(void*) final_rval_arr);
 
+      free(final_rval_arr);  /* attribute has its own copy */
     }
     
         
-- 
2.43.0


From d1a449f06c8f57c9feb767afc8dcd7806dc18192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:08 +0000
Subject: [PATCH 65/98] fix: gather-scatter ignored a result of zero

---
 src/par/MESH_GathScat1Attribute.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/par/MESH_GathScat1Attribute.c b/src/par/MESH_GathScat1Attribute.c
index ee3dc53..c7e8807 100644
--- a/src/par/MESH_GathScat1Attribute.c
+++ b/src/par/MESH_GathScat1Attribute.c
@@ -522,10 +522,8 @@ extern "C" {
             final_rval_arr[k] /= nfound+1;
       }
       
-      if ((att_type == INT && final_ival) ||
-          (att_type == DOUBLE && final_rval) ||
-          ((att_type == VECTOR || att_type == TENSOR) && final_rval_arr))
-        MEnt_Set_AttVal(ment,attrib,final_ival,final_rval,(void*) final_rval_arr);
+      /* even if it is zero - the master may have another value now */
+      MEnt_Set_AttVal(ment,attrib,final_ival,final_rval,(void*) final_rval_arr);
 
       free(final_rval_arr);  /* attribute has its own copy */
     }
-- 
2.43.0


From 2071cec7318ac5780a033fd0ab1f516bd4d3573b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:58 +0000
Subject: [PATCH 66/98] fix: exchange of vector and tensor attributes between
 owners and ghosts

---
 src/par/MESH_XchngEdgeFaceAttrib.c | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/par/MESH_XchngEdgeFaceAttrib.c b/src/par/MESH_XchngEdgeFaceAttrib.c
index 6a2db91..fabcc39 100644
--- a/src/par/MESH_XchngEdgeFaceAttrib.c
+++ b/src/par/MESH_XchngEdgeFaceAttrib.c
@@ -266,12 +266,13 @@ extern "C" {
                 list_value_int_send[n] = ival;
               }
               else {
-                if (ncomp == 1)
+                if (att_type == DOUBLE)
                   list_value_double_send[n] = rval;
-                if (ncomp > 1) {
+                else {
+                  /* a vector or tensor that is not set counts as zero */
                   rval_arr = (double *)pval;
                   for(k = 0; k < ncomp; k++)
-                    list_value_double_send[ncomp*n+k] = rval_arr[k];
+                    list_value_double_send[ncomp*n+k] = rval_arr ? rval_arr[k] : 0.0;
                 }
               }
               n++;
@@ -430,7 +431,7 @@ extern "C" {
         if (att_type == INT) 
           ival = list_value_int_recv[ind];
         else {
-          if(ncomp == 1) 
+          if (att_type == DOUBLE) 
             rval = list_value_double_recv[ind];
           else {
             int allzero = 1;
@@ -439,13 +440,8 @@ extern "C" {
                 allzero = 0;
                 break;
               }
-            if (!allzero) {
-              rval_arr = (double *)malloc(ncomp*sizeof(double));
-              for(k = 0; k < ncomp; k++)
-                rval_arr[k] = list_value_double_recv[ind*ncomp+k];
-            }	
-            else
-              rval_arr = NULL;
+            /* MEnt_Set_AttVal makes its own copy of the values */
+            rval_arr = allzero ? NULL : &(list_value_double_recv[ind*ncomp]);
           }
         }
         
-- 
2.43.0


From 132d50357d928fb6251c1d34a4f7df604a545e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:58 +0000
Subject: [PATCH 67/98] fix: exchange of attributes ignored a value of zero

---
 src/par/MESH_XchngEdgeFaceAttrib.c | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/par/MESH_XchngEdgeFaceAttrib.c b/src/par/MESH_XchngEdgeFaceAttrib.c
index fabcc39..105b78d 100644
--- a/src/par/MESH_XchngEdgeFaceAttrib.c
+++ b/src/par/MESH_XchngEdgeFaceAttrib.c
@@ -434,21 +434,13 @@ extern "C" {
           if (att_type == DOUBLE) 
             rval = list_value_double_recv[ind];
           else {
-            int allzero = 1;
-            for (k = 0; k < ncomp; k++)
-              if (list_value_double_recv[ind*ncomp+k] != 0.0) {
-                allzero = 0;
-                break;
-              }
             /* MEnt_Set_AttVal makes its own copy of the values */
-            rval_arr = allzero ? NULL : &(list_value_double_recv[ind*ncomp]);
+            rval_arr = &(list_value_double_recv[ind*ncomp]);
           }
         }
         
-        if ((att_type == INT && ival) ||
-            (att_type == DOUBLE && rval) ||
-            ((att_type == VECTOR || att_type == TENSOR) && rval_arr))
-          MEnt_Set_AttVal(ment,attrib,ival,rval,(void*) rval_arr);
+        /* a value of zero must replace the old value as well */
+        MEnt_Set_AttVal(ment,attrib,ival,rval,(void*) rval_arr);
        
         break;
       } /* for (i = 0; i < num_recv_procs; i++) */
-- 
2.43.0


From ac99e9c2aba5bae13ec81a2c77a99675366bb412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 68/98] fix: keep the global ID search lists of all entity
 types, with the right length

MESH_Enable_GlobalIDSearch made no list for types the mesh had no entity of,
and the lookups checked the vertex list only, so that looking up a region in
a surface mesh dereferenced NULL. It also kept an old list whose length no
longer agreed with the number of entities of the mesh.
---
 src/base/Mesh.c | 73 +++++++++++++++++++++++++------------------------
 1 file changed, 38 insertions(+), 35 deletions(-)

diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index 1e039ba..be66690 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -1415,46 +1415,49 @@ List_ptr   MESH_Region_List(Mesh_ptr mesh) {
 
 
 
-void MESH_Enable_GlobalIDSearch(Mesh_ptr mesh) {
-
-  if (mesh->nv && !mesh->gid_sorted_mvlist)
-    mesh->gid_sorted_mvlist = List_Copy(mesh->mvertex);
+/* Make a fresh list of all mesh entities of a given type sorted by
+   global ID. The copy is compressed first because a list with gaps
+   (left behind by deleted entities) cannot be sorted */
 
-  if (mesh->ne && !mesh->gid_sorted_melist)
-    mesh->gid_sorted_melist = List_Copy(mesh->medge);
+static List_ptr MESH_GlobalIDSearch_List(List_ptr oldlist, List_ptr entities) {
+  List_ptr newlist;
 
-  if (mesh->nf && !mesh->gid_sorted_mflist)
-    mesh->gid_sorted_mflist = List_Copy(mesh->mface);
+  if (oldlist)
+    List_Delete(oldlist);
 
-  if (mesh->nr && !mesh->gid_sorted_mrlist)
-    mesh->gid_sorted_mrlist = List_Copy(mesh->mregion);
+  newlist = entities ? List_Copy(entities) : List_New(0);
+  List_Compress(newlist);
+  if (List_Num_Entries(newlist))
+    List_Sort(newlist,List_Num_Entries(newlist),sizeof(MEntity_ptr),
+              compareGlobalID);
 
-  MESH_Sort_GlobalIDSearch_Lists(mesh);
+  return newlist;
 }
 
-void MESH_Sort_GlobalIDSearch_Lists(Mesh_ptr mesh) {
+/* Can be called any number of times, for example, to account for
+   entities that were added, deleted or given a new global ID since the
+   last call */
 
-  if (mesh->nv && mesh->gid_sorted_mvlist) {
-    List_Compress(mesh->gid_sorted_mvlist);  // can't sort list with gaps
-    List_Sort(mesh->gid_sorted_mvlist,mesh->nv,sizeof(MVertex_ptr),compareGlobalID);
-  }
+void MESH_Enable_GlobalIDSearch(Mesh_ptr mesh) {
 
-  if (mesh->ne && mesh->gid_sorted_melist) {
-    List_Compress(mesh->gid_sorted_melist);
-    List_Sort(mesh->gid_sorted_melist,mesh->ne,sizeof(MEdge_ptr),compareGlobalID);
-  }
+  mesh->gid_sorted_mvlist =
+    MESH_GlobalIDSearch_List(mesh->gid_sorted_mvlist,mesh->mvertex);
+  mesh->gid_sorted_melist =
+    MESH_GlobalIDSearch_List(mesh->gid_sorted_melist,mesh->medge);
+  mesh->gid_sorted_mflist =
+    MESH_GlobalIDSearch_List(mesh->gid_sorted_mflist,mesh->mface);
+  mesh->gid_sorted_mrlist =
+    MESH_GlobalIDSearch_List(mesh->gid_sorted_mrlist,mesh->mregion);
 
-  if (mesh->nf && mesh->gid_sorted_mflist) {
-    List_Compress(mesh->gid_sorted_mflist);
-    List_Sort(mesh->gid_sorted_mflist,mesh->nf,sizeof(MFace_ptr),compareGlobalID);
-  }
+  mesh->gidlists_sorted = 1;
+}
 
-  if (mesh->nr && mesh->gid_sorted_mrlist) {
-    List_Compress(mesh->gid_sorted_mrlist);
-    List_Sort(mesh->gid_sorted_mrlist,mesh->nr,sizeof(MRegion_ptr),compareGlobalID);
-  }
+/* Bring the search lists up to date, if global ID search is enabled */
 
-  mesh->gidlists_sorted = 1;
+void MESH_Sort_GlobalIDSearch_Lists(Mesh_ptr mesh) {
+
+  if (mesh->gid_sorted_mvlist)
+    MESH_Enable_GlobalIDSearch(mesh);
 }
 
 
@@ -1498,7 +1501,7 @@ MVertex_ptr MESH_VertexFromGlobalID(Mesh_ptr mesh, int global_id) {
   MEnt_Set_GlobalID(mv_tmp,global_id);
 
   mv = (MVertex_ptr) List_Search(mesh->gid_sorted_mvlist,(void *)&mv_tmp,
-                                 mesh->nv,sizeof(MVertex_ptr),compareGlobalID);
+                                 List_Num_Entries(mesh->gid_sorted_mvlist),sizeof(MVertex_ptr),compareGlobalID);
 
   MV_Delete(mv_tmp,0);
 
@@ -1522,7 +1525,7 @@ MEdge_ptr MESH_EdgeFromGlobalID(Mesh_ptr mesh, int global_id) {
   MEnt_Set_GlobalID(me_tmp,global_id);
 
   me = (MEdge_ptr) List_Search(mesh->gid_sorted_melist,(void *)&me_tmp,
-                               mesh->ne,sizeof(MEdge_ptr),compareGlobalID);
+                               List_Num_Entries(mesh->gid_sorted_melist),sizeof(MEdge_ptr),compareGlobalID);
 
   ME_Delete(me_tmp,0);
   
@@ -1533,7 +1536,7 @@ MFace_ptr MESH_FaceFromGlobalID(Mesh_ptr mesh, int global_id) {
   int idx;
   MFace_ptr mf;
 
-  if (!mesh->gid_sorted_mvlist)
+  if (!mesh->gid_sorted_mflist)
     MSTK_Report("MESH_FaceFromGlobalID",
                 "Call MESH_Enable_GlobalIDSearch first; Since this uses extra memory, call MESH_Disable_GlobalIDSearch when such searches are done",
                 MSTK_FATAL);
@@ -1546,7 +1549,7 @@ MFace_ptr MESH_FaceFromGlobalID(Mesh_ptr mesh, int global_id) {
   MEnt_Set_GlobalID(mf_tmp,global_id);
 
   mf = (MFace_ptr) List_Search(mesh->gid_sorted_mflist,(void *)&mf_tmp,
-                               mesh->nf,sizeof(MFace_ptr),compareGlobalID);
+                               List_Num_Entries(mesh->gid_sorted_mflist),sizeof(MFace_ptr),compareGlobalID);
 
   MF_Delete(mf_tmp,0);
   
@@ -1557,7 +1560,7 @@ MRegion_ptr MESH_RegionFromGlobalID(Mesh_ptr mesh, int global_id) {
   int idx;
   MRegion_ptr mr;
 
-  if (!mesh->gid_sorted_mvlist)
+  if (!mesh->gid_sorted_mrlist)
     MSTK_Report("MESH_RegionFromGlobalID",
                 "Call MESH_Enable_GlobalIDSearch first; Since this uses extra memory, call MESH_Disable_GlobalIDSearch when such searches are done",
                 MSTK_FATAL);
@@ -1570,7 +1573,7 @@ MRegion_ptr MESH_RegionFromGlobalID(Mesh_ptr mesh, int global_id) {
   MEnt_Set_GlobalID(mr_tmp,global_id);
 
   mr = (MRegion_ptr) List_Search(mesh->gid_sorted_mrlist,(void *)&mr_tmp,
-                                 mesh->nr,sizeof(MRegion_ptr),compareGlobalID);
+                                 List_Num_Entries(mesh->gid_sorted_mrlist),sizeof(MRegion_ptr),compareGlobalID);
 
   MR_Delete(mr_tmp,0);
 
-- 
2.43.0


From 6319d2d78f6a031fc6cc158f893c0134ade2ffe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 69/98] fix: let every rank take part in renumbering global IDs

A rank without entities of a type skipped the collective operations, which
hung the others.
---
 src/par/MESH_Renumber_GlobalIDs.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/par/MESH_Renumber_GlobalIDs.c b/src/par/MESH_Renumber_GlobalIDs.c
index ea8c365..bbcbd5f 100644
--- a/src/par/MESH_Renumber_GlobalIDs.c
+++ b/src/par/MESH_Renumber_GlobalIDs.c
@@ -43,13 +43,15 @@ extern "C" {
                   "Renumbering according to pre-assigned numbering not yet implemented",
                   MSTK_ERROR);
     } else {
-      if (MESH_Num_Vertices(mesh) && (mtype == MVERTEX || mtype == MALLTYPE))
+      // Renumbering is a collective operation so every processor must
+      // take part even if it does not have entities of this type
+      if (mtype == MVERTEX || mtype == MALLTYPE)
         MESH_Renumber_EntityGlobalIDs(mesh, MVERTEX, method, NULL, comm);
-      if (MESH_Num_Edges(mesh) && (mtype == MEDGE || mtype == MALLTYPE))
+      if (mtype == MEDGE || mtype == MALLTYPE)
         MESH_Renumber_EntityGlobalIDs(mesh, MEDGE, method, NULL, comm);
-      if (MESH_Num_Faces(mesh) && (mtype == MFACE || mtype == MALLTYPE))
+      if (mtype == MFACE || mtype == MALLTYPE)
         MESH_Renumber_EntityGlobalIDs(mesh, MFACE, method, NULL, comm);
-      if (MESH_Num_Regions(mesh) && (mtype == MREGION || mtype == MALLTYPE))
+      if (mtype == MREGION || mtype == MALLTYPE)
         MESH_Renumber_EntityGlobalIDs(mesh, MREGION, method, NULL, comm);
 
       // Ghost entity management in the mesh relies on ghost lists
-- 
2.43.0


From 602658dbc4f04d2b6024d056fde3c07d4b7a18ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 70/98] fix: free the new numbers in MESH_Renumber_GlobalIDs

---
 src/par/MESH_Renumber_GlobalIDs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/par/MESH_Renumber_GlobalIDs.c b/src/par/MESH_Renumber_GlobalIDs.c
index bbcbd5f..eaffcbe 100644
--- a/src/par/MESH_Renumber_GlobalIDs.c
+++ b/src/par/MESH_Renumber_GlobalIDs.c
@@ -218,6 +218,7 @@ extern "C" {
       default: {}
     }
 
+    free(new_index);
     free(nowned_all);
     free(offset_all);
 
-- 
2.43.0


From a300f11007a938aafe705199eccaf928c19eef6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 71/98] fix: write the element map of a parallel Exodus file in
 the order of its elements

The map listed elements in mesh order while the elements themselves are
written block by block, so that reading the file back mixed up their global
IDs.
---
 src/io/MESH_ExportToExodusII.c | 37 +++++++++-------------------------
 1 file changed, 9 insertions(+), 28 deletions(-)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index b55d18a..bbb909c 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -1229,36 +1229,17 @@ extern "C" {
       
       /* Write out element map (global IDs of elements) */
 
-      int *elem_map;
+      /* in the order in which they were written out block by block */
 
-      if (nrowned) {
-        elem_map = (int *) malloc(nrowned*sizeof(int));
-        idx = 0; i = 0;
-        while ((mr = MESH_Next_Region(mesh,&idx))) {
-          int rowned;
-#ifdef MSTK_USE_MARKERS
-          rowned = MEnt_IsMarked(mr, ownedmk);
-#else
-          MEnt_Get_AttVal(mr, ownedatt, &rowned, &rval, &pval);
-#endif
-          if (rowned)
-            elem_map[i++] = MR_GlobalID(mr);
-        }
-      }
-      else { // assume surface mesh
-        elem_map = (int *) malloc(nfowned*sizeof(int));
-        idx = 0; i = 0;
-        while ((mf = MESH_Next_Face(mesh,&idx))) {
-          int fowned;
-#ifdef MSTK_USE_MARKERS
-          fowned = MEnt_IsMarked(mf, ownedmk);
-#else
-          MEnt_Get_AttVal(mf, ownedatt, &fowned, &rval, &pval);
-#endif
-          if (fowned)
-            elem_map[i++] = MF_GlobalID(mf);
-        }
+      int *elem_map = (int *) malloc(num_element*sizeof(int));
+
+      for (i = 0; i < num_element_block_glob; i++) {
+        MEntity_ptr ment;
+        idx = 0;
+        while ((ment = MSet_Next_Entry(element_blocks_glob[i],&idx)))
+          elem_map[elem_id[MEnt_ID(ment)-1]-1] = MEnt_GlobalID(ment);
       }
+
 #ifdef EXODUS_6_DEPRECATED
       status = ex_put_elem_num_map(exoid, elem_map);
 #else
-- 
2.43.0


From ad740522acc65d1e323c3a3eac663dd3c1f60ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 72/98] fix: keep ghosts out of the node and element sets of
 parallel Exodus files

Ghosts are not in the file of a rank and were written with ID 0, which
crashed reading the file back.
---
 src/io/MESH_ExportToExodusII.c | 35 ++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index bbb909c..da2b8c3 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -1016,21 +1016,25 @@ extern "C" {
 
    
     for (i = 0; i < num_node_set_glob; i++) {
-      int nnodes = MSet_Num_Entries(node_sets_glob[i]);
-#ifdef EXODUS_6_DEPRECATED
-      ex_put_node_set_param(exoid, node_set_ids_glob[i], nnodes, 0);
-#else
-      ex_put_set_param(exoid, EX_NODE_SET, node_set_ids_glob[i], nnodes, 0);
-#endif
+      int *node_list =
+        (int *) malloc(MSet_Num_Entries(node_sets_glob[i])*sizeof(int));
 
-      int *node_list = (int *) malloc(nnodes*sizeof(int));
+      /* Nodes that are used only by ghost elements are not in the file */
 
-      idx = 0; j = 0;
+      int nnodes = 0;
+      idx = 0;
       while ((mv = MSet_Next_Entry(node_sets_glob[i],&idx))) {
         MEnt_Get_AttVal(mv,vidatt,&vid,&rval,&pval);
-	node_list[j++] = vid;
+        if (vid)
+          node_list[nnodes++] = vid;
       }
 
+#ifdef EXODUS_6_DEPRECATED
+      ex_put_node_set_param(exoid, node_set_ids_glob[i], nnodes, 0);
+#else
+      ex_put_set_param(exoid, EX_NODE_SET, node_set_ids_glob[i], nnodes, 0);
+#endif
+
 #ifdef EXODUS_6_DEPRECATED
       ex_put_node_set(exoid, node_set_ids_glob[i], node_list);
 #else
@@ -1169,16 +1173,19 @@ extern "C" {
     /* Write out element set information */
   
     for (i = 0; i < num_element_set_glob; i++) {
-      int nelements = MSet_Num_Entries(element_sets_glob[i]);
-      ex_put_set_param(exoid, EX_ELEM_SET, element_set_ids_glob[i], nelements, 0);
+      int *element_list =
+        (int *) malloc(MSet_Num_Entries(element_sets_glob[i])*sizeof(int));
 
-      int *element_list = (int *) malloc(nelements*sizeof(int));
+      /* Ghost elements are not in the file */
 
       MEntity_ptr ment;
-      idx = 0; j = 0;
+      int nelements = 0;
+      idx = 0;
       while ((ment = MSet_Next_Entry(element_sets_glob[i],&idx)))
-        element_list[j++] = elem_id[MEnt_ID(ment)-1];
+        if (elem_id[MEnt_ID(ment)-1])
+          element_list[nelements++] = elem_id[MEnt_ID(ment)-1];
 
+      ex_put_set_param(exoid, EX_ELEM_SET, element_set_ids_glob[i], nelements, 0);
       ex_put_set(exoid, EX_ELEM_SET, element_set_ids_glob[i], element_list, NULL);
 
       free(element_list);
-- 
2.43.0


From e0a657eef8a1fb864d3a237c29f7b0b809dab04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 73/98] fix: write side sets of parallel Exodus files with
 respect to owned elements

Edges between ghost faces were not skipped (their second face may not exist)
and a side on the partition boundary may have its owned element anywhere in
the list of its elements.
---
 src/io/MESH_ExportToExodusII.c | 43 ++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index da2b8c3..ed3c0d1 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -1063,30 +1063,28 @@ extern "C" {
       if (nrowned) {        
 	idx = 0;
 	while ((mf = MSet_Next_Entry(side_sets_glob[i],&idx))) {
-          if (MF_PType(mf) == PGHOST &&  !MF_OnParBoundary(mf)) continue;
-
 	  List_ptr fregs = MF_Regions(mf);
 
 	  if (!fregs || List_Num_Entries(fregs) == 0)
 	    MSTK_Report("MESH_ExportToEXODUSII",
 			"Standalone face with no regions in side set",
 			MSTK_FATAL);
-	  mr = List_Entry(fregs,0);
 
-#ifdef MSTK_HAVE_MPI
-          if (comm && MR_PType(mr) == PGHOST) {
-            if (List_Num_Entries(fregs) > 1)
-              mr = List_Entry(fregs,1);  /* at least 1 region should be owned */
-            else  // First check in loop should prevent it from coming here
-              MSTK_Report("MESH_ExportToExodusII", "Trying to write out ghost side set face thats not on the parallel boundary", MSTK_FATAL);
+          /* Write the side with respect to a region that is in the
+             file (ghost regions are not) */
+
+          mr = NULL;
+          for (k = 0; k < List_Num_Entries(fregs) && !mr; k++)
+            if (elem_id[MR_ID(List_Entry(fregs,k))-1])
+              mr = List_Entry(fregs,k);
+
+          if (!mr) {
+            List_Delete(fregs);
+            continue;
           }
-#endif
 
           elem_list[nsides] = elem_id[MR_ID(mr)-1];
-          if (elem_list[nsides] == 0)
-            MSTK_Report("MESH_ExportToExodusII","Invalid Exodus II element ID",MSTK_ERROR);
 
-	  
           /* Rather than look at the real element type of the region,
              we need to see what it will be classified as in the
              Exodus II file */
@@ -1128,12 +1126,19 @@ extern "C" {
 	    MSTK_Report("MESH_ExportToEXODUSII",
 			"Standalone edge with no faces in side set",
 			MSTK_FATAL);
-	  mf = List_Entry(efaces,0);
 
-#ifdef MSTK_HAVE_MPI
-          if (comm && MF_PType(mf) == PGHOST)
-            mf = List_Entry(efaces,1);  /* at least 1 face should be owned */
-#endif
+          /* Write the side with respect to a face that is in the
+             file (ghost faces are not) */
+
+          mf = NULL;
+          for (k = 0; k < List_Num_Entries(efaces) && !mf; k++)
+            if (elem_id[MF_ID(List_Entry(efaces,k))-1])
+              mf = List_Entry(efaces,k);
+
+          if (!mf) {
+            List_Delete(efaces);
+            continue;
+          }
 
 	  /* Since elements will be read back from the Exodus II file
 	     element block by element block, we have to jump through
@@ -1141,8 +1146,6 @@ extern "C" {
 	     it is read */
 
           elem_list[nsides] = elem_id[MF_ID(mf)-1];
-          if (elem_list[nsides] == 0)
-            MSTK_Report("MESH_ExportToExodusII","Invalid Exodus II element ID",MSTK_ERROR);
 	  
           int lid = ME_LocalID_in_Face(me,mf);
           side_list[nsides] = lid+1;
-- 
2.43.0


From e840007ac863c45aef2633a5b5ba3822682e96a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 74/98] fix: take a mesh for planar only if all ranks lie in
 the same plane

The z coordinates of a piece of a surface mesh that happened to lie in a
plane of constant z were lost in its Exodus file.
---
 src/io/MESH_ExportToExodusII.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index ed3c0d1..2520469 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -8,6 +8,7 @@ https://github.com/MeshToolkit/MSTK/blob/master/LICENSE
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <math.h>
 #include <string.h>
 #include <strings.h>
 #include <time.h>
@@ -439,6 +440,25 @@ extern "C" {
 	  break;
 	}
       }
+
+#ifdef MSTK_HAVE_MPI
+      /* A mesh is planar only if the parts on all processors lie in the
+         same plane */
+
+      if (numprocs > 1) {
+        double zrange_loc[2], zrange[2];
+        zrange_loc[0] = xyz_coord0[2];
+        zrange_loc[1] = -xyz_coord0[2];
+        if (boundary_dim == 2) { /* not planar on this processor */
+          zrange_loc[0] = fmin(xyz_coord0[2],xyz_coord[2]);
+          zrange_loc[1] = -fmax(xyz_coord0[2],xyz_coord[2]);
+        }
+        MPI_Allreduce(zrange_loc,zrange,2,MPI_DOUBLE,MPI_MIN,comm);
+        if (zrange[0] != -zrange[1])
+          boundary_dim = 2;
+      }
+#endif
+
       if (verbose) {
 	if (boundary_dim == 1)
 	  fprintf(stdout,"\nThis is a 2D planar mesh\n");
-- 
2.43.0


From 97dfa0a92d998ce23c0a186c447484609d232428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 75/98] fix: use the rank in the alternative names of Nemesis
 files

A stray argument made every rank read the file of the rank whose number is
the number of digits.
---
 src/io/MESH_ImportFromNemesisI.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/io/MESH_ImportFromNemesisI.c b/src/io/MESH_ImportFromNemesisI.c
index 91c7f85..97858d5 100644
--- a/src/io/MESH_ImportFromNemesisI.c
+++ b/src/io/MESH_ImportFromNemesisI.c
@@ -78,11 +78,8 @@ extern "C" {
       /* Try opening the file with .par.N.n extension */
 
       sprintf(modfilename,"%s.par.%-d.%0*d",basename,numprocs,ndigits,rank);
-      sprintf(modfilename_alt,"%s.par.%-d.%-d",basename,numprocs,ndigits,rank);
+      sprintf(modfilename_alt,"%s.par.%-d.%-d",basename,numprocs,rank);
 
-      fprintf(stderr,"Rank %d filename %s\n",rank,modfilename);
-      
-      
       if ((fp = fopen(modfilename,"r"))) {
         fclose(fp);
         
@@ -98,7 +95,7 @@ extern "C" {
         /* Perhaps the files have a .exo.N.n extension? */
 
         sprintf(modfilename,"%s.exo.%-d.%0*d",basename,numprocs,ndigits,rank);
-        sprintf(modfilename_alt,"%s.exo.%-d.%d",basename,numprocs,ndigits,rank);
+        sprintf(modfilename_alt,"%s.exo.%-d.%d",basename,numprocs,rank);
       
         if ((fp = fopen(modfilename,"r"))) {
           fclose(fp);
@@ -138,7 +135,7 @@ extern "C" {
         ext[0] = '\0'; /* Truncate the basename string at the extension */
 
       sprintf(modfilename,"%s.par.%-d.%0*d",basename,numprocs,ndigits,rank);
-      sprintf(modfilename_alt,"%s.par.%-d.%-d",basename,numprocs,ndigits,rank);
+      sprintf(modfilename_alt,"%s.par.%-d.%-d",basename,numprocs,rank);
       
       if ((fp = fopen(modfilename,"r"))) {
         fclose(fp);
-- 
2.43.0


From 398b643422b47881391223a9261a27987192363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 76/98] fix: read element fields of every block of a range of
 elements in a partial Exodus read

---
 src/io/MESH_ReadExodusII_Partial.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/MESH_ReadExodusII_Partial.c b/src/io/MESH_ReadExodusII_Partial.c
index 74f68ec..8cd613c 100644
--- a/src/io/MESH_ReadExodusII_Partial.c
+++ b/src/io/MESH_ReadExodusII_Partial.c
@@ -1800,6 +1800,7 @@ extern "C" {
 		  if (elblock_max[b] < endel)
 		    endel = elblock_max[b];  /* range spans multiple blocks */
 		  int nelems_cur = endel - begel + 1;
+		  iend = ibeg + nelems_cur - 1;
 
 		  for (int k = 0; k < ncomp; k++) {
 		    varindex2 = varindex + k;
@@ -1864,6 +1865,7 @@ extern "C" {
 		if (elblock_max[b] < endel)
 		  endel = elblock_max[b];  /* range spans multiple blocks */
 		int nelems_cur = endel - begel + 1;
+		iend = ibeg + nelems_cur - 1;
 		
 		/* ex_get_partial_var is using indices starting from 1 */
 		status = ex_get_partial_var(exoid, time_step, EX_ELEM_BLOCK,
-- 
2.43.0


From c8a4989ca3304c99ba31b8ded99de6171000e70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 77/98] fix: do not read past the list of nodes in a partial
 Exodus read

---
 src/io/MESH_ReadExodusII_Partial.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/MESH_ReadExodusII_Partial.c b/src/io/MESH_ReadExodusII_Partial.c
index 8cd613c..219e41a 100644
--- a/src/io/MESH_ReadExodusII_Partial.c
+++ b/src/io/MESH_ReadExodusII_Partial.c
@@ -1986,7 +1986,7 @@ extern "C" {
 	    int ibeg = 0;
 	    while (ibeg < nnodes2read) {
 	      int iend = ibeg;
-	      while (nodes2read[iend+1] == nodes2read[iend]+1) iend++;
+	      while (iend < nnodes2read-1 && nodes2read[iend+1] == nodes2read[iend]+1) iend++;
 	      int nnodes_cur = iend - ibeg + 1;
 
               int begnode = nodes2read[ibeg];
@@ -2034,7 +2034,7 @@ extern "C" {
 	  int ibeg = 0;
 	  while (ibeg < nnodes2read) {
 	    int iend = ibeg;
-	    while (nodes2read[iend+1] == nodes2read[iend]+1) iend++;
+	    while (iend < nnodes2read-1 && nodes2read[iend+1] == nodes2read[iend]+1) iend++;
 	    int nnodes_cur = iend - ibeg + 1;
 
             int begnode = nodes2read[ibeg];
-- 
2.43.0


From 4a4aabd7aa7670bd701440bc96064d2091fe1174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 78/98] fix: set the third coordinate in a partial read of a
 planar Exodus file

---
 src/io/MESH_ReadExodusII_Partial.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/MESH_ReadExodusII_Partial.c b/src/io/MESH_ReadExodusII_Partial.c
index 219e41a..57cf9f3 100644
--- a/src/io/MESH_ReadExodusII_Partial.c
+++ b/src/io/MESH_ReadExodusII_Partial.c
@@ -666,7 +666,7 @@ extern "C" {
     int *local2global_node_map = (int *) malloc((nnodes2read+1)*sizeof(int)); /* local node IDs start from 1 */
     xvals = (double *) malloc(nnodes2read*sizeof(double));
     yvals = (double *) malloc(nnodes2read*sizeof(double));
-    zvals = (double *) malloc(nnodes2read*sizeof(double));
+    zvals = (double *) calloc(nnodes2read,sizeof(double)); /* not read if mesh is 2D */
 
     ibeg = 0;
     while (ibeg < nnodes2read) {
-- 
2.43.0


From c3d78dfefe74f79abd30726617e9b24e0c8b7232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 79/98] fix: classify faces on model faces in a partial Exodus
 read

---
 src/io/MESH_ReadExodusII_Partial.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/MESH_ReadExodusII_Partial.c b/src/io/MESH_ReadExodusII_Partial.c
index 57cf9f3..05fc893 100644
--- a/src/io/MESH_ReadExodusII_Partial.c
+++ b/src/io/MESH_ReadExodusII_Partial.c
@@ -748,7 +748,7 @@ extern "C" {
 	MF_Set_GlobalID(mf, elem_ids[e]);
 #endif
 	MF_Set_GEntID(mf, b);
-	MF_Set_GEntID(mf, 2);
+	MF_Set_GEntDim(mf, 2);
 
 	MSet_Add(matset[ib], mf);
 	MEnt_Set_AttVal(mf, elblockatt, b, 0.0, NULL);  /* necessary? */
@@ -773,7 +773,7 @@ extern "C" {
 	  MF_Set_GlobalID(mf, elem_ids[e]);
 #endif
 	  MF_Set_GEntID(mf, b);
-	  MF_Set_GEntDim(mf, 3);
+	  MF_Set_GEntDim(mf, 2);
 	
 	  MSet_Add(matset[ib], mf);
 	  MEnt_Set_AttVal(mf, elblockatt, b, 0.0, NULL);
-- 
2.43.0


From 0af7fa4b018d01ad46d8a81a0051bb9455e91c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 80/98] fix: weave partially read surface meshes as surface
 meshes

---
 src/io/MESH_ImportFromExodusII.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/MESH_ImportFromExodusII.c b/src/io/MESH_ImportFromExodusII.c
index 9454ee7..22aa6da 100644
--- a/src/io/MESH_ImportFromExodusII.c
+++ b/src/io/MESH_ImportFromExodusII.c
@@ -293,7 +293,11 @@ extern "C" {
 	/* Weave the meshes together to establish interprocessor connectivity */
 	int num_ghost_layers = 1;
 	int input_type = 1;
-	MSTK_Weave_DistributedMeshes(mesh, dim, num_ghost_layers, input_type,
+	/* dim is the spatial dimension of the file - the mesh may be a
+	   surface mesh in 3D */
+	int topodim = (MESH_Num_Regions(mesh) == 0) ? 2 : 3;
+	MPI_Allreduce(MPI_IN_PLACE, &topodim, 1, MPI_INT, MPI_MAX, comm);
+	MSTK_Weave_DistributedMeshes(mesh, topodim, num_ghost_layers, input_type,
 				     comm);
 	
       }
-- 
2.43.0


From 443756b982ed9603350252ef066a97d4b43ed35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 81/98] fix: meshconvert: recognise the .stl and .dx extensions
 it can export to

---
 utils/meshconvert/src/meshconvert.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/meshconvert/src/meshconvert.c b/utils/meshconvert/src/meshconvert.c
index d817bed..14b2668 100644
--- a/utils/meshconvert/src/meshconvert.c
+++ b/utils/meshconvert/src/meshconvert.c
@@ -42,6 +42,10 @@ MshFmt getFormat(char *filename) {
     return CGNS;
   else if (len > 4 && strncmp(&(filename[len-4]),".off",4) == 0)
     return OFF;
+  else if (len > 4 && strncmp(&(filename[len-4]),".stl",4) == 0)
+    return STL;
+  else if (len > 3 && strncmp(&(filename[len-3]),".dx",3) == 0)
+    return DX;
   else {
     fprintf(stderr,"Unrecognized mesh format\n");
     fprintf(stderr,"Recognized mesh formats for import: MSTK, GMV, ExodusII, NemesisI\n");
-- 
2.43.0


From ec50c66c47766822273265aa8094adc1dc78939d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 82/98] fix: meshconvert, exoatt: --parallel-check=1 turns the
 parallel check on

---
 utils/exoatt/src/exoatt.c           | 2 +-
 utils/meshconvert/src/meshconvert.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/exoatt/src/exoatt.c b/utils/exoatt/src/exoatt.c
index c2c7e67..41e7342 100644
--- a/utils/exoatt/src/exoatt.c
+++ b/utils/exoatt/src/exoatt.c
@@ -98,7 +98,7 @@ int main(int argc, char *argv[]) {
       else if (strncmp(argv[i],"--parallel-check",16) == 0 ||
                strncmp(argv[i],"--parallel_check",16) == 0) {
         if (strncmp(argv[i]+17,"y",1) == 0 ||
-            strncmp(argv[i]+17,"1",1) == 1)
+            strncmp(argv[i]+17,"1",1) == 0)
           parallel_check = 1;
         else if (strncmp(argv[i]+17,"n",13) == 0 ||
                  strncmp(argv[i]+17,"0",13) == 0) 
diff --git a/utils/meshconvert/src/meshconvert.c b/utils/meshconvert/src/meshconvert.c
index 14b2668..b160a52 100644
--- a/utils/meshconvert/src/meshconvert.c
+++ b/utils/meshconvert/src/meshconvert.c
@@ -153,7 +153,7 @@ int main(int argc, char *argv[]) {
       else if (strncmp(argv[i],"--parallel-check",16) == 0 ||
                strncmp(argv[i],"--parallel_check",16) == 0) {
         if (strncmp(argv[i]+17,"y",1) == 0 ||
-            strncmp(argv[i]+17,"1",1) == 1)
+            strncmp(argv[i]+17,"1",1) == 0)
           parallel_check = 1;
         else if (strncmp(argv[i]+17,"n",13) == 0 ||
                  strncmp(argv[i]+17,"0",13) == 0) 
-- 
2.43.0


From 14ece853665c19e9e2f69d56f7f4be4ea2013d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 83/98] fix: meshconvert: pieces in Exodus format are read
 without --weave=y

---
 utils/meshconvert/src/meshconvert.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/utils/meshconvert/src/meshconvert.c b/utils/meshconvert/src/meshconvert.c
index b160a52..a006d1b 100644
--- a/utils/meshconvert/src/meshconvert.c
+++ b/utils/meshconvert/src/meshconvert.c
@@ -188,9 +188,6 @@ int main(int argc, char *argv[]) {
   /* what format is the input mesh file in? */
   strcpy(infname,argv[argc-2]);
   inmeshfmt = getFormat(infname);
-  if (inmeshfmt == EXODUSII && weave == 1) {
-    inmeshfmt = NEMESISI;
-  }
 
   /* what format should the output mesh file be in? */
   strcpy(outfname,argv[argc-1]);
@@ -238,7 +235,8 @@ int main(int argc, char *argv[]) {
 	  MSTK_Report("meshconvert",
 		      "Have serial and parallel input files but NEITHER partition nor weave options were specifeid. Partitioning serial file", MSTK_WARN);
 	partition = 1;
-      }
+      } else if (weave > 0)  /* only weaving was asked for */
+	serial_file = 0;
       
     } else if (serial_file || parallel_file) {
       if (serial_file && partition == -1)  /* serial file and partition option not set */
@@ -378,6 +376,7 @@ int main(int argc, char *argv[]) {
 
     char parfilename[256];
     ok = 0;
+    if (inmeshfmt == EXODUSII) inmeshfmt = NEMESISI;
     switch(inmeshfmt) {
     case MSTK: {
       if (rank == 0)
-- 
2.43.0


From 758383bec6b037959ac20c5c1085bd9caf950da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 84/98] fix: meshconvert: report a failed import or export in
 the exit status

---
 utils/meshconvert/src/meshconvert.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/utils/meshconvert/src/meshconvert.c b/utils/meshconvert/src/meshconvert.c
index a006d1b..f095942 100644
--- a/utils/meshconvert/src/meshconvert.c
+++ b/utils/meshconvert/src/meshconvert.c
@@ -270,6 +270,10 @@ int main(int argc, char *argv[]) {
 
       mesh = MESH_New(F1);
       ok = MESH_ImportFromFile(mesh,infname,"exodusii",opts,comm);
+      if (!ok) {
+	fprintf(stderr,"Failed\n");
+	exit(-1);
+      }
 
     } else {
 
@@ -489,8 +493,13 @@ int main(int argc, char *argv[]) {
   if (outmeshfmt == MSTK) {
     if (rank == 0)
       fprintf(stderr,"Writing mesh to MSTK file...");
-    MESH_WriteToFile(mesh,outfname,MESH_RepType(mesh),comm);
-    fprintf(stderr,"Done\n");
+    ok = MESH_WriteToFile(mesh,outfname,MESH_RepType(mesh),comm);
+    if (ok)
+      fprintf(stderr,"Done\n");
+    else {
+      fprintf(stderr,"Failed\n");
+      exit(-1);
+    }
   }
   else {
     switch(outmeshfmt) {
@@ -507,14 +516,17 @@ int main(int argc, char *argv[]) {
     case CGNS:
       if (rank == 0)
         fprintf(stderr,"Cannot export to CGNS format. ");
+      ok = 0;
       break;
     case VTK:
       if (rank == 0)
         fprintf(stderr,"Cannot export to VTK format. ");
+      ok = 0;
       break;
     case AVSUCD:
       if (rank == 0)
         fprintf(stderr,"Cannot export to AVS format. ");
+      ok = 0;
       break;
     case X3D:
       if (rank == 0)
@@ -539,6 +551,7 @@ int main(int argc, char *argv[]) {
     default:
       if (rank == 0)
         fprintf(stderr,"Cannot export mesh to unrecognized format. \n");      
+      ok = 0;
     }
 
     if (rank == 0) {
-- 
2.43.0


From a994a0178408f88f649bff73089d357528a35313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 85/98] fix: tri2quad, tet2hex: report a failed export in the
 exit status

---
 utils/tet2hex/src/tet2hex.c   | 10 ++++++++--
 utils/tri2quad/src/tri2quad.c | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/utils/tet2hex/src/tet2hex.c b/utils/tet2hex/src/tet2hex.c
index 4286cac..7a79aab 100644
--- a/utils/tet2hex/src/tet2hex.c
+++ b/utils/tet2hex/src/tet2hex.c
@@ -202,8 +202,13 @@ int main(int argc, char *argv[]) {
   if (outmeshformat == MSTK) {
     if (rank == 0)
       fprintf(stderr,"Writing mesh to MSTK file...");
-    MESH_WriteToFile(hexmesh, outfname, MESH_RepType(mesh), comm);
-    fprintf(stderr,"Done\n");
+    ok = MESH_WriteToFile(hexmesh, outfname, MESH_RepType(mesh), comm);
+    if (ok)
+      fprintf(stderr,"Done\n");
+    else {
+      fprintf(stderr,"Failed\n");
+      exit(-1);
+    }
   }
   else {
     switch(outmeshformat) {
@@ -226,6 +231,7 @@ int main(int argc, char *argv[]) {
     default:
       if (rank == 0)
         fprintf(stderr,"Cannot export mesh to unrecognized format. \n");      
+      ok = 0;
     }
 
     if (rank == 0) {
diff --git a/utils/tri2quad/src/tri2quad.c b/utils/tri2quad/src/tri2quad.c
index 2e5f2f5..54652a4 100644
--- a/utils/tri2quad/src/tri2quad.c
+++ b/utils/tri2quad/src/tri2quad.c
@@ -197,8 +197,13 @@ int main(int argc, char *argv[]) {
   if (outmeshformat == MSTK) {
     if (rank == 0)
       fprintf(stderr,"Writing mesh to MSTK file...");
-    MESH_WriteToFile(quadmesh, outfname, MESH_RepType(mesh), comm);
-    fprintf(stderr,"Done\n");
+    ok = MESH_WriteToFile(quadmesh, outfname, MESH_RepType(mesh), comm);
+    if (ok)
+      fprintf(stderr,"Done\n");
+    else {
+      fprintf(stderr,"Failed\n");
+      exit(-1);
+    }
   }
   else {
     switch(outmeshformat) {
@@ -221,6 +226,7 @@ int main(int argc, char *argv[]) {
     default:
       if (rank == 0)
         fprintf(stderr,"Cannot export mesh to unrecognized format. \n");      
+      ok = 0;
     }
 
     if (rank == 0) {
-- 
2.43.0


From 01687a6108735ed66df8da778cb5ce94d3e27ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 86/98] fix: exoatt: export the attributes it was asked to
 attach

---
 utils/exoatt/src/exoatt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/exoatt/src/exoatt.c b/utils/exoatt/src/exoatt.c
index 41e7342..0f84a0b 100644
--- a/utils/exoatt/src/exoatt.c
+++ b/utils/exoatt/src/exoatt.c
@@ -206,7 +206,7 @@ int main(int argc, char *argv[]) {
 #endif
 
   fprintf(stderr,"\nExporting mesh to ExodusII format...");
-  ok = MESH_ExportToFile(mesh,outfname,"exodusii",-1,NULL,NULL,comm);
+  ok = MESH_ExportToFile(mesh,outfname,"exodusii",0,NULL,NULL,comm);
 
   if (ok)
     fprintf(stderr,"Done\n");
-- 
2.43.0


From 31d7cf7c36da83342406b7befdd75ff492d1cc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 87/98] fix: exoatt: import, partition and attach data on all
 processors

---
 utils/exoatt/src/exoatt.c | 102 +++++++++++++++++++++-----------------
 1 file changed, 56 insertions(+), 46 deletions(-)

diff --git a/utils/exoatt/src/exoatt.c b/utils/exoatt/src/exoatt.c
index 0f84a0b..0dec8c8 100644
--- a/utils/exoatt/src/exoatt.c
+++ b/utils/exoatt/src/exoatt.c
@@ -115,19 +115,19 @@ int main(int argc, char *argv[]) {
       else
         fprintf(stderr,"Unrecognized option...Ignoring\n");
     }
+  }
 
-    /* If running on multiple processors, but partition is 0, assume
-       that you are partitioning a serial mesh */
-
-    if (numprocs > 1 && partition == 0) {
-      MSTK_Report(progname,
-                  "Running on multiple processors but partition option not specified",
-                  MSTK_WARN);
-      MSTK_Report(progname,
-                  "Output mesh will be partitioned into as many parts as processors",
-                  MSTK_WARN);
-      partition = 1; 
-    }
+  /* If running on multiple processors, but partition is 0, assume
+     that you are partitioning a serial mesh */
+
+  if (numprocs > 1 && partition == 0) {
+    MSTK_Report(progname,
+                "Running on multiple processors but partition option not specified",
+                MSTK_WARN);
+    MSTK_Report(progname,
+                "Output mesh will be partitioned into as many parts as processors",
+                MSTK_WARN);
+    partition = 1; 
   }
 
   strcpy(infname,argv[argc-2]);
@@ -154,44 +154,39 @@ int main(int argc, char *argv[]) {
 
   mesh = MESH_New(F1);
 
-#ifdef MSTK_HAVE_MPI
-  if (rank == 0) {
-#endif
+  /* Importing, partitioning and attaching the new data concern all
+     processors */
 
-    int opts[5]={0,0,0,0,0};
+  int opts[5]={0,0,0,0,0};
   
-    ok = 0;
+  ok = 0;
+  if (rank == 0)
     fprintf(stderr,"Importing mesh from ExodusII file...");
-    opts[0] = (partition > 0) ? 1 : 0;
-    opts[1] = (partition > 0) ? partition-1 : 0;
-    opts[2] = 1; /* 1 layer of ghosts */
-    opts[3] = partmethod;
-    ok = MESH_ImportFromFile(mesh,infname,"exodusii",opts,comm);
-    if (ok)
-      fprintf(stderr,"done\n\n");
-    else {
-      MSTK_Report(progname,"Failed\n",MSTK_FATAL);
-    }
+  opts[0] = (partition > 0) ? 1 : 0;
+  opts[1] = (partition > 0) ? partition-1 : 0;
+  opts[2] = 1; /* 1 layer of ghosts */
+  opts[3] = partmethod;
+  ok = MESH_ImportFromFile(mesh,infname,"exodusii",opts,comm);
+  if (!ok)
+    MSTK_Report(progname,"Failed\n",MSTK_FATAL);
+  else if (rank == 0)
+    fprintf(stderr,"done\n\n");
     
 #ifdef MSTK_HAVE_MPI
-    MESH_Enable_GlobalIDSearch(mesh);
+  MESH_Enable_GlobalIDSearch(mesh);
 #endif
     
-    /* Read in the attributes and attach it to the mesh */
-    if (attfile_given)
-      import_attributes(mesh, attfname);
+  /* Read in the attributes and attach it to the mesh */
+  if (attfile_given)
+    import_attributes(mesh, attfname);
 
 
-    /* Import element set definitions and create in the mesh */
-    if (setfile_given)
-      import_sets(mesh, setfname);
+  /* Import element set definitions and create in the mesh */
+  if (setfile_given)
+    import_sets(mesh, setfname);
 
 #ifdef MSTK_HAVE_MPI
-    MESH_Disable_GlobalIDSearch(mesh);
-#endif
-    
-#ifdef MSTK_HAVE_MPI
-  }
+  MESH_Disable_GlobalIDSearch(mesh);
 #endif
 
 
@@ -257,6 +252,11 @@ void import_attributes(Mesh_ptr mesh, char *attfname) {
   MPI_Comm_rank(MPI_COMM_WORLD, &rank);
 
   if (nprocs > 1) {
+    /* ghosts are counted by their owners */
+    nvertlocal -= MESH_Num_GhostVertices(mesh);
+    ncelllocal -= (celldim == 2) ? MESH_Num_GhostFaces(mesh) :
+      MESH_Num_GhostRegions(mesh);
+
     MPI_Allreduce(&nvertlocal, &nvertglobal, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
 
     MPI_Allreduce(&ncelllocal, &ncellglobal, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
@@ -373,7 +373,7 @@ void import_attributes(Mesh_ptr mesh, char *attfname) {
             if (mf)
 	      MEnt_Set_AttVal(mf,att,0,attval,NULL);
             else {
-	      if (nprocs > 1) {
+	      if (nprocs == 1) {
 		sprintf(mesg,"Cannot find mesh element with ID = %-d",entid);
 		MSTK_Report(progname,mesg,MSTK_FATAL);
 	      }
@@ -417,6 +417,11 @@ void import_sets(Mesh_ptr mesh, char *setfname) {
   MPI_Comm_rank(MPI_COMM_WORLD, &rank);
 
   if (nprocs > 1) {
+    /* ghosts are counted by their owners */
+    nvertlocal -= MESH_Num_GhostVertices(mesh);
+    ncelllocal -= (celldim == 2) ? MESH_Num_GhostFaces(mesh) :
+      MESH_Num_GhostRegions(mesh);
+
     MPI_Allreduce(&nvertlocal, &nvertglobal, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
 
     MPI_Allreduce(&ncelllocal, &ncellglobal, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
@@ -496,16 +501,21 @@ void import_sets(Mesh_ptr mesh, char *setfname) {
             status = fscanf(fp,"%d",&(face_verts[k]));
           
           MVertex_ptr fverts[MAXPV2];
+          int nfound = 0;
           for (k = 0; k < num_face_verts; k++) {
             fverts[k] = (nprocs > 1) ? MESH_VertexFromGlobalID(mesh,face_verts[k]) : MESH_VertexFromID(mesh,face_verts[k]);
-	    if (!fverts[k])
+	    if (fverts[k])
+	      nfound++;
+	    else if (nprocs == 1)
 	      MSTK_Report(progname,"Cannot find vertex of face when assigning face sets",MSTK_FATAL);
           }
           
-          mf = MVs_CommonFace(num_face_verts,fverts);
+          /* a face of another processor will not be found on this one */
+          mf = (nfound == num_face_verts) ?
+	    MVs_CommonFace(num_face_verts,fverts) : NULL;
           if (mf)
             MSet_Add(mset,mf);
-          else {
+          else if (nprocs == 1) {
             MSTK_Report(progname,"Sideset face not found",MSTK_WARN);
             fprintf(stderr,"Did not find common face for verts ");
             for (k = 0; k < num_face_verts; k++)
@@ -530,10 +540,10 @@ void import_sets(Mesh_ptr mesh, char *setfname) {
 	    MESH_VertexFromID(mesh,edge_verts[0]);
           ev[1] = (nprocs > 1) ? MESH_VertexFromGlobalID(mesh,edge_verts[1]) :
 	    MESH_VertexFromID(mesh,edge_verts[1]);          
-          me = MVs_CommonEdge(ev[0],ev[1]);
+          me = (ev[0] && ev[1]) ? MVs_CommonEdge(ev[0],ev[1]) : NULL;
           if (me) 
             MSet_Add(mset,me);
-          else {
+          else if (nprocs == 1) {
             MSTK_Report(progname,"Sideset edge not found",MSTK_WARN);
             fprintf(stderr,"Did not find common edge between vertices %-d %-d",
                     edge_verts[0],edge_verts[1]);
@@ -582,7 +592,7 @@ void import_sets(Mesh_ptr mesh, char *setfname) {
 	  if (mf)
 	    MSet_Add(mset,mf);
 	  else {
-	    if (nprocs > 1) {
+	    if (nprocs == 1) {
 	      sprintf(mesg,"Cannot find mesh face with ID = %-d",entid);
 	      MSTK_Report(progname,mesg,MSTK_FATAL);
 	    }
-- 
2.43.0


From ac326604252b5064dafa58df2db2ba2ecb051dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:09 +0000
Subject: [PATCH 88/98] fix: chkmesh: name the file that will show the bad
 elements

---
 utils/chkmesh/src/chkmesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/chkmesh/src/chkmesh.c b/utils/chkmesh/src/chkmesh.c
index 677b9cd..df29f47 100644
--- a/utils/chkmesh/src/chkmesh.c
+++ b/utils/chkmesh/src/chkmesh.c
@@ -31,7 +31,7 @@ int main(int argc, char **argv) {
   double (*bad_tet_coords)[4][3];
   int (*bad_tet_info)[4];
   int k;
-  char infname[256], gmvfname[256], mname[256];
+  char infname[256], gmvfname[256]="badelems.gmv", mname[256];
   Mesh_ptr mesh;
   MRegion_ptr mr;
   MFace_ptr rface;
-- 
2.43.0


From 0b30d89c81ebb82b8d38dd8ffa6de0dc45eab8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 89/98] fix: MESH_Copy of a distributed mesh left the copy
 without ghost and overlap lists

---
 src/base/MESH_Copy.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/base/MESH_Copy.c b/src/base/MESH_Copy.c
index 1036ea0..c301dae 100644
--- a/src/base/MESH_Copy.c
+++ b/src/base/MESH_Copy.c
@@ -7,8 +7,11 @@ https://github.com/MeshToolkit/MSTK/blob/master/LICENSE
 */
 
 
+#define _H_Mesh_Private
+
 #include <stdlib.h>
 #include "string.h"
+#include "Mesh.h"
 #include "MSTK.h"
 #include "MSTK_private.h"
 
@@ -418,6 +421,18 @@ extern "C" {
 
     MESH_Reset_Cached_MaxIDs(dstmesh);
 
+#ifdef MSTK_HAVE_MPI
+    /* A copy of a partition of a distributed mesh is such a partition too -
+       it needs its own lists of ghost and overlap entities. The adjacencies
+       between partitions are found when they are first needed */
+
+    if (srcmesh->numpartns)
+      MESH_Set_Prtn(dstmesh,srcmesh->mypartn,srcmesh->numpartns);
+
+    if (MESH_Num_GhostVertices(srcmesh) || MESH_Num_OverlapVertices(srcmesh))
+      MESH_Build_GhostLists(dstmesh,MESH_Num_Regions(dstmesh) ? 3 : 2);
+#endif
+
     return 1;
   }
 
-- 
2.43.0


From cd9a39f4a87d2090d3596ecd52dacd1f90a111a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 90/98] fix: MSTK_Weave_DistributedMeshes leaves domain
 boundary vertices flagged as on the partition boundary

Every vertex on the boundary of a partition was flagged as a candidate and
those that turned out to be on no other partition stayed flagged, so that
e.g. FLAG X3D export listed them as shared nodes.
---
 src/par/MESH_AssignGlobalIDs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/par/MESH_AssignGlobalIDs.c b/src/par/MESH_AssignGlobalIDs.c
index 9c165f3..50ed120 100644
--- a/src/par/MESH_AssignGlobalIDs.c
+++ b/src/par/MESH_AssignGlobalIDs.c
@@ -366,10 +366,11 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
     mv = List_Entry(boundary_verts,i);
     if(MV_PType(mv) == PGHOST) 
       MV_Set_GlobalID(mv,vertex_ov_global_id[MV_MasterParID(mv)*max_nbv+id_on_ov_list[i]]);
+    else if(MV_PType(mv) != POVERLAP)
+      MV_Unflag_OnParBoundary(mv);  /* no other partition has it */
   }
 
 
-
   List_Delete(boundary_verts);
   free(global_mesh_info);
   free(vertex_ov_label);
-- 
2.43.0


From f3ac83e2ee87ab256a3a48fa285bc77ea6246b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 91/98] fix: weaving meshes with known neighbors loses shared
 edges and faces

Vertices whose master was given (FLAG X3D import) were not flagged as being
on the partition boundary, vertices mastered by a higher rank got the last
partition having them as the master, and edges and faces were exchanged only
between a partition and the masters of its vertices if those had a lower
rank. The shared entities that were missed ended up duplicated.
---
 src/par/MESH_AssignGlobalIDs_point.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/par/MESH_AssignGlobalIDs_point.c b/src/par/MESH_AssignGlobalIDs_point.c
index 8d92264..7dcc690 100644
--- a/src/par/MESH_AssignGlobalIDs_point.c
+++ b/src/par/MESH_AssignGlobalIDs_point.c
@@ -50,6 +50,14 @@ extern "C" {
   nf = MESH_Num_Faces(submesh);
   nr = MESH_Num_Regions(submesh);
   MESH_AssignGlobalIDs_Vertex_p2p(submesh,comm);
+
+  /* Partitions are known to be adjacent so far only if one is the
+     master of a vertex of the other but edges and faces can be shared
+     by any two partitions that have a vertex in common, and their
+     master is the lower of the two */
+  MESH_BuildConnection(submesh,topodim,comm);
+  MESH_Get_OverlapAdj_From_GhostAdj(submesh,comm);
+
   MESH_AssignGlobalIDs_Edge_p2p(submesh,comm);
   if (topodim == 3)
     MESH_AssignGlobalIDs_Region_p2p(submesh,comm);
@@ -222,8 +230,8 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
             if (MV_PType(mv) != PGHOST) {
               MV_Set_PType(mv,PGHOST);
               MV_Set_MasterParID(mv,i);
-              MV_Flag_OnParBoundary(mv);
             }
+            MV_Flag_OnParBoundary(mv);
 
             if (MV_MasterParID(mv) == i) {
               /* Whether the master partition ID was set above or
@@ -294,8 +302,10 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
                                   compareCoorDouble);
           if (loc) {  // new match
             iloc = (int)(loc - recv_list_coor)/3;
-            MV_Set_PType(mv,PGHOST);
-            MV_Set_MasterParID(mv,i);
+            if (MV_PType(mv) != PGHOST) {
+              MV_Set_PType(mv,PGHOST);
+              MV_Set_MasterParID(mv,i);
+            }
             MV_Flag_OnParBoundary(mv);
 
             if (MV_MasterParID(mv) == i) {
-- 
2.43.0


From 0fc199df6dd2ab5fea336fe54dc26ec82b53c599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:05 +0000
Subject: [PATCH 92/98] fix: lookups by ID after deleting a ghost entity used
 lists with gaps

MESH_Rem_Ghost* takes the entity out of the mesh's list like MESH_Rem_*
but did not flag the lists as unsorted, so a later MESH_*FromID searched
a list with NULL entries.
---
 src/base/Mesh.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index be66690..87ce2ae 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -2173,6 +2173,7 @@ void MESH_Rem_GhostVertex(Mesh_ptr mesh, MVertex_ptr v) {
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostVertex","Vertex not found in ghost vertex list",MSTK_FATAL);
 
+  MESH_Flag_EntLists_As_Unsorted(mesh);
   MESH_Mark_ParallelAdj_Stale(mesh);
 }    
      
@@ -2210,6 +2211,7 @@ void MESH_Rem_GhostEdge(Mesh_ptr mesh, MEdge_ptr e) {
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostEdge","Edge not found in ghost edge list",MSTK_FATAL);
 
+  MESH_Flag_EntLists_As_Unsorted(mesh);
   MESH_Mark_ParallelAdj_Stale(mesh);
 }    
      
@@ -2247,6 +2249,7 @@ void MESH_Rem_GhostFace(Mesh_ptr mesh, MFace_ptr f){
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostFace","Face not found in ghost list",MSTK_FATAL);
 
+  MESH_Flag_EntLists_As_Unsorted(mesh);
   MESH_Mark_ParallelAdj_Stale(mesh);
 }    
      
@@ -2283,6 +2286,7 @@ void MESH_Rem_GhostRegion(Mesh_ptr mesh, MRegion_ptr r){
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostRegion","Region not found in ghost region list",MSTK_FATAL);
 
+  MESH_Flag_EntLists_As_Unsorted(mesh);
   MESH_Mark_ParallelAdj_Stale(mesh);
 }    
 
-- 
2.43.0


From d2462d01f989be8952ef2da6f72a645cf1c08459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:05 +0000
Subject: [PATCH 93/98] fix: restoring ghost and overlap entities did not put
 them back in the mesh

M*_Restore put a ghost entity only in the ghost list and not in the
mesh, and an overlap entity only in the mesh and not in the overlap
list. The lists of ghost and overlap entities are now also sorted when
the parallel adjacency is updated, as the update routines need.
---
 src/base/MEdge.c           | 6 ++++--
 src/base/MFace.c           | 6 ++++--
 src/base/MRegion.c         | 6 ++++--
 src/base/MVertex.c         | 8 +++++---
 src/par/MESH_ParallelAdj.c | 4 ++++
 5 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/base/MEdge.c b/src/base/MEdge.c
index b61f41c..745c122 100644
--- a/src/base/MEdge.c
+++ b/src/base/MEdge.c
@@ -82,12 +82,14 @@ extern "C" {
 
     MEnt_Rem_DelFlag((MEntity_ptr) e);
 
+    MESH_Add_Edge(mesh,e);
 #ifdef MSTK_HAVE_MPI
+    /* also put it back in the list it was taken out of on deletion */
     if (ME_PType(e) == PGHOST)
       MESH_Add_GhostEdge(mesh,e);
-    else
+    else if (ME_PType(e) == POVERLAP)
+      MESH_Add_OverlapEdge(mesh,e);
 #endif
-      MESH_Add_Edge(mesh,e);
 
     (*ME_Restore_jmp[RTYPE])(e);
   }
diff --git a/src/base/MFace.c b/src/base/MFace.c
index 757c30e..788b29e 100644
--- a/src/base/MFace.c
+++ b/src/base/MFace.c
@@ -81,12 +81,14 @@ extern "C" {
 
     MEnt_Rem_DelFlag((MEntity_ptr) f);
 
+    MESH_Add_Face(mesh,f);
 #ifdef MSTK_HAVE_MPI
+    /* also put it back in the list it was taken out of on deletion */
     if (MF_PType(f) == PGHOST)
       MESH_Add_GhostFace(mesh,f);
-    else
+    else if (MF_PType(f) == POVERLAP)
+      MESH_Add_OverlapFace(mesh,f);
 #endif
-      MESH_Add_Face(mesh,f);
 
     (*MF_Restore_jmp[RTYPE])(f);
   }
diff --git a/src/base/MRegion.c b/src/base/MRegion.c
index 69d2871..25e5afe 100644
--- a/src/base/MRegion.c
+++ b/src/base/MRegion.c
@@ -85,12 +85,14 @@ extern "C" {
 
     MEnt_Rem_DelFlag((MEntity_ptr) r);
 
+    MESH_Add_Region(mesh,r);
 #ifdef MSTK_HAVE_MPI
+    /* also put it back in the list it was taken out of on deletion */
     if (MR_PType(r) == PGHOST)
       MESH_Add_GhostRegion(mesh,r);
-    else
+    else if (MR_PType(r) == POVERLAP)
+      MESH_Add_OverlapRegion(mesh,r);
 #endif
-      MESH_Add_Region(mesh,r);
 
     (*MR_Restore_jmp[RTYPE])(r);
   }
diff --git a/src/base/MVertex.c b/src/base/MVertex.c
index 5de6bd2..8623eca 100644
--- a/src/base/MVertex.c
+++ b/src/base/MVertex.c
@@ -83,12 +83,14 @@ extern "C" {
 
     MEnt_Rem_DelFlag((MEntity_ptr) v);
 
+    MESH_Add_Vertex(mesh,v);
 #ifdef MSTK_HAVE_MPI
-    if (ME_PType(v) == PGHOST)
+    /* also put it back in the list it was taken out of on deletion */
+    if (MV_PType(v) == PGHOST)
       MESH_Add_GhostVertex(mesh,v);
-    else
+    else if (MV_PType(v) == POVERLAP)
+      MESH_Add_OverlapVertex(mesh,v);
 #endif
-      MESH_Add_Vertex(mesh,v);
 
     (*MV_Restore_jmp[RTYPE])(v);
   }
diff --git a/src/par/MESH_ParallelAdj.c b/src/par/MESH_ParallelAdj.c
index 96abfea..6107def 100644
--- a/src/par/MESH_ParallelAdj.c
+++ b/src/par/MESH_ParallelAdj.c
@@ -41,6 +41,10 @@ extern "C" {
   MPI_Comm_size(comm,&numprtns);
 
   if (numprtns == 1) return 1;
+
+  /* Entities restored since the lists were made are at the end of the
+     lists - the update routines expect them to be sorted by global ID */
+  MESH_Sort_GhostLists(mesh,compareGlobalID);
   
   /* set ghost adjacencies */
   idx = 0;
-- 
2.43.0


From 3d01679c804f6a9ae465353a8a5a3f50080fdc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:03 +0000
Subject: [PATCH 94/98] fix: face templates of polyhedral regions were stored
 at the wrong place in R1 and R2 meshes

---
 src/base/MR_Vertex_Funcs_R1.c | 9 +++++----
 src/base/MR_Vertex_Funcs_R2.c | 9 +++++----
 src/base/MRegion_R1.c         | 4 ++--
 src/base/MRegion_R2.c         | 4 ++--
 4 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/base/MR_Vertex_Funcs_R1.c b/src/base/MR_Vertex_Funcs_R1.c
index 1166f00..ccf99ee 100644
--- a/src/base/MR_Vertex_Funcs_R1.c
+++ b/src/base/MR_Vertex_Funcs_R1.c
@@ -89,13 +89,14 @@ extern "C" {
     if (nf && rfvtemplate) {
       adj->fvtemplate = (int **) malloc((nf+1)*sizeof(int *));
       adj->fvtemplate[0] = (int *) malloc(1*sizeof(int));
+      adj->fvtemplate[0][0] = nf;
       for (i = 0; i < nf; i++) {
 	int j, nfv;
 	nfv = rfvtemplate[i][0];
-	adj->fvtemplate[i] = (int *) malloc((nfv+1)*sizeof(int));
-	adj->fvtemplate[i][0] = nfv;
+	adj->fvtemplate[i+1] = (int *) malloc((nfv+1)*sizeof(int));
+	adj->fvtemplate[i+1][0] = nfv;
 	for (j = 0; j < nfv; j++)
-	  adj->fvtemplate[i][j+1] = rfvtemplate[i][j+1];
+	  adj->fvtemplate[i+1][j+1] = rfvtemplate[i][j+1];
       }
 
       switch (nf) {
@@ -118,7 +119,7 @@ extern "C" {
         for (i = 0; i < nf; i++)
           if (rfvtemplate[i][0] == 3)
             ntris++;
-          else if (rfvtemplate[i][1] == 4)
+          else if (rfvtemplate[i][0] == 4)
             nquads++;
 
         if (nquads == 3 && ntris == 2)
diff --git a/src/base/MR_Vertex_Funcs_R2.c b/src/base/MR_Vertex_Funcs_R2.c
index cb3dab0..0cde9b2 100644
--- a/src/base/MR_Vertex_Funcs_R2.c
+++ b/src/base/MR_Vertex_Funcs_R2.c
@@ -88,13 +88,14 @@ extern "C" {
     if (nf && rfvtemplate) {
       adj->fvtemplate = (int **) malloc((nf+1)*sizeof(int *));
       adj->fvtemplate[0] = (int *) malloc(1*sizeof(int));
+      adj->fvtemplate[0][0] = nf;
       for (i = 0; i < nf; i++) {
 	int j, nfv;
 	nfv = rfvtemplate[i][0];
-	adj->fvtemplate[i] = (int *) malloc((nfv+1)*sizeof(int));
-	adj->fvtemplate[i][0] = nfv;
+	adj->fvtemplate[i+1] = (int *) malloc((nfv+1)*sizeof(int));
+	adj->fvtemplate[i+1][0] = nfv;
 	for (j = 0; j < nfv; j++)
-	  adj->fvtemplate[i][j+1] = rfvtemplate[i][j+1];
+	  adj->fvtemplate[i+1][j+1] = rfvtemplate[i][j+1];
       }
 
       switch (nf) {
@@ -117,7 +118,7 @@ extern "C" {
         for (i = 0; i < nf; i++)
           if (rfvtemplate[i][0] == 3)
             ntris++;
-          else if (rfvtemplate[i][1] == 4)
+          else if (rfvtemplate[i][0] == 4)
             nquads++;
 
         if (nquads == 3 && ntris == 2)
diff --git a/src/base/MRegion_R1.c b/src/base/MRegion_R1.c
index eec17c3..3ee81f1 100644
--- a/src/base/MRegion_R1.c
+++ b/src/base/MRegion_R1.c
@@ -49,7 +49,7 @@ extern "C" {
 	  List_Delete(adj->rvertices);
 	if (adj->fvtemplate) {
 	  int nf = adj->fvtemplate[0][0], i;
-	  for (i = 0; i < nf; i++)
+	  for (i = 0; i <= nf; i++)
 	    free(adj->fvtemplate[i]);
 	  free(adj->fvtemplate);
 	}
@@ -80,7 +80,7 @@ extern "C" {
 	List_Delete(adj->rvertices);
       if (adj->fvtemplate) {
 	int nf = adj->fvtemplate[0][0], i;
-	for (i = 0; i < nf; i++)
+	for (i = 0; i <= nf; i++)
 	  free(adj->fvtemplate[i]);
 	free(adj->fvtemplate);
       }
diff --git a/src/base/MRegion_R2.c b/src/base/MRegion_R2.c
index b210bb9..f5c4bd4 100644
--- a/src/base/MRegion_R2.c
+++ b/src/base/MRegion_R2.c
@@ -55,7 +55,7 @@ extern "C" {
 	  List_Delete(adj->rvertices);
 	if (adj->fvtemplate) {
 	  int nf = adj->fvtemplate[0][0], i;
-	  for (i = 0; i < nf; i++)
+	  for (i = 0; i <= nf; i++)
 	    free(adj->fvtemplate[i]);
 	  free(adj->fvtemplate);
 	}
@@ -95,7 +95,7 @@ extern "C" {
 	List_Delete(adj->rvertices);
       if (adj->fvtemplate) {
 	int nf = adj->fvtemplate[0][0], i;
-	for (i = 0; i < nf; i++)
+	for (i = 0; i <= nf; i++)
 	  free(adj->fvtemplate[i]);
 	free(adj->fvtemplate);
       }
-- 
2.43.0


From 657c19a1c1f69437802150cbecce54ca3ef32fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:03 +0000
Subject: [PATCH 95/98] fix: deleting a region of an R1 mesh freed it twice

---
 src/base/MRegion_R1.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/base/MRegion_R1.c b/src/base/MRegion_R1.c
index 3ee81f1..28faed3 100644
--- a/src/base/MRegion_R1.c
+++ b/src/base/MRegion_R1.c
@@ -55,8 +55,6 @@ extern "C" {
 	}
 	free(adj);
       }
-
-      free(r);
     }
   }
 
-- 
2.43.0


From eb1b92f243abb2de0a54719d57cd6b1be7f07857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:03 +0000
Subject: [PATCH 96/98] fix: counting edges or faces of a vertex without
 elements crashed in R1 and R2 meshes

---
 src/base/MVertex_R1.c | 4 ++++
 src/base/MVertex_R2.c | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/base/MVertex_R1.c b/src/base/MVertex_R1.c
index a7febee..c5a5630 100644
--- a/src/base/MVertex_R1.c
+++ b/src/base/MVertex_R1.c
@@ -73,6 +73,8 @@ extern "C" {
 #endif
     
     vedges = MV_Edges_R1(v);
+    if (!vedges)
+      return 0;
     ne = List_Num_Entries(vedges);
     List_Delete(vedges);
     return ne;
@@ -89,6 +91,8 @@ extern "C" {
 		MSTK_MESG);
 #endif
     vfaces = MV_Faces_R1(v);
+    if (!vfaces)
+      return 0;
     nf = List_Num_Entries(vfaces);
     for (i = 0; i < nf; i++) {
       vface = List_Entry(vfaces,i);
diff --git a/src/base/MVertex_R2.c b/src/base/MVertex_R2.c
index d134e90..04a3459 100644
--- a/src/base/MVertex_R2.c
+++ b/src/base/MVertex_R2.c
@@ -102,6 +102,8 @@ extern "C" {
 		MSTK_MESG);
 #endif
     vfaces = MV_Faces_R2(v);
+    if (!vfaces)
+      return 0;
     nf = List_Num_Entries(vfaces);
     for (i = 0; i < nf; i++) {
       vface = List_Entry(vfaces,i);
-- 
2.43.0


From 8ac1e2b96a2a99e0ea3f2ea0eaa75c6158f367a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:03 +0000
Subject: [PATCH 97/98] fix: MF_VertexIDs did not return the count and left
 reversed order unreversed in R2 meshes

---
 src/base/MF_Vertex_Funcs_R2.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/base/MF_Vertex_Funcs_R2.c b/src/base/MF_Vertex_Funcs_R2.c
index af718c8..1f4eac0 100644
--- a/src/base/MF_Vertex_Funcs_R2.c
+++ b/src/base/MF_Vertex_Funcs_R2.c
@@ -335,7 +335,7 @@ extern "C" {
     int i, k=0, nv, fnd=0;
 
     adj = (MFace_Adj_R2 *) f->adj;
-    nv = List_Num_Entries(adj->fvertices);
+    nv = *nfv = List_Num_Entries(adj->fvertices);
 
     if (!startvertid) {
       if (dir) {
@@ -343,8 +343,8 @@ extern "C" {
           fvertids[i] = MEnt_ID(List_Entry(adj->fvertices,i));
       }
       else {
-	for (i = nv-1; i >= 0; i--)
-          fvertids[i] = MEnt_ID(List_Entry(adj->fvertices,i));
+	for (i = 0; i < nv; i++)
+          fvertids[i] = MEnt_ID(List_Entry(adj->fvertices,nv-1-i));
       }
     }
     else {
-- 
2.43.0


From 6ee06511d0def2a26de9f43154e825f2a43e5215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:03 +0000
Subject: [PATCH 98/98] fix: regions with the vertices of an edge or face but
 not the edge or face were listed as using it in reduced representations

---
 src/base/ME_Region_Funcs_RN.c |  4 ++--
 src/base/MF_Region_Funcs_R1.c | 28 ++++++----------------------
 src/base/MF_Region_Funcs_R2.c | 28 ++++++----------------------
 3 files changed, 14 insertions(+), 46 deletions(-)

diff --git a/src/base/ME_Region_Funcs_RN.c b/src/base/ME_Region_Funcs_RN.c
index 49279ed..8015ea6 100644
--- a/src/base/ME_Region_Funcs_RN.c
+++ b/src/base/ME_Region_Funcs_RN.c
@@ -26,7 +26,7 @@ extern "C" {
     vregs = MV_Regions(e->vertex[0]);
     idx = 0;
     while ((reg = List_Next_Entry(vregs,&idx))) {
-      if (MR_UsesEntity(reg,e->vertex[1],MVERTEX))
+      if (MR_UsesEntity(reg,(MEntity_ptr) e,MEDGE))
 	ne++;
     }
 
@@ -43,7 +43,7 @@ extern "C" {
     vregs = MV_Regions(e->vertex[0]);
     idx = 0;
     while ((reg = List_Next_Entry(vregs,&idx))) {
-      if (MR_UsesEntity(reg,e->vertex[1],MVERTEX))
+      if (MR_UsesEntity(reg,(MEntity_ptr) e,MEDGE))
 	List_Add(eregs,reg);
     }
 
diff --git a/src/base/MF_Region_Funcs_R1.c b/src/base/MF_Region_Funcs_R1.c
index ebca8a3..5d5fbf4 100644
--- a/src/base/MF_Region_Funcs_R1.c
+++ b/src/base/MF_Region_Funcs_R1.c
@@ -17,41 +17,25 @@ extern "C" {
 
   List_ptr MF_Regions_R1(MFace_ptr f) {
     MFace_Adj_R1 *adj = (MFace_Adj_R1 *) f->adj;
-    MVertex_ptr v, rv;
+    MVertex_ptr v;
     MRegion_ptr r;
-    List_ptr vregs, rverts, fregs;
-    int nfv, nr, idx, i, fnd=0, idx1;
+    List_ptr vregs, fregs;
+    int nr, idx;
     
     v = List_Entry(adj->fvertices,0);
     vregs = MV_Regions(v);
     if (!vregs)
       return NULL;
 
-    nfv = List_Num_Entries(adj->fvertices);
     nr = 0;
     fregs = List_New(2);
 
     idx = 0;
     while (nr < 2 && (r = List_Next_Entry(vregs,&idx))) {
-      rverts = MR_Vertices(r);
-
-      for (i = 1; i < nfv; i++) {
-	v = List_Entry(adj->fvertices,i);
-	idx1 = 0;
-	fnd = 0;
-	while ((rv = List_Next_Entry(rverts,&idx1))) {
-	  if (rv == v) {
-	    fnd = 1;
-	    break;
-	  }
-	}
-	if (!fnd)
-	  break;
-      }
-      
-      List_Delete(rverts);
+      /* having all the vertices of the face is not enough - they may lie
+	 on different faces of the region */
 
-      if (fnd) {
+      if (MR_UsesEntity(r,(MEntity_ptr) f,MFACE)) {
 	List_Add(fregs,r);
 	nr++;
       }
diff --git a/src/base/MF_Region_Funcs_R2.c b/src/base/MF_Region_Funcs_R2.c
index c4a2571..e414566 100644
--- a/src/base/MF_Region_Funcs_R2.c
+++ b/src/base/MF_Region_Funcs_R2.c
@@ -17,41 +17,25 @@ extern "C" {
 
   List_ptr MF_Regions_R2(MFace_ptr f) {
     MFace_Adj_R1 *adj = (MFace_Adj_R1 *) f->adj;
-    MVertex_ptr v, rv;
+    MVertex_ptr v;
     MRegion_ptr r;
-    List_ptr vregs, rverts, fregs;
-    int nfv, nr, idx, i, fnd=0, idx1;
+    List_ptr vregs, fregs;
+    int nr, idx;
     
     v = List_Entry(adj->fvertices,0);
     vregs = MV_Regions(v);
     if (!vregs)
       return NULL;
 
-    nfv = List_Num_Entries(adj->fvertices);
     nr = 0;
     fregs = List_New(2);
 
     idx = 0;
     while (nr < 2 && (r = List_Next_Entry(vregs,&idx))) {
-      rverts = MR_Vertices(r);
-
-      for (i = 1; i < nfv; i++) {
-	v = List_Entry(adj->fvertices,i);
-	idx1 = 0;
-	fnd = 0;
-	while ((rv = List_Next_Entry(rverts,&idx1))) {
-	  if (rv == v) {
-	    fnd = 1;
-	    break;
-	  }
-	}
-	if (!fnd)
-	  break;
-      }
-      
-      List_Delete(rverts);
+      /* having all the vertices of the face is not enough - they may lie
+	 on different faces of the region */
 
-      if (fnd) {
+      if (MR_UsesEntity(r,(MEntity_ptr) f,MFACE)) {
 	List_Add(fregs,r);
 	nr++;
       }
-- 
2.43.0

