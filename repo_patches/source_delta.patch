From 7ac4f524996d54c44013eb808407355ce7c0958e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:19 +0000
Subject: [PATCH 001/101] fix: keep the size of an empty mesh set alive until
 its send completes

MESH_Send_MSet freed the buffer of a pending nonblocking send when the set
has no member in the submesh; the receiver then got garbage as the size.
---
 src/par/MESH_Send_MSet.c | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/par/MESH_Send_MSet.c b/src/par/MESH_Send_MSet.c
index c71f639..96f233b 100644
--- a/src/par/MESH_Send_MSet.c
+++ b/src/par/MESH_Send_MSet.c
@@ -58,10 +58,22 @@ extern "C" {
     (*requests)[*numreq] = mpirequest;
     (*numreq)++;
 
-    if (!nent) {
-      free(list_info);
-      return 1;
+    /* track the buffers used for sending */
+
+    if (*maxptrs2free == 0) {
+      *maxptrs2free = 25;
+      *ptrs2free = (void **) malloc(*maxptrs2free*sizeof(void *));
+      *numptrs2free = 0;
     }
+    else if (*maxptrs2free < (*numptrs2free) + 2) {
+      *maxptrs2free = 2*(*maxptrs2free) + 2 ;
+      *ptrs2free = (void **) realloc(*ptrs2free,(*maxptrs2free)*sizeof(void *));
+    }
+
+    /* list_info is still being sent, even if the set is empty */
+    (*ptrs2free)[(*numptrs2free)++] = list_info;
+
+    if (!nent) return 1;
 
     /* attribute index and global id */ 
     num = 2*nent;
@@ -79,19 +91,6 @@ extern "C" {
     (*requests)[*numreq] = mpirequest;
     (*numreq)++;
 
-    /* track the buffers used for sending */
-
-    if (*maxptrs2free == 0) {
-      *maxptrs2free = 25;
-      *ptrs2free = (void **) malloc(*maxptrs2free*sizeof(void *));
-      *numptrs2free = 0;
-    }
-    else if (*maxptrs2free < (*numptrs2free) + 2) {
-      *maxptrs2free = 2*(*maxptrs2free) + 2 ;
-      *ptrs2free = (void **) realloc(*ptrs2free,(*maxptrs2free)*sizeof(void *));
-    }
-
-    (*ptrs2free)[(*numptrs2free)++] = list_info;
     (*ptrs2free)[(*numptrs2free)++] = list_value_int;  
   
     return 1;
-- 
2.43.0


From b065640bc92d9bb6708eab4cf1577ccaec9cc781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:19 +0000
Subject: [PATCH 002/101] fix: distribute vector attributes that are unset or
 have one component

MESH_CopyAttr and MESH_Send_Attribute dereferenced the null value of an
entity on which a vector or tensor attribute was never set, and told vectors
from scalars by the number of components. The receiver leaked the values.
---
 src/par/MESH_CopyAttr.c       | 16 ++++++++--------
 src/par/MESH_Recv_Attribute.c | 12 +++++-------
 src/par/MESH_Send_Attribute.c |  8 ++++----
 3 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/par/MESH_CopyAttr.c b/src/par/MESH_CopyAttr.c
index 4504c22..fa857eb 100644
--- a/src/par/MESH_CopyAttr.c
+++ b/src/par/MESH_CopyAttr.c
@@ -89,7 +89,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       if ((atttype == INT && ival == 0) || 
           (atttype == DOUBLE  && rval == 0.0) ||
-          (atttype == POINTER && pval == NULL))
+          ((atttype == VECTOR || atttype == TENSOR) && pval == NULL))
         continue;
 
       int dummy_ival;
@@ -99,7 +99,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lmv = List_Next_Entry(lmvlist,&idx2))) {
-        if (ncomp > 1) {
+        if (pval) {
           pval_arr = (void *)malloc(ncomp*sizeof(double));
           memcpy(pval_arr,pval,ncomp*sizeof(double));
         }
@@ -129,7 +129,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       if ((atttype == INT && ival == 0) || 
           (atttype == DOUBLE  && rval == 0.0) ||
-          (atttype == POINTER && pval == NULL))
+          ((atttype == VECTOR || atttype == TENSOR) && pval == NULL))
         continue;
 
       int dummy_ival;
@@ -139,7 +139,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lme = List_Next_Entry(lmelist,&idx2))) {
-        if (ncomp > 1) {
+        if (pval) {
           pval_arr = (void *)malloc(ncomp*sizeof(double));
           memcpy(pval_arr,pval,ncomp*sizeof(double));
         }
@@ -169,7 +169,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       if ((atttype == INT && ival == 0) || 
           (atttype == DOUBLE  && rval == 0.0) ||
-          (atttype == POINTER && pval == NULL))
+          ((atttype == VECTOR || atttype == TENSOR) && pval == NULL))
         continue;
 
       int dummy_ival;
@@ -179,7 +179,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lmf = List_Next_Entry(lmflist,&idx2))) {
-        if (ncomp > 1) {
+        if (pval) {
           pval_arr = (void *)malloc(ncomp*sizeof(double));
           memcpy(pval_arr,pval,ncomp*sizeof(double));
         }
@@ -210,7 +210,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       if ((atttype == INT && ival == 0) || 
           (atttype == DOUBLE  && rval == 0.0) ||
-          (atttype == POINTER && pval == NULL))
+          ((atttype == VECTOR || atttype == TENSOR) && pval == NULL))
         continue;
 
       int dummy_ival;
@@ -220,7 +220,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lmr = List_Next_Entry(lmrlist,&idx2))) {
-        if (ncomp > 1) {
+        if (pval) {
           pval_arr = (void *)malloc(ncomp*sizeof(double));
           memcpy(pval_arr,pval,ncomp*sizeof(double));
         }
diff --git a/src/par/MESH_Recv_Attribute.c b/src/par/MESH_Recv_Attribute.c
index bd432ea..3a7204d 100644
--- a/src/par/MESH_Recv_Attribute.c
+++ b/src/par/MESH_Recv_Attribute.c
@@ -134,12 +134,10 @@ extern "C" {
       if (rval != 0.0) nullval = 0;
     }
     else {
-      if (ncomp > 1) {
-        nullval = 0;  /* always add vectors */
-        rval_arr = (double *) malloc(ncomp*sizeof(double));
-        for(k = 0; k < ncomp; k++)
-          rval_arr[k] = list_value_double[j*ncomp+k];
-      }
+      nullval = 0;  /* always add vectors */
+      rval_arr = (double *) malloc(ncomp*sizeof(double));
+      for(k = 0; k < ncomp; k++)
+        rval_arr[k] = list_value_double[j*ncomp+k];
     }
     if (nullval) continue; /* Don't waste time initializing to zero */
 
@@ -149,7 +147,7 @@ extern "C" {
    free(list_info);
    if (att_type == INT) 
      free(list_value_int);
-   else if (att_type == DOUBLE)
+   else
      free(list_value_double);
 
   return 1;
diff --git a/src/par/MESH_Send_Attribute.c b/src/par/MESH_Send_Attribute.c
index e45d1ae..2028482 100644
--- a/src/par/MESH_Send_Attribute.c
+++ b/src/par/MESH_Send_Attribute.c
@@ -125,12 +125,12 @@ extern "C" {
       if (att_type == INT)
         list_value_int[j] = ival;
       else {
-        if(ncomp == 1)
+        if (att_type == DOUBLE)
           list_value_double[j] = rval;
-        if(ncomp > 1) {
+        else {
           rval_arr = (double *)pval;
-          for(k = 0; k < ncomp; k++)
-            list_value_double[ncomp*j+k] = rval_arr[k];
+          for(k = 0; k < ncomp; k++) /* value may never have been set */
+            list_value_double[ncomp*j+k] = rval_arr ? rval_arr[k] : 0.0;
         }
       }
     }
-- 
2.43.0


From 18bd8bbed741747f9e5da5f1ee0a486f2623726b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:35 +0000
Subject: [PATCH 003/101] fix: flag ghost vertices labeled before weaving as on
 the partition boundary

MESH_AssignGlobalIDs_p2p only flagged vertices it labeled itself. Edges and
faces between vertices that the caller had already labeled as ghosts were not
matched across partitions.
---
 src/par/MESH_AssignGlobalIDs_point.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/par/MESH_AssignGlobalIDs_point.c b/src/par/MESH_AssignGlobalIDs_point.c
index c84f1d7..ce4fae3 100644
--- a/src/par/MESH_AssignGlobalIDs_point.c
+++ b/src/par/MESH_AssignGlobalIDs_point.c
@@ -222,8 +222,8 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
             if (MV_PType(mv) != PGHOST) {
               MV_Set_PType(mv,PGHOST);
               MV_Set_MasterParID(mv,i);
-              MV_Flag_OnParBoundary(mv);
             }
+            MV_Flag_OnParBoundary(mv); /* also if labeled a ghost on input */
 
             if (MV_MasterParID(mv) == i) {
               /* Whether the master partition ID was set above or
-- 
2.43.0


From 1cc8c18c1adc32b7b772af8547694585143135b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:35 +0000
Subject: [PATCH 004/101] fix: one master for edges shared by more than two
 partitions

MESH_AssignGlobalIDs_Edge_p2p let every lower rank that has the edge override
the master found before and counted the edge as a ghost once for each, so that
edges shared by three or more partitions got global ID 0 or another edge's ID.
---
 src/par/MESH_AssignGlobalIDs_point.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/par/MESH_AssignGlobalIDs_point.c b/src/par/MESH_AssignGlobalIDs_point.c
index ce4fae3..5de755d 100644
--- a/src/par/MESH_AssignGlobalIDs_point.c
+++ b/src/par/MESH_AssignGlobalIDs_point.c
@@ -504,11 +504,14 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
 			       compareEdgeINT);
 	  if(loc) {
 	    iloc = (int)(loc - recv_list_edge)/2;
-	    ME_Set_PType(me,PGHOST);
-	    ME_Set_MasterParID(me,i);
-	    nge++;
-	    me_remote_info[j] = iloc;
-	    me_ov_label[iloc] = 1;
+	    /* an edge may be on several lower ranks; the first is its master */
+	    if (ME_PType(me) != PGHOST) {
+	      ME_Set_PType(me,PGHOST);
+	      ME_Set_MasterParID(me,i);
+	      nge++;
+	      me_remote_info[j] = iloc;
+	      me_ov_label[iloc] = 1;
+	    }
 	  }
 	}
 	MPI_Send(me_ov_label,count/4,MPI_INT,i,i,comm);
-- 
2.43.0


From dbde25e7652eafe686d9e284696a2fc2bab17f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:36 +0000
Subject: [PATCH 005/101] fix: ghost update of unset, zero and one-component
 vector attributes

---
 src/par/MESH_Update1Attribute.c | 58 ++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/src/par/MESH_Update1Attribute.c b/src/par/MESH_Update1Attribute.c
index f1241da..254347c 100644
--- a/src/par/MESH_Update1Attribute.c
+++ b/src/par/MESH_Update1Attribute.c
@@ -130,14 +130,12 @@ extern "C" {
       if (att_type == INT) {
 	list_value_int_send[j] = ival;
       }
+      else if (att_type == DOUBLE)
+	list_value_double_send[j] = rval;
       else {
-	if (ncomp == 1)
-	  list_value_double_send[j] = rval;
-	if (ncomp > 1) {
-	  rval_arr = (double *)pval;
-	  for(k = 0; k < ncomp; k++)
-	    list_value_double_send[ncomp*j+k] = rval_arr[k];
-	}
+	rval_arr = (double *)pval;   /* NULL if the value is not set */
+	for(k = 0; k < ncomp; k++)
+	  list_value_double_send[ncomp*j+k] = rval_arr ? rval_arr[k] : 0.0;
       }
     }
 
@@ -309,32 +307,32 @@ extern "C" {
 
       /* get the index */
       i = (int)(loc - &list_info_recv[0]);
-      if (att_type == INT)
+      /* Zero is also what a ghost without a value reports, so a zero
+         has to be stored only if the ghost already has a value */
+      int nonzero = 0;
+      double *ghost_val = NULL;
+      ival = 0;
+      rval = 0.0;
+      if (att_type == INT) {
 	ival = list_value_int_recv[i];
+	nonzero = (ival != 0);
+      }
+      else if (att_type == DOUBLE) {
+	rval = list_value_double_recv[i];
+	nonzero = (rval != 0.0);
+      }
       else {
-	if(ncomp == 1) 
-	  rval = list_value_double_recv[i];
-	if(ncomp > 1)
-	  {
-            int allzero = 1;
-            for (k = 0; k < ncomp; k++)
-              if (list_value_double_recv[i*ncomp+k] != 0.0) {
-                allzero = 0;
-                break;
-              }
-            if (!allzero) {
-              rval_arr = (double *) malloc(ncomp*sizeof(double));
-              for(k = 0; k < ncomp; k++)
-                rval_arr[k] = list_value_double_recv[i*ncomp+k];
-            }	
-            else
-              rval_arr = NULL;
-          }
+	ghost_val = &list_value_double_recv[i*ncomp];
+	for (k = 0; k < ncomp; k++)
+	  if (ghost_val[k] != 0.0) {
+	    nonzero = 1;
+	    break;
+	  }
       }
-      if ((att_type == INT && ival) ||
-          (att_type == DOUBLE && rval) ||
-          ((att_type == VECTOR || att_type == TENSOR) && rval_arr))
-        MEnt_Set_AttVal(ment,attrib,ival,rval,(void*) rval_arr);
+      int old_ival;
+      double old_rval;
+      if (nonzero || MEnt_Get_AttVal(ment,attrib,&old_ival,&old_rval,&pval))
+	MEnt_Set_AttVal(ment,attrib,ival,rval,(void*) ghost_val);
     }
 
     /* release the send buffer */
-- 
2.43.0


From 932d8daa3424ddd74d843ba193bc6f561a6db9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:28 +0000
Subject: [PATCH 006/101] fix: gather-scatter of vector attributes and of unset
 and zero values

---
 src/par/MESH_GathScat1Attribute.c | 96 ++++++++++++++-----------------
 1 file changed, 42 insertions(+), 54 deletions(-)

diff --git a/src/par/MESH_GathScat1Attribute.c b/src/par/MESH_GathScat1Attribute.c
index 9d94437..de49935 100644
--- a/src/par/MESH_GathScat1Attribute.c
+++ b/src/par/MESH_GathScat1Attribute.c
@@ -272,14 +272,12 @@ extern "C" {
 	    if (att_type == INT) {
 	      list_value_int_send[n] = ival;
 	    }
+	    else if (att_type == DOUBLE)
+	      list_value_double_send[n] = rval;
 	    else {
-	      if (ncomp == 1)
-		list_value_double_send[n] = rval;
-	      if (ncomp > 1) {
-		rval_arr = (double *)pval;
-		for(k = 0; k < ncomp; k++)
-		  list_value_double_send[ncomp*n+k] = rval_arr[k];
-	      }
+	      rval_arr = (double *)pval;   /* NULL if the value is not set */
+	      for(k = 0; k < ncomp; k++)
+		list_value_double_send[ncomp*n+k] = rval_arr ? rval_arr[k] : 0.0;
 	    }
             n++;
             if (n > send_size[i]) 
@@ -422,8 +420,9 @@ extern "C" {
       double final_rval;
       double *final_rval_arr = (double *) malloc(ncomp*sizeof(double));
 
-      MEnt_Get_AttVal(ment,attrib,&final_ival,&final_rval,
-                      (void *) final_rval_arr);
+      int isset = MEnt_Get_AttVal(ment,attrib,&final_ival,&final_rval,&pval);
+      for (k = 0; k < ncomp; k++)
+        final_rval_arr[k] = pval ? ((double *) pval)[k] : 0.0;
 
       for (i = 0; i < num_recv_procs; i++) {
         int offset = recv_pos[i];   /* recv_pos array is num_recv_procs long */
@@ -463,7 +462,7 @@ extern "C" {
           }
         }
         else {
-          if(ncomp == 1) {
+          if (att_type == DOUBLE) {
             rval = list_value_double_recv[ind];
             switch (optype) {
               case ATTOP_MAX:
@@ -480,46 +479,30 @@ extern "C" {
                 break;
             }
           }
-          if(ncomp > 1) {
-            int allzero = 1;
-            for (k = 0; k < ncomp; k++)
-              if (list_value_double_recv[ind*ncomp+k] != 0.0) {
-                allzero = 0;
+          else {
+            rval_arr = &list_value_double_recv[ind*ncomp];
+            double final_norm = 0.0, norm = 0.0;
+            for (k = 0; k < ncomp; k++) {
+              final_norm += final_rval_arr[k]*final_rval_arr[k];
+              norm += rval_arr[k]*rval_arr[k];
+            }
+            switch (optype) {
+              case ATTOP_MAX:
+                if (norm > final_norm)
+                  memcpy(final_rval_arr,rval_arr,ncomp*sizeof(double));
+                break;
+              case ATTOP_MIN:
+                if (norm < final_norm)
+                  memcpy(final_rval_arr,rval_arr,ncomp*sizeof(double));
+                break;
+              case ATTOP_SUM: case ATTOP_AVG:
+                for (k = 0; k < ncomp; k++)
+                  final_rval_arr[k] += rval_arr[k];
+                break;
+              default:
+                memcpy(final_rval_arr,rval_arr,ncomp*sizeof(double));
                 break;
-              }
-            if (!allzero) {
-              rval_arr = (double *)malloc(ncomp*sizeof(double));
-              for(k = 0; k < ncomp; k++)
-                rval_arr[k] = list_value_double_recv[ind*ncomp+k];
-              double final_norm = 0.0, norm = 0.0;
-              switch (optype) {
-                case ATTOP_MAX:
-                  for (k = 0; k < ncomp; k++) 
-                    final_norm += final_rval_arr[k]*final_rval_arr[k];
-                  for (k = 0; k < ncomp; k++)
-                    norm += rval_arr[k]*rval_arr[k];
-                  if (norm > final_norm)
-                    memcpy(rval_arr,final_rval_arr,ncomp*sizeof(double));
-                  break;
-                case ATTOP_MIN:
-                  for (k = 0; k < ncomp; k++) 
-                    final_norm += final_rval_arr[k]*final_rval_arr[k];
-                  for (k = 0; k < ncomp; k++)
-                    norm += rval_arr[k]*rval_arr[k];
-                  if (norm < final_norm)
-                    memcpy(rval_arr,final_rval_arr,ncomp*sizeof(double));
-                case ATTOP_SUM: case ATTOP_AVG:
-                  for (k = 0; k < ncomp; k++)
-                    final_rval_arr[k] += rval_arr[k];
-                  break;
-                default:
-                  for (k = 0; k < ncomp; k++)
-                    final_rval_arr[k] = rval_arr[k];
-                  break;
-              }
-            }	
-            else
-              rval_arr = NULL;
+            }
           }
         }
 
@@ -535,16 +518,21 @@ extern "C" {
 
       if (optype == ATTOP_AVG) {
         if (att_type == DOUBLE) final_rval /= nfound+1;
-        if ((att_type == VECTOR || att_type == TENSOR) && rval_arr)
+        if (att_type == VECTOR || att_type == TENSOR)
           for (k = 0; k < ncomp; k++)
             final_rval_arr[k] /= nfound+1;
       }
-      
-      if ((att_type == INT && final_ival) ||
-          (att_type == DOUBLE && final_rval) ||
-          ((att_type == VECTOR || att_type == TENSOR) && final_rval_arr))
+
+      int nonzero = (att_type == INT && final_ival) ||
+          (att_type == DOUBLE && final_rval);
+      if (att_type == VECTOR || att_type == TENSOR)
+        for (k = 0; k < ncomp; k++)
+          if (final_rval_arr[k] != 0.0) nonzero = 1;
+
+      if (nonzero || isset)
         MEnt_Set_AttVal(ment,attrib,final_ival,final_rval,(void*) final_rval_arr);
 
+      free(final_rval_arr);
     }
     
         
-- 
2.43.0


From b90a0e82cbaf6b5ff16af3313376ded038b05881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:04 +0000
Subject: [PATCH 007/101] fix: edge/face exchange of vector attributes and of
 unset and zero values

---
 src/par/MESH_XchngEdgeFaceAttrib.c | 54 ++++++++++++++----------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/src/par/MESH_XchngEdgeFaceAttrib.c b/src/par/MESH_XchngEdgeFaceAttrib.c
index 6a2db91..bf025bb 100644
--- a/src/par/MESH_XchngEdgeFaceAttrib.c
+++ b/src/par/MESH_XchngEdgeFaceAttrib.c
@@ -265,14 +265,12 @@ extern "C" {
               if (att_type == INT) {
                 list_value_int_send[n] = ival;
               }
+              else if (att_type == DOUBLE)
+                list_value_double_send[n] = rval;
               else {
-                if (ncomp == 1)
-                  list_value_double_send[n] = rval;
-                if (ncomp > 1) {
-                  rval_arr = (double *)pval;
-                  for(k = 0; k < ncomp; k++)
-                    list_value_double_send[ncomp*n+k] = rval_arr[k];
-                }
+                rval_arr = (double *)pval;   /* NULL if the value is not set */
+                for(k = 0; k < ncomp; k++)
+                  list_value_double_send[ncomp*n+k] = rval_arr ? rval_arr[k] : 0.0;
               }
               n++;
             }
@@ -427,31 +425,31 @@ extern "C" {
         found = 1;
 
         int ind = (int)(loc - list_info_recv);
-        if (att_type == INT) 
+        int nonzero = 0;
+        ival = 0;
+        rval = 0.0;
+        rval_arr = NULL;
+        if (att_type == INT) {
           ival = list_value_int_recv[ind];
+          nonzero = (ival != 0);
+        }
+        else if (att_type == DOUBLE) {
+          rval = list_value_double_recv[ind];
+          nonzero = (rval != 0.0);
+        }
         else {
-          if(ncomp == 1) 
-            rval = list_value_double_recv[ind];
-          else {
-            int allzero = 1;
-            for (k = 0; k < ncomp; k++)
-              if (list_value_double_recv[ind*ncomp+k] != 0.0) {
-                allzero = 0;
-                break;
-              }
-            if (!allzero) {
-              rval_arr = (double *)malloc(ncomp*sizeof(double));
-              for(k = 0; k < ncomp; k++)
-                rval_arr[k] = list_value_double_recv[ind*ncomp+k];
-            }	
-            else
-              rval_arr = NULL;
-          }
+          rval_arr = &list_value_double_recv[ind*ncomp];
+          for (k = 0; k < ncomp; k++)
+            if (rval_arr[k] != 0.0) {
+              nonzero = 1;
+              break;
+            }
         }
         
-        if ((att_type == INT && ival) ||
-            (att_type == DOUBLE && rval) ||
-            ((att_type == VECTOR || att_type == TENSOR) && rval_arr))
+        /* a zero has to be stored only over an existing value */
+        int old_ival;
+        double old_rval;
+        if (nonzero || MEnt_Get_AttVal(ment,attrib,&old_ival,&old_rval,&pval))
           MEnt_Set_AttVal(ment,attrib,ival,rval,(void*) rval_arr);
        
         break;
-- 
2.43.0


From 9fe9e81270ceac4ae42b658d452bbf9530134e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:39 +0000
Subject: [PATCH 008/101] fix: flag partition boundary edges on rank 0 too

---
 src/par/MESH_AssignGlobalIDs.c | 58 ++++++++++++++++------------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/src/par/MESH_AssignGlobalIDs.c b/src/par/MESH_AssignGlobalIDs.c
index 17ff68d..5472da1 100644
--- a/src/par/MESH_AssignGlobalIDs.c
+++ b/src/par/MESH_AssignGlobalIDs.c
@@ -463,38 +463,36 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
   MPI_Allgather(list_edge,2*max_nbe,MPI_INT,recv_list_edge,2*max_nbe,MPI_INT,comm);
 
   nge = 0;
-  /* for processor other than 0 (because there are no ghost entities
-   * on rank 0 by convention) */
-  if(rank > 0) {
-    for(i = 0; i < nbe; i++) {
-      me = List_Entry(boundary_edges,i);
-      edge_id[0] = MV_GlobalID(ME_Vertex(me,0));
-      edge_id[1] = MV_GlobalID(ME_Vertex(me,1));
-
-      int found_match = 0;
-      for(j = 0; j < num; j++) {
-        if (j == rank) continue;
-	loc = (int *)bsearch(&edge_id,
-			     &recv_list_edge[2*max_nbe*j],
-			     global_mesh_info[10*j+6],
-			     2*sizeof(int),
-			     compareEdgeINT);
-	if(loc) {
-          if (j < rank) {
-            iloc = (int)(loc - &recv_list_edge[2*max_nbe*j])/2;
-            ME_Set_PType(me,PGHOST);
-            ME_Set_MasterParID(me,j);
-            edge_ov_label[max_nbe*j+iloc] |= 1;
-            id_on_ov_list[i] = iloc;
-            nge++;
-          }
-          found_match = 1;
-	  break;
-	}
+  /* rank 0 has no ghost entities by convention but its edges on the
+   * partition boundary have to be flagged too */
+  for(i = 0; i < nbe; i++) {
+    me = List_Entry(boundary_edges,i);
+    edge_id[0] = MV_GlobalID(ME_Vertex(me,0));
+    edge_id[1] = MV_GlobalID(ME_Vertex(me,1));
+
+    int found_match = 0;
+    for(j = 0; j < num; j++) {
+      if (j == rank) continue;
+      loc = (int *)bsearch(&edge_id,
+                           &recv_list_edge[2*max_nbe*j],
+                           global_mesh_info[10*j+6],
+                           2*sizeof(int),
+                           compareEdgeINT);
+      if(loc) {
+        if (j < rank) {
+          iloc = (int)(loc - &recv_list_edge[2*max_nbe*j])/2;
+          ME_Set_PType(me,PGHOST);
+          ME_Set_MasterParID(me,j);
+          edge_ov_label[max_nbe*j+iloc] |= 1;
+          id_on_ov_list[i] = iloc;
+          nge++;
+        }
+        found_match = 1;
+        break;
       }
-      if (found_match)
-        ME_Flag_OnParBoundary(me);
     }
+    if (found_match)
+      ME_Flag_OnParBoundary(me);
   }
 
  
-- 
2.43.0


From 5ae0aaee69a36f9a834e9f29ec46d43bb8ea683a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:10 +0000
Subject: [PATCH 009/101] fix: collective global renumbering with processes
 that lack an entity kind

---
 src/par/MESH_Renumber_GlobalIDs.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/par/MESH_Renumber_GlobalIDs.c b/src/par/MESH_Renumber_GlobalIDs.c
index ea8c365..8ec25e0 100644
--- a/src/par/MESH_Renumber_GlobalIDs.c
+++ b/src/par/MESH_Renumber_GlobalIDs.c
@@ -43,13 +43,22 @@ extern "C" {
                   "Renumbering according to pre-assigned numbering not yet implemented",
                   MSTK_ERROR);
     } else {
-      if (MESH_Num_Vertices(mesh) && (mtype == MVERTEX || mtype == MALLTYPE))
+      /* The renumbering is collective - whether there is anything to
+       * renumber has to be decided from the counts on all processors */
+      int nents[4], max_nents[4];
+      nents[0] = MESH_Num_Vertices(mesh);
+      nents[1] = MESH_Num_Edges(mesh);
+      nents[2] = MESH_Num_Faces(mesh);
+      nents[3] = MESH_Num_Regions(mesh);
+      MPI_Allreduce(nents, max_nents, 4, MPI_INT, MPI_MAX, comm);
+
+      if (max_nents[0] && (mtype == MVERTEX || mtype == MALLTYPE))
         MESH_Renumber_EntityGlobalIDs(mesh, MVERTEX, method, NULL, comm);
-      if (MESH_Num_Edges(mesh) && (mtype == MEDGE || mtype == MALLTYPE))
+      if (max_nents[1] && (mtype == MEDGE || mtype == MALLTYPE))
         MESH_Renumber_EntityGlobalIDs(mesh, MEDGE, method, NULL, comm);
-      if (MESH_Num_Faces(mesh) && (mtype == MFACE || mtype == MALLTYPE))
+      if (max_nents[2] && (mtype == MFACE || mtype == MALLTYPE))
         MESH_Renumber_EntityGlobalIDs(mesh, MFACE, method, NULL, comm);
-      if (MESH_Num_Regions(mesh) && (mtype == MREGION || mtype == MALLTYPE))
+      if (max_nents[3] && (mtype == MREGION || mtype == MALLTYPE))
         MESH_Renumber_EntityGlobalIDs(mesh, MREGION, method, NULL, comm);
 
       // Ghost entity management in the mesh relies on ghost lists
-- 
2.43.0


From 1e9b086824ac2a6a39f0f6bf20a715926755d8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:39 +0000
Subject: [PATCH 010/101] fix: parallel check completes on all processes and
 notices ghosts with an unrelated master

---
 src/par/MESH_Parallel_Check.c | 60 +++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/src/par/MESH_Parallel_Check.c b/src/par/MESH_Parallel_Check.c
index 9107ad6..ade0001 100644
--- a/src/par/MESH_Parallel_Check.c
+++ b/src/par/MESH_Parallel_Check.c
@@ -40,8 +40,8 @@ int MESH_Parallel_Check(Mesh_ptr mesh, MSTK_Comm comm) {
   fprintf(stderr,"Begin checking parallel information on submesh %d\n",rank);
 #endif
   valid = MESH_Parallel_Check_Ghost(mesh,rank);
-  if(valid)
-    valid = MESH_Parallel_Check_GlobalID(mesh,rank,num,comm);
+  /* this communicates so all processors have to take part in it */
+  valid &= MESH_Parallel_Check_GlobalID(mesh,rank,num,comm);
 #ifdef DEBUG
   if (valid) fprintf(stderr,"Passed parallel checking on submesh %d\n",rank);
   else fprintf(stderr,"Failed parallel checking on submesh %d\n",rank);
@@ -58,11 +58,13 @@ int MESH_Parallel_Check(Mesh_ptr mesh, MSTK_Comm comm) {
 
 int MESH_Parallel_Check_GlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm comm) {
   int valid = 1;
+  int nr = MESH_Num_Regions(mesh), max_nr;
+  MPI_Allreduce(&nr,&max_nr,1,MPI_INT,MPI_MAX,comm);
 
   valid = MESH_Parallel_Check_VertexGlobalID(mesh,rank,num,comm);
   valid &= MESH_Parallel_Check_EdgeGlobalID(mesh,rank,num,comm);
   valid &= MESH_Parallel_Check_FaceGlobalID(mesh,rank,num,comm);
-  if(MESH_Num_Regions(mesh))
+  if(max_nr)
     valid &= MESH_Parallel_Check_RegionGlobalID(mesh,rank,num,comm);
   return valid;
 
@@ -135,10 +137,10 @@ int MESH_Parallel_Check_VertexGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
     if(i == rank) continue;
     if(i < rank) {     
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MVERTEX) ) {
-	MPI_Recv(recv_list_vertex,3*nv,MPI_INT,i,rank,comm,&status);
+	MPI_Recv(recv_list_vertex,3*max_nv,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	//printf("rank %d receives %d verts from rank %d\n", rank,count/3, i);
-	MPI_Recv(recv_list_coor,3*nv,MPI_DOUBLE,i,rank,comm,&status);
+	MPI_Recv(recv_list_coor,3*max_nv,MPI_DOUBLE,i,rank,comm,&status);
 	for(j = 0; j < count/3;  j++) {
 	  global_id = recv_list_vertex[3*j+2];
 	  loc = (int *)bsearch(&global_id,
@@ -237,9 +239,9 @@ int MESH_Parallel_Check_VertexGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
 	
       }
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MVERTEX) ) {
-	MPI_Recv(recv_list_vertex,3*nv,MPI_INT,i,rank,comm,&status);
+	MPI_Recv(recv_list_vertex,3*max_nv,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
-	MPI_Recv(recv_list_coor,3*nv,MPI_DOUBLE,i,rank,comm,&status);
+	MPI_Recv(recv_list_coor,3*max_nv,MPI_DOUBLE,i,rank,comm,&status);
 	for(j = 0; j < count/3;  j++) {
 	  global_id = recv_list_vertex[3*j+2];
 	  loc = (int *)bsearch(&global_id,
@@ -374,7 +376,7 @@ int MESH_Parallel_Check_EdgeGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
     if(i == rank) continue;
     if(i < rank) {     
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MEDGE) ) {
-	MPI_Recv(recv_list_edge,5*ne,MPI_INT,i,rank,comm,&status);  // should we get 5*max_ne?
+	MPI_Recv(recv_list_edge,5*max_ne,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	for(j = 0; j < count/5;  j++) {
 	  global_id = recv_list_edge[5*j+4];
@@ -466,7 +468,7 @@ int MESH_Parallel_Check_EdgeGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
 	MPI_Send(list_edge,5*index_me,MPI_INT,i,i,comm);
       }
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MEDGE) ) {
-	MPI_Recv(recv_list_edge,5*ne,MPI_INT,i,rank,comm,&status);  // should we get 5*max_ne
+	MPI_Recv(recv_list_edge,5*max_ne,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	for(j = 0; j < count/5;  j++) {
 	  global_id = recv_list_edge[5*j+4];
@@ -623,10 +625,10 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
     if(i == rank) continue;
     if(i < rank) {     
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MFACE) ) {
-	MPI_Recv(recv_list_face,(MAXPV3+4)*nf,MPI_INT,i,rank,comm,&status);
+	MPI_Recv(recv_list_face,(MAXPV3+4)*max_nf,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	//printf("rank %d receives %d faces from rank %d\n", rank,count, i);
-	for(index_mf = 0; index_mf < count;) {
+	for(index_mf = 0; index_mf < count; index_mf += (nfe + 4)) {
 	  nfe = recv_list_face[index_mf];
 	  global_id = recv_list_face[index_mf+nfe+3];;
 	  loc = (int *)bsearch(&global_id,
@@ -676,7 +678,6 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
 	      MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    }
 	  }
-	  index_mf += (nfe + 4);
 	}
       }
       if( MESH_Has_Ghosts_From_Prtn(mesh,i,MFACE) ) {
@@ -725,10 +726,10 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
       }
 
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MFACE) ) {
-	MPI_Recv(recv_list_face,(MAXPV3+4)*nf,MPI_INT,i,rank,comm,&status);
+	MPI_Recv(recv_list_face,(MAXPV3+4)*max_nf,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	//printf("rank %d receives %d faces from rank %d\n", rank,count, i);
-	for(index_mf = 0; index_mf < count;) {
+	for(index_mf = 0; index_mf < count; index_mf += (nfe + 4)) {
 	  nfe = recv_list_face[index_mf];
 	  global_id = recv_list_face[index_mf+nfe+3];;
 	  loc = (int *)bsearch(&global_id,
@@ -778,7 +779,6 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
 	      MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    }
 	  }
-	  index_mf += (nfe + 4);
 	}
       }
     }
@@ -853,10 +853,10 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
     if(i == rank) continue;
     if(i < rank) {     
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MREGION) ) {
-	MPI_Recv(recv_list_region,(MAXPF3+4)*nr,MPI_INT,i,rank,comm,&status);
+	MPI_Recv(recv_list_region,(MAXPF3+4)*max_nr,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	//	printf("rank %d receives %d regions from rank %d\n", rank,count, i);
-	for(index_mr = 0; index_mr < count;) {
+	for(index_mr = 0; index_mr < count; index_mr += (nrf + 4)) {
 	  nrf = recv_list_region[index_mr];
 	  global_id = recv_list_region[index_mr+nrf+3];;
 	  loc = (int *)bsearch(&global_id,
@@ -905,7 +905,6 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
 	      MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    }
 	  }
-	  index_mr += (nrf + 4);
 	}
       }
       if( MESH_Has_Ghosts_From_Prtn(mesh,i,MREGION) ) {
@@ -952,9 +951,9 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
 	MPI_Send(list_region,index_mr,MPI_INT,i,i,comm);
       }
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MREGION) ) {
-	MPI_Recv(recv_list_region,(MAXPF3+4)*nr,MPI_INT,i,rank,comm,&status);
+	MPI_Recv(recv_list_region,(MAXPF3+4)*max_nr,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
-	for(index_mr = 0; index_mr < count;) {
+	for(index_mr = 0; index_mr < count; index_mr += (nrf + 4)) {
 	  nrf = recv_list_region[index_mr];
 	  global_id = recv_list_region[index_mr+nrf+3];;
 	  loc = (int *)bsearch(&global_id,
@@ -1004,7 +1003,6 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
 	      MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    }
 	  }
-	  index_mr += (nrf + 4);
 	}
       }
     }
@@ -1042,6 +1040,11 @@ int MESH_Parallel_Check_Ghost(Mesh_ptr mesh, int rank) {
 	MSTK_Report(funcname,mesg,MSTK_ERROR);
 	valid = 0;
       }
+      else if (!MESH_Has_Ghosts_From_Prtn(mesh,MV_MasterParID(mv),MVERTEX)) {
+	sprintf(mesg,"Ghost Vertex %-d on partition %d has master partition id %d from which there are no ghosts",MV_GlobalID(mv),rank,MV_MasterParID(mv));
+	MSTK_Report(funcname,mesg,MSTK_ERROR);
+	valid = 0;
+      }
     }
     else  {
       if(MV_MasterParID(mv) != rank) {
@@ -1062,6 +1065,11 @@ int MESH_Parallel_Check_Ghost(Mesh_ptr mesh, int rank) {
 	MSTK_Report(funcname,mesg,MSTK_ERROR);
 	valid = 0;
       }
+      else if (!MESH_Has_Ghosts_From_Prtn(mesh,ME_MasterParID(me),MEDGE)) {
+	sprintf(mesg,"Ghost Edge %-d on partition %d has master partition id %d from which there are no ghosts",ME_GlobalID(me),rank,ME_MasterParID(me));
+	MSTK_Report(funcname,mesg,MSTK_ERROR);
+	valid = 0;
+      }
     }
     else  {
       if(ME_MasterParID(me) != rank) {
@@ -1082,6 +1090,11 @@ int MESH_Parallel_Check_Ghost(Mesh_ptr mesh, int rank) {
 	MSTK_Report(funcname,mesg,MSTK_ERROR);
 	valid = 0;
       }
+      else if (!MESH_Has_Ghosts_From_Prtn(mesh,MF_MasterParID(mf),MFACE)) {
+	sprintf(mesg,"Ghost Face %-d on partition %d has master partition id %d from which there are no ghosts",MF_GlobalID(mf),rank,MF_MasterParID(mf));
+	MSTK_Report(funcname,mesg,MSTK_ERROR);
+	valid = 0;
+      }
     }
     else  {
       if(MF_MasterParID(mf) != rank) {
@@ -1101,6 +1114,11 @@ int MESH_Parallel_Check_Ghost(Mesh_ptr mesh, int rank) {
 	MSTK_Report(funcname,mesg,MSTK_ERROR);
 	valid = 0;
       }
+      else if (!MESH_Has_Ghosts_From_Prtn(mesh,MR_MasterParID(mr),MREGION)) {
+	sprintf(mesg,"Ghost Region %-d on partition %d has master partition id %d from which there are no ghosts",MR_GlobalID(mr),rank,MR_MasterParID(mr));
+	MSTK_Report(funcname,mesg,MSTK_ERROR);
+	valid = 0;
+      }
     }
     else  {
       if(MR_MasterParID(mr) != rank) {
-- 
2.43.0


From 0b418f550963644d828477aabe04808c555a34d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:27 +0000
Subject: [PATCH 011/101] fix: write coordinates and real attribute values to
 MSTK files without losing digits

---
 src/base/MESH_WriteToFile.c | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/base/MESH_WriteToFile.c b/src/base/MESH_WriteToFile.c
index 2973c5d..8bb02e3 100644
--- a/src/base/MESH_WriteToFile.c
+++ b/src/base/MESH_WriteToFile.c
@@ -122,7 +122,7 @@ extern "C" {
     gdim = MV_GEntDim(mv);
     gid = MV_GEntID(mv);
 
-    fprintf(fp,"%24.16lf %24.16lf %24.16lf   %d %d\n",
+    fprintf(fp,"%24.17g %24.17g %24.17g   %d %d\n",
 	    xyz[0],xyz[1],xyz[2],gdim,gid);
     
   }
@@ -448,12 +448,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.17g ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.17g ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -473,12 +473,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.17g ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.17g ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -498,12 +498,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.17g ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.17g ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -524,12 +524,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.17g ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.17g ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -550,12 +550,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.17g ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.17g ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -573,12 +573,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.17g ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.17g ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -596,12 +596,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.17g ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.17g ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -619,12 +619,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.17g ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.17g ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
-- 
2.43.0


From def80d34ba71bfb50e5e4c7dc3bfdb435abadd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:43 +0000
Subject: [PATCH 012/101] fix: report failed writes of MSTK files, allow long
 file names

---
 src/base/MESH_WriteToFile.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/base/MESH_WriteToFile.c b/src/base/MESH_WriteToFile.c
index 8bb02e3..a53be12 100644
--- a/src/base/MESH_WriteToFile.c
+++ b/src/base/MESH_WriteToFile.c
@@ -29,7 +29,7 @@ extern "C" {
 
   int MESH_WriteToFile(Mesh_ptr mesh, const char *filename, RepType rtype, MSTK_Comm comm) {
   FILE *fp;
-  char mesg[80], attname[256];
+  char *mesg, attname[256];
   int i, j, k, idx;
   int gdim, gid;
   int mvid, mvid0, mvid1, mvid2, mrid2, meid, mfid, mrid;
@@ -48,7 +48,8 @@ extern "C" {
   MType attentdim;
   MAttType atttype;
 
-  char modfilename[256];
+  /* room for ".NUMPROCS.RANK" after the file name */
+  char *modfilename = (char *) malloc(strlen(filename)+32);
   strcpy(modfilename, filename);
   
   int rank = 0, numprocs = 1;
@@ -66,8 +67,11 @@ extern "C" {
 #endif
   
   if (!(fp = fopen(modfilename,"w"))) {
+    mesg = (char *) malloc(strlen(modfilename)+64);
     sprintf(mesg,"Cannot open file %-s for writing",modfilename);
     MSTK_Report("MESH_WriteToFile",mesg,MSTK_ERROR);
+    free(mesg);
+    free(modfilename);
     return 0;
   }
 
@@ -664,11 +668,22 @@ extern "C" {
   MAttrib_Delete(ridatt);
 
 
+  /* Make sure everything made it to the file - ferror tells about
+     errors so far and fclose about errors in writing out what was
+     still buffered */
 
+  int ok = !ferror(fp);
+  if (fclose(fp) != 0) ok = 0;
+  if (!ok) {
+    mesg = (char *) malloc(strlen(modfilename)+64);
+    sprintf(mesg,"Error while writing file %-s",modfilename);
+    MSTK_Report("MESH_WriteToFile",mesg,MSTK_ERROR);
+    free(mesg);
+  }
 
-  fclose(fp);
+  free(modfilename);
 
-  return 1;
+  return ok;
 }
 
 #ifdef __cplusplus
-- 
2.43.0


From da2b001bcd0db7a97eae0c3fc15d13305f8472a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:43 +0000
Subject: [PATCH 013/101] fix: write regions of R2 MSTK files in terms of
 vertices as the reader expects

---
 src/base/MESH_WriteToFile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/MESH_WriteToFile.c b/src/base/MESH_WriteToFile.c
index a53be12..c660a07 100644
--- a/src/base/MESH_WriteToFile.c
+++ b/src/base/MESH_WriteToFile.c
@@ -241,7 +241,7 @@ extern "C" {
 
 
   if (nr) {
-    if (reptype <= F4 || reptype >= R2) {
+    if (reptype <= F4 || reptype > R2) {
       fprintf(fp,"regions face\n");
 
       idx = 0;
-- 
2.43.0


From e7e5f21ee0653b77315123ebb94cd421488cdbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:17 +0000
Subject: [PATCH 014/101] fix: read back attribute names with blanks from MSTK
 files

---
 src/base/MESH_InitFromFile.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/base/MESH_InitFromFile.c b/src/base/MESH_InitFromFile.c
index 9fad8e3..2ffea6a 100644
--- a/src/base/MESH_InitFromFile.c
+++ b/src/base/MESH_InitFromFile.c
@@ -804,7 +804,8 @@ extern "C" {
 
     done = 0;
     while (!done) {
-      status = fscanf(fp,"%s",attname);
+      /* The name takes up the whole line since it may have blanks in it */
+      status = fscanf(fp," %255[^\n]",attname);
       if (status == EOF) {
 	done = 1;
 	continue;
@@ -813,6 +814,9 @@ extern "C" {
 	MSTK_Report("MESH_InitFromFile",
 		    "Error in reading attribute data",MSTK_FATAL);
 
+      for (j = strlen(attname); j > 0 && strchr(" \t\r",attname[j-1]); j--)
+	attname[j-1] = '\0';
+
       status = fscanf(fp,"%s",atttype_str);
       if (status == EOF)
 	MSTK_Report("MESH_InitFromFile",
-- 
2.43.0


From 73d3ced04afe02fd246ec7441d8d63b9ed12bdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:54 +0000
Subject: [PATCH 015/101] fix: notice MSTK files that end or go bad in the
 middle of a record

---
 src/base/MESH_InitFromFile.c | 58 ++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/src/base/MESH_InitFromFile.c b/src/base/MESH_InitFromFile.c
index 2ffea6a..ddfae6f 100644
--- a/src/base/MESH_InitFromFile.c
+++ b/src/base/MESH_InitFromFile.c
@@ -55,14 +55,14 @@ extern "C" {
   }
 
   status = fscanf(fp,"%s %lf",temp_str,&ver);
-  if (strcmp(temp_str,"MSTK") != 0) {
+  if (status == EOF)
+    MSTK_Report("MESH_InitFromFile",
+		"Premature end of file before any mesh data is read",MSTK_FATAL);
+  if (status < 2 || strcmp(temp_str,"MSTK") != 0) {
     MSTK_Report("MESH_InitFromFile","Not a MSTK file",MSTK_ERROR);
     fclose(fp);
     return 0;
   }
-  if (status == EOF)
-    MSTK_Report("MESH_InitFromFile",
-		"Premature end of file before any mesh data is read",MSTK_FATAL);
 
   if (ver != MSTK_FILE_VER) {
     MSTK_Report("MESH_InitFromFile","Version mismatch",MSTK_WARN);
@@ -73,6 +73,9 @@ extern "C" {
   if (status == EOF)
     MSTK_Report("MESH_InitFromFile",
 		"Premature end of file before any mesh data is read",MSTK_FATAL);
+  else if (status < 5)
+    MSTK_Report("MESH_InitFromFile",
+		"Error in reading representation type and mesh size",MSTK_FATAL);
 
 
   found = 0;
@@ -124,7 +127,7 @@ extern "C" {
       if (status == EOF)
 	MSTK_Report("MESH_InitFromFile",
 		    "Premature end of file while reading vertices",MSTK_FATAL);
-      else if (status == 0)
+      else if (status < 5)
 	MSTK_Report("MESH_InitFromFile",
 		    "Error in reading vertex data",MSTK_FATAL);
 
@@ -213,8 +216,12 @@ extern "C" {
 	  MSTK_Report("MESH_InitFromFile",
 		      "Error in reading adjacent vertex data",MSTK_FATAL);
 	
-	for (j = 0; j < nav; j++)
+	for (j = 0; j < nav; j++) {
 	  status = fscanf(fp,"%d",&adjvid);
+	  if (status < 1)
+	    MSTK_Report("MESH_InitFromFile",
+			"Error in reading adjacent vertex data",MSTK_FATAL);
+	}
       }
     }
 
@@ -260,7 +267,7 @@ extern "C" {
 	if (status == EOF)
 	  MSTK_Report("MESH_InitFromFile",
 		      "Premature end of file while reading edges",MSTK_FATAL);
-	else if (status == 0)
+	else if (status < 4)
 	  MSTK_Report("MESH_InitFromFile",
 		      "Error in reading edge data",MSTK_FATAL);
 
@@ -291,7 +298,7 @@ extern "C" {
 	if (status == EOF)
 	  MSTK_Report("MESH_InitFromFile",
 		      "Premature end of file while reading edges",MSTK_FATAL);
-	else if (status == 0)
+	else if (status < 4)
 	  MSTK_Report("MESH_InitFromFile",
 		      "Error in reading edge data",MSTK_FATAL);
       }
@@ -390,7 +397,7 @@ extern "C" {
 	  if (status == EOF)
 	    MSTK_Report("MESH_InitFromFile",
 			"Premature end of file while reading face data",MSTK_FATAL);
-	  else if (status == 0)
+	  else if (status < 2)
 	    MSTK_Report("MESH_InitFromFile",
 			"Error in reading face data",MSTK_FATAL);
 	  
@@ -477,7 +484,7 @@ extern "C" {
 	  if (status == EOF)
 	    MSTK_Report("MESH_InitFromFile",
 			"Premature end of file while reading faces",MSTK_FATAL);
-	  else if (status == 0)
+	  else if (status < 2)
 	    MSTK_Report("MESH_InitFromFile",
 			"Error in reading face data",MSTK_FATAL);
 	  
@@ -591,7 +598,7 @@ extern "C" {
 	  if (status == EOF)
 	    MSTK_Report("MESH_InitFromFile",
 			"Premature end of file while reading regions",MSTK_FATAL);
-	  else if (status == 0)
+	  else if (status < 2)
 	    MSTK_Report("MESH_InitFromFile",
 			"Error in reading region data",MSTK_FATAL);
 	  
@@ -677,7 +684,7 @@ extern "C" {
 	  if (status == EOF)
 	    MSTK_Report("MESH_InitFromFile",
 			  "Premature end of file while reading region",MSTK_FATAL);
-	  else if (status == 0)
+	  else if (status < 2)
 	    MSTK_Report("MESH_InitFromFile",
 			"Error in reading region data",MSTK_FATAL);
 	  
@@ -903,32 +910,37 @@ extern "C" {
 	if (status == EOF)
 	  MSTK_Report("MESH_InitFromFile",
 		      "Premature end of file while reading attributes",MSTK_FATAL);
-	else if (status == 0)
+	else if (status < 2)
 	  MSTK_Report("MESH_InitFromFile",
 		      "Error in reading attribute data",MSTK_FATAL);
 	
+	int nval_read = 0, nval = (atttype == VECTOR || atttype == TENSOR) ? ncomp : 1;
+
 	if (attent != dim && attent != MALLTYPE) {
 	  MSTK_Report("MESH_InitFromFile",
 		      "Attribute not applicable to this type of entity",MSTK_WARN);
-	  if (atttype == INT)
-	    status = fscanf(fp,"%d",&ival);
-	  else
-	    for (j = 0; j < ncomp; j++)
-	      status = fscanf(fp,"%lf",&rval);
+	  for (j = 0; j < nval; j++)
+	    nval_read += (fscanf(fp,"%lf",&rval) == 1);
 	}
 	else {
 
 	  if (atttype == INT)
-	    status = fscanf(fp,"%d",&ival);
+	    nval_read = (fscanf(fp,"%d",&ival) == 1);
 	  else if (atttype == DOUBLE)
-	    status = fscanf(fp,"%lf",&rval);
+	    nval_read = (fscanf(fp,"%lf",&rval) == 1);
 	  else if (atttype == VECTOR || atttype == TENSOR) {
 	    ival = ncomp;
 	    rval_arr = (double *) malloc(ncomp*sizeof(double));
-	    for (j = 0; j < ncomp; j++) {
-	      status = fscanf(fp,"%lf",&(rval_arr[j]));
-	    }
+	    for (j = 0; j < ncomp; j++)
+	      nval_read += (fscanf(fp,"%lf",&(rval_arr[j])) == 1);
 	  }
+	}
+
+	if (nval_read != nval)
+	  MSTK_Report("MESH_InitFromFile",
+		      "Error in reading attribute values",MSTK_FATAL);
+
+	if (attent == dim || attent == MALLTYPE) {
 
 	  switch (dim) {
 	  case MVERTEX:
-- 
2.43.0


From 02f7091c6def97b91509ef4d3fc95569c5ccf85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:27 +0000
Subject: [PATCH 016/101] fix: reading an MSTK file succeeds only if all of the
 mesh was there

---
 src/base/MESH_InitFromFile.c | 106 +++++++++++++++++++----------------
 1 file changed, 59 insertions(+), 47 deletions(-)

diff --git a/src/base/MESH_InitFromFile.c b/src/base/MESH_InitFromFile.c
index ddfae6f..b0ba513 100644
--- a/src/base/MESH_InitFromFile.c
+++ b/src/base/MESH_InitFromFile.c
@@ -23,13 +23,27 @@ extern "C" {
   extern RepType MESH_rtype[5];
   extern char MESH_rtype_str[5][3];
 
+  /* Finish reading the file. Having got to the end of the file is a
+     success only if it was not an error that cut the reading short and
+     if all the entities announced in the header were there */
+
+  static int finish_read(FILE *fp, int complete) {
+    int ok = complete && !ferror(fp);
+    fclose(fp);
+    if (!ok)
+      MSTK_Report("MESH_InitFromFile","Could not read all of the mesh file",
+		  MSTK_ERROR);
+    return ok;
+  }
+
   /* File name should have the .mstk extension - will not check here */
   /* MSTK_Comm argument can be NULL only if MPI is not enabled        */
 
   int MESH_InitFromFile(Mesh_ptr mesh, const char *filename, MSTK_Comm comm) {
   FILE *fp;
   char inp_rtype[16], temp_str[256], fltype_str[16], rltype_str[16];
-  char attname[256], atttype_str[256], attent_str[256];
+  char attname[256], atttype_str[256], attent_str[256], mesg[512];
+  int nf_file, nr_file;
   int i, j, found, NV=0, NE=0, NF=0, NR=0, nav, nar, gdim, gid;
   int id, dim, vid1, vid2, eid, fid, rid, adjvid, adjrid, adjv_flag;
   int nfv, max_nfv=0, nfe, max_nfe=0, nrv, max_nrv=0, nrf, max_nrf=0;
@@ -49,12 +63,12 @@ extern "C" {
   RepType file_reptype;
 
   if (!(fp = fopen(filename,"r"))) {
-    sprintf(temp_str,"Cannot open file %s",filename);
-    MSTK_Report("MESH_InitFromFile",temp_str,MSTK_ERROR);
+    snprintf(mesg,sizeof(mesg),"Cannot open file %s",filename);
+    MSTK_Report("MESH_InitFromFile",mesg,MSTK_ERROR);
     return 0;
   }
 
-  status = fscanf(fp,"%s %lf",temp_str,&ver);
+  status = fscanf(fp,"%255s %lf",temp_str,&ver);
   if (status == EOF)
     MSTK_Report("MESH_InitFromFile",
 		"Premature end of file before any mesh data is read",MSTK_FATAL);
@@ -68,7 +82,7 @@ extern "C" {
     MSTK_Report("MESH_InitFromFile","Version mismatch",MSTK_WARN);
   }
 
-  status = fscanf(fp,"%s %d %d %d %d\n",inp_rtype,
+  status = fscanf(fp,"%15s %d %d %d %d\n",inp_rtype,
 		  &(mesh->nv),&(mesh->ne),&(mesh->nf),&(mesh->nr));
   if (status == EOF)
     MSTK_Report("MESH_InitFromFile",
@@ -77,6 +91,9 @@ extern "C" {
     MSTK_Report("MESH_InitFromFile",
 		"Error in reading representation type and mesh size",MSTK_FATAL);
 
+  /* counts in the mesh structure change as entities get added */
+  nf_file = mesh->nf;
+  nr_file = mesh->nr;
 
   found = 0;
   for (i = 0; i < MSTK_MAXREP; i++) {
@@ -109,7 +126,7 @@ extern "C" {
   }
 
 
-  status = fscanf(fp,"%s",temp_str);
+  status = fscanf(fp,"%255s",temp_str);
   if (status == EOF)
     MSTK_Report("MESH_InitFromFile",
 		"Premature end of file while looking for vertex data",MSTK_FATAL);
@@ -150,13 +167,15 @@ extern "C" {
   }
 
 
-  status = fscanf(fp,"%s",temp_str);
+  status = fscanf(fp,"%255s",temp_str);
   if (status == EOF) {
     if (mesh->ne || mesh->nf || mesh->nr)
       MSTK_Report("MESH_InitFromFile",
 		  "Premature end of file after vertex data",MSTK_FATAL);
-    else
+    else {
+      fclose(fp);
       return 0;
+    }
   }
 
 
@@ -237,15 +256,13 @@ extern "C" {
     
 
   if (processed_adjv) {
-    status = fscanf(fp,"%s",temp_str);
+    status = fscanf(fp,"%255s",temp_str);
     if (status == EOF) {
       if (mesh->ne || mesh->nf || mesh->nr)
 	MSTK_Report("MESH_InitFromFile",
 		    "Premature end of file after adjacent vertex data",MSTK_FATAL);
-      else {
-        fclose(fp);
-	return 1;
-      }
+      else
+	return finish_read(fp, 1);
     }
   }
 
@@ -309,21 +326,20 @@ extern "C" {
   else {
     if (file_reptype >= F1 && file_reptype <= F4) {
       MSTK_Report("MESH_InitFromFile","Expected edge information",MSTK_ERROR);
+      fclose(fp);
       return 0;
     }
   }
   
   if (processed_edges) {
-    status = fscanf(fp,"%s",temp_str);
+    status = fscanf(fp,"%255s",temp_str);
     if (status == EOF) {
       if (mesh->nf || mesh->nr) {
 	MSTK_Report("MESH_InitFromFile",
 		    "Premature end of file after edge data",MSTK_FATAL);
       }
-      else {
-        fclose(fp);
-	return 1;
-      }
+      else
+	return finish_read(fp, 1);
     }
   }
 
@@ -341,7 +357,7 @@ extern "C" {
     NF = mesh->nf;
     mesh->mface = List_New(NF);
 
-    status = fscanf(fp,"%s",fltype_str);
+    status = fscanf(fp,"%15s",fltype_str);
     if (status == EOF)
       MSTK_Report("MESH_InitFromFile",
 		  "Premature end of file while reading faces",MSTK_FATAL);
@@ -503,6 +519,7 @@ extern "C" {
       else {
 	MSTK_Report("MESH_InitFromFile",
 		    "Expect face description in terms of edges",MSTK_ERROR);
+	fclose(fp);
 	return 0;
       }
     }
@@ -517,15 +534,13 @@ extern "C" {
   
   
   if (processed_faces) {
-    status = fscanf(fp,"%s",temp_str);
+    status = fscanf(fp,"%255s",temp_str);
     if (status == EOF) {
       if (mesh->nr != 0)
 	MSTK_Report("MESH_InitFromFile",
 		    "Premature end of file after face data",MSTK_FATAL);
-      else {
-        fclose(fp);
-	return 1;
-      }
+      else
+	return finish_read(fp, 1);
     }
     else if (status == 0)
       MSTK_Report("MESH_InitFromFile",
@@ -542,7 +557,7 @@ extern "C" {
     NR = mesh->nr;
     mesh->mregion = List_New(NR);
 
-    status = fscanf(fp,"%s",rltype_str);
+    status = fscanf(fp,"%15s",rltype_str);
     if (status == EOF)
       MSTK_Report("MESH_InitFromFile",
 		  "Premature end of file while reading regions",MSTK_FATAL);
@@ -711,15 +726,13 @@ extern "C" {
   }
 
   if (processed_regions) {
-    status = fscanf(fp,"%s",temp_str);
+    status = fscanf(fp,"%255s",temp_str);
     if (status == EOF) {
       if (mesh->reptype == R2)
 	MSTK_Report("MESH_InitFromFile",
 		    "Premature end of file after reading regions",MSTK_FATAL);
-      else {
-        fclose(fp);
-	return 1;
-      }
+      else
+	return finish_read(fp, 1);
     }
   }
 
@@ -793,15 +806,9 @@ extern "C" {
   }
 
   if (processed_adjr) {
-    status = fscanf(fp,"%s",temp_str);
+    status = fscanf(fp,"%255s",temp_str);
     if (status == EOF) {
-      if (mesh->reptype == R2)
-	MSTK_Report("MESH_InitFromFile",
-		    "Premature end of file after reading regions",MSTK_FATAL);
-      else {
-        fclose(fp);
-	return 1;
-      }
+      return finish_read(fp, 1);
     }
   }
 
@@ -824,7 +831,7 @@ extern "C" {
       for (j = strlen(attname); j > 0 && strchr(" \t\r",attname[j-1]); j--)
 	attname[j-1] = '\0';
 
-      status = fscanf(fp,"%s",atttype_str);
+      status = fscanf(fp,"%255s",atttype_str);
       if (status == EOF)
 	MSTK_Report("MESH_InitFromFile",
 		    "Premature end of file while reading attributes",MSTK_FATAL);
@@ -845,8 +852,8 @@ extern "C" {
       else if (strncmp(atttype_str,"TENSOR",6) == 0)
 	atttype = TENSOR;
       else {
-	sprintf(temp_str,"%-s not a recognized attribute type",atttype_str);
-	MSTK_Report("MESH_InitFromFile",temp_str,MSTK_FATAL);
+	sprintf(mesg,"%-s not a recognized attribute type",atttype_str);
+	MSTK_Report("MESH_InitFromFile",mesg,MSTK_FATAL);
       }
 
       status = fscanf(fp,"%d",&ncomp);
@@ -864,7 +871,7 @@ extern "C" {
 
 
 
-      status = fscanf(fp,"%s",attent_str);
+      status = fscanf(fp,"%255s",attent_str);
       if (status == EOF)
 	MSTK_Report("MESH_InitFromFile",
 		    "Premature end of file while reading attributes",MSTK_FATAL);
@@ -883,9 +890,9 @@ extern "C" {
       else if (strncmp(attent_str,"MALLTYPE",8) == 0)
 	attent = MALLTYPE;
       else {
-	sprintf(temp_str,"%s not a recognized entity type for attributes",
+	sprintf(mesg,"%s not a recognized entity type for attributes",
 		attent_str);
-	MSTK_Report("MESH_InitFromFile",temp_str,MSTK_FATAL);
+	MSTK_Report("MESH_InitFromFile",mesg,MSTK_FATAL);
       }
 
       status = fscanf(fp,"%d",&nent);
@@ -969,10 +976,15 @@ extern "C" {
     } /* while (!done) */
 
   }
+  else {
+    fclose(fp);
+    sprintf(mesg,"Unexpected keyword %s",temp_str);
+    MSTK_Report("MESH_InitFromFile",mesg,MSTK_ERROR);
+    return 0;
+  }
 
-  fclose(fp);
-
-  return 1;
+  return finish_read(fp, nr_file ? processed_regions :
+		     (!nf_file || processed_faces));
 }
 
 
-- 
2.43.0


From 83d576a354693f20f7b2806de3f3d20ff3de0fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:45 +0000
Subject: [PATCH 017/101] fix: close OFF files, report failed writes of OFF and
 STL files

---
 src/io/MESH_ExportToOFF.c | 11 ++++++++---
 src/io/MESH_ExportToSTL.c | 21 +++++++++++----------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/io/MESH_ExportToOFF.c b/src/io/MESH_ExportToOFF.c
index aad997f..20b7c34 100644
--- a/src/io/MESH_ExportToOFF.c
+++ b/src/io/MESH_ExportToOFF.c
@@ -31,8 +31,8 @@ int MESH_ExportToOFF(Mesh_ptr mesh, const char *filename) {
   }
 
   if (!(fp = fopen(filename,"w"))) {
-    sprintf(mesg,"Couldn't open output file %s\n",filename);
-    MSTK_Report("MESH_ExportToSTL",mesg,MSTK_ERROR);
+    snprintf(mesg,sizeof(mesg),"Couldn't open output file %s\n",filename);
+    MSTK_Report("MESH_ExportToOFF",mesg,MSTK_ERROR);
     return 0;
   }
 
@@ -65,7 +65,12 @@ int MESH_ExportToOFF(Mesh_ptr mesh, const char *filename) {
     List_Delete(fverts);
   }
 
-  return 1;
+  int ok = !ferror(fp);
+  if (fclose(fp) != 0) ok = 0;
+  if (!ok)
+    MSTK_Report("MESH_ExportToOFF","Error while writing file",MSTK_ERROR);
+
+  return ok;
 }
 
 #ifdef __cplusplus
diff --git a/src/io/MESH_ExportToSTL.c b/src/io/MESH_ExportToSTL.c
index ad4ed5b..9cba8a5 100644
--- a/src/io/MESH_ExportToSTL.c
+++ b/src/io/MESH_ExportToSTL.c
@@ -28,13 +28,6 @@ int MESH_ExportToSTL(Mesh_ptr mesh, const char *filename) {
   double		fxyz[MAXPV2][3], normal[3], len, vec1[3], vec2[3];
   FILE		        *fp;
 
-  
-  if (!(fp = fopen(filename,"w"))) {
-    sprintf(mesg,"Couldn't open output file %s\n",filename);
-    MSTK_Report("MESH_ExportToSTL",mesg,MSTK_ERROR);
-    return 0;
-  }
-
   if (MESH_Num_Regions(mesh)) {
     MSTK_Report("MESH_ExportToSTL","Cannot export solid meshes\n",MSTK_ERROR);
     return 0;
@@ -50,7 +43,12 @@ int MESH_ExportToSTL(Mesh_ptr mesh, const char *filename) {
       return 0;
     }
   }
-  
+
+  if (!(fp = fopen(filename,"w"))) {
+    snprintf(mesg,sizeof(mesg),"Couldn't open output file %s\n",filename);
+    MSTK_Report("MESH_ExportToSTL",mesg,MSTK_ERROR);
+    return 0;
+  }
 
   /* Opening line for STL file */
   fprintf(fp,"solid\n");
@@ -92,9 +90,12 @@ int MESH_ExportToSTL(Mesh_ptr mesh, const char *filename) {
 
   fprintf(fp,"endsolid");
 
-  fclose(fp);
+  int ok = !ferror(fp);
+  if (fclose(fp) != 0) ok = 0;
+  if (!ok)
+    MSTK_Report("MESH_ExportToSTL","Error while writing file",MSTK_ERROR);
 
-  return 1;
+  return ok;
 }
 
 #ifdef __cplusplus
-- 
2.43.0


From 775184db1f07b6c68980a6506687ec5de48584f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:55 +0000
Subject: [PATCH 018/101] fix: DX export reports whether its files could be
 written

---
 src/io/MESH_ExportToDXBin.c | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/io/MESH_ExportToDXBin.c b/src/io/MESH_ExportToDXBin.c
index 173992f..89b42ba 100644
--- a/src/io/MESH_ExportToDXBin.c
+++ b/src/io/MESH_ExportToDXBin.c
@@ -11,7 +11,7 @@ https://github.com/MeshToolkit/MSTK/blob/master/LICENSE
 #include <string.h>
 #include "MSTK.h"
 
-void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
+int MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
   int i, k, k1, bt, bq, bgf, bpy, bpr, bh, nreg, np, offset;
   int nvf, nrf, objnum, fed0, fed1, fed2, rfd0, flip;
   int nbtris=0, nbquads=0, ngenf=0, ntets=0, npyrs=0, nprisms=0, nhexes=0;
@@ -29,7 +29,8 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
   float *dattri=0, *datquad=0, *datgenf=0, *dattet=0, *datprm=0, *datpyr=0, *dathex=0;
   double xyz[3], fxyz[MAXPV2][3];
   double (*polcen2)[3];
-  char   basename[256], datfname[256];
+  char   *basename, *datfname;
+  int    ok = 1;
   char   xsb[4];
   int rvtmpl[4][8]={{0,1,2,3,-1,-1,-1,-1},
 		    {0,1,2,3,4,-1,-1,-1},
@@ -37,12 +38,21 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 		    {0,1,3,2,4,5,7,6}};
   int haveModel = 1;
  
+  basename = (char *) malloc(strlen(fname)+1);
   strcpy(basename,fname);
-  basename[strlen(fname)-3] = '\0'; 
+  if (strlen(fname) >= 3)
+    basename[strlen(fname)-3] = '\0'; 
 
+  datfname = (char *) malloc(strlen(basename)+5);
   strcpy(datfname,basename);
   strcat(datfname,".dat");
   fdat = fopen(datfname,"wb");
+  if (!fdat) {
+    MSTK_Report("MESH_ExportToDX","Couldn't open data file for writing",MSTK_ERROR);
+    free(basename);
+    free(datfname);
+    return 0;
+  }
 
 
   /* Write out vertex coordinates */
@@ -426,12 +436,19 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 	fwrite((void *)dathex,sizeof(float),nhexes,fdat);
     }
   }
-  fclose(fdat);
+  if (ferror(fdat)) ok = 0;
+  if (fclose(fdat) != 0) ok = 0;
     
   free(idbtet);
 
   /* Now write into the .dx file */
   fout = fopen(fname,"w");
+  if (!fout) {
+    MSTK_Report("MESH_ExportToDX","Couldn't open output file for writing",MSTK_ERROR);
+    free(basename);
+    free(datfname);
+    return 0;
+  }
   
 #ifdef i686_linux
   strcpy(xsb,"lsb");
@@ -629,6 +646,14 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
   }
 
   fprintf(fout,"end\n");
-  fclose(fout);
+  if (ferror(fout)) ok = 0;
+  if (fclose(fout) != 0) ok = 0;
+  if (!ok)
+    MSTK_Report("MESH_ExportToDX","Error while writing files",MSTK_ERROR);
+
+  free(basename);
+  free(datfname);
+
+  return ok;
 }
 
-- 
2.43.0


From f3d0732c93e519fd6e074553db145bc81f4a8647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:16 +0000
Subject: [PATCH 019/101] fix: X3D export reports failed writes and leaves the
 file name passed to it alone

---
 src/io/MESH_ExportToFLAGX3D.c | 60 ++++++++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 11 deletions(-)

diff --git a/src/io/MESH_ExportToFLAGX3D.c b/src/io/MESH_ExportToFLAGX3D.c
index 0043f02..e686ace 100644
--- a/src/io/MESH_ExportToFLAGX3D.c
+++ b/src/io/MESH_ExportToFLAGX3D.c
@@ -33,6 +33,15 @@ extern "C" {
   */
 
 
+/* Close a file. Returns 0 if any of what was written did not make it to
+   the file and 1 otherwise */
+
+static int close_file(FILE *fp) {
+  int ok = !ferror(fp);
+  if (fclose(fp) != 0) ok = 0;
+  return ok;
+}
+
 int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt, 
 			 const char **attnames, const int *opts, MSTK_Comm comm) {
   int			gentid, *gentities;
@@ -45,7 +54,8 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
   MAttrib_ptr           vidatt_tmp, eidatt_tmp, fidatt_tmp, ridatt_tmp, oppatt, opppidatt;
   MAttType              atttype;
   char                  attname[256], matname[256], tmpstr[256];
-  char                  modfilename[256];
+  char                  *modfilename, *basefilename;
+  int                   ok = 1;
   int                   jv, je, jr, jf;
   int                   nv, ne, nf, nr, nrf, nfv, nef, nfe, nfr, nvout;
   int			i, found, k, nmeshatt, ival=0, ndim;
@@ -67,6 +77,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
 #endif
 
  
+  modfilename = (char *) malloc(strlen(filename)+32);
   strcpy(modfilename,filename);
   if (numprocs > 1)
     sprintf(modfilename,"%s.%05d",filename,pid);
@@ -77,8 +88,16 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     exit(2);
   }
   
-  char *basefilename = strtok(filename, ".");
-  
+  free(modfilename);
+
+  /* Name up to the first '.' (not counting those in directory names) */
+  basefilename = (char *) malloc(strlen(filename)+1);
+  strcpy(basefilename, filename);
+  char *lastpart = strrchr(basefilename, '/');
+  lastpart = lastpart ? lastpart+1 : basefilename;
+  lastpart += strspn(lastpart, ".");
+  lastpart[strcspn(lastpart, ".")] = '\0';
+
   nv = MESH_Num_Vertices(mesh);
   ne = MESH_Num_Edges(mesh);
   nf = MESH_Num_Faces(mesh);
@@ -86,6 +105,8 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
   if (!nr && !nf) {
     fprintf(stderr,
 	    "Format does not support meshes with only edges or nodes\n");
+    fclose(fp);
+    free(basefilename);
     return 0;
   }
   
@@ -1251,7 +1272,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
   
   fprintf(fp,"end_dump\n");
 
-  fclose(fp);
+  if (!close_file(fp)) ok = 0;
 
 
   /* Write out elements of each material (derived from each element
@@ -1266,7 +1287,10 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
       sprintf(ext, ".%05d",pid);
       strcat(regfilename, ext);
     }
-    fp = fopen(regfilename, "w");
+    if (!(fp = fopen(regfilename, "w"))) {
+      ok = 0;
+      continue;
+    }
     if (nr) {
       idx = 0;
       while ((region = MESH_Next_Region(mesh, &idx))) {
@@ -1297,7 +1321,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
       }
       
     }
-    fclose(fp);
+    if (!close_file(fp)) ok = 0;
   }
   
   /* Write out each element set as a .Reg file; Some or all of these
@@ -1312,7 +1336,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     char setname[256];
     MSet_Name(mset, setname);
 
-    char regfilename[256];
+    char *regfilename = (char *) malloc(strlen(basefilename)+strlen(setname)+32);
     strcpy(regfilename, basefilename);
     strcat(regfilename, ".");
     strcat(regfilename, setname);
@@ -1324,6 +1348,11 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     }
 
     fp = fopen(regfilename, "w");
+    free(regfilename);
+    if (!fp) {
+      ok = 0;
+      continue;
+    }
     
     int idx2 = 0;
     MEntity_ptr ment;
@@ -1336,7 +1365,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
       if (MEnt_PType(ment) != PGHOST)
         fprintf(fp, "% 20.18e\n",1.0);
 
-    fclose(fp);
+    if (!close_file(fp)) ok = 0;
   }
 
 
@@ -1349,7 +1378,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     char setname[256];
     MSet_Name(mset, setname);
 
-    char bdyfilename[256];
+    char *bdyfilename = (char *) malloc(strlen(basefilename)+strlen(setname)+32);
     strcpy(bdyfilename, basefilename);
     strcat(bdyfilename, ".");
     strcat(bdyfilename, setname);
@@ -1361,6 +1390,11 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     }
 
     fp = fopen(bdyfilename, "w");
+    free(bdyfilename);
+    if (!fp) {
+      ok = 0;
+      continue;
+    }
     
     int idx2 = 0;
     MEntity_ptr ment;
@@ -1368,7 +1402,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
       if (MEnt_PType(ment) != PGHOST || MEnt_OnParBoundary(ment))
         fprintf(fp, "% 10d\n", MEnt_ID(ment));
 
-    fclose(fp);
+    if (!close_file(fp)) ok = 0;
   }
 
 
@@ -1376,6 +1410,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
   
   /* Clean up */
   
+  free(basefilename);
   free(gentities);
   
   idx = 0;
@@ -1398,8 +1433,11 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
   MAttrib_Delete(eidatt_tmp);
   MAttrib_Delete(fidatt_tmp);
   MAttrib_Delete(ridatt_tmp);
+
+  if (!ok)
+    MSTK_Report("MESH_ExportToFLAGX3D","Error while writing files",MSTK_ERROR);
   
-  return 1;
+  return ok;
 }
 
 
-- 
2.43.0


From acb16e722653b01840776f27bff0559d015ec8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:16 +0000
Subject: [PATCH 020/101] fix: X3D export removes all its temporary attributes
 from the mesh

---
 src/io/MESH_ExportToFLAGX3D.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/MESH_ExportToFLAGX3D.c b/src/io/MESH_ExportToFLAGX3D.c
index e686ace..8bc1306 100644
--- a/src/io/MESH_ExportToFLAGX3D.c
+++ b/src/io/MESH_ExportToFLAGX3D.c
@@ -1414,8 +1414,10 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
   free(gentities);
   
   idx = 0;
-  while ((vertex = MESH_Next_Vertex(mesh,&idx)))
+  while ((vertex = MESH_Next_Vertex(mesh,&idx))) {
     MEnt_Rem_AttVal(vertex,vidatt_tmp);
+    MEnt_Rem_AttVal(vertex,vmasteratt);
+  }
   
   idx = 0;
   while ((edge = MESH_Next_Edge(mesh,&idx)))
@@ -1430,6 +1432,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     MEnt_Rem_AttVal(region,ridatt_tmp);
 
   MAttrib_Delete(vidatt_tmp);
+  MAttrib_Delete(vmasteratt);
   MAttrib_Delete(eidatt_tmp);
   MAttrib_Delete(fidatt_tmp);
   MAttrib_Delete(ridatt_tmp);
-- 
2.43.0


From 9b974c990db8581ba0a19541ec0476ddef45c51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:50 +0000
Subject: [PATCH 021/101] fix: GMV export uses and removes attributes of its
 own, not the user's

---
 src/io/MESH_ExportToGMV.c | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/io/MESH_ExportToGMV.c b/src/io/MESH_ExportToGMV.c
index 4e6f443..843c12f 100644
--- a/src/io/MESH_ExportToGMV.c
+++ b/src/io/MESH_ExportToGMV.c
@@ -178,9 +178,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
 
   /* Now build up the vertex list sorted by ID and write them out */
 
-  vidatt = MESH_AttribByName(mesh,"vidatt");
-  if (!vidatt)
-    vidatt = MAttrib_New(mesh,"vidatt",INT,MVERTEX);
+  vidatt = MAttrib_New(mesh,"vidatt",INT,MVERTEX);
 
   vlist = List_New(nv);
   idx = 0; i = 1; 
@@ -257,9 +255,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
     ncells3 = nr;
     ncells += nr;
 
-    ridatt = MESH_AttribByName(mesh,"ridatt");
-    if (!ridatt)
-      ridatt = MAttrib_New(mesh,"ridatt",INT,MREGION);
+    ridatt = MAttrib_New(mesh,"ridatt",INT,MREGION);
 
     rlist = List_New(nr);
 
@@ -287,9 +283,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
 
   if (nf) {
 
-    fidatt = MESH_AttribByName(mesh,"fidatt");
-    if (!fidatt)
-      fidatt = MAttrib_New(mesh,"fidatt",INT,MFACE);
+    fidatt = MAttrib_New(mesh,"fidatt",INT,MFACE);
 
     flist = List_New(nf);
 
@@ -331,9 +325,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
 
     elist = List_New(ne);
 
-    eidatt = MESH_AttribByName(mesh,"eidatt");
-    if (!eidatt)
-      eidatt = MAttrib_New(mesh,"eidatt",INT,MEDGE);
+    eidatt = MAttrib_New(mesh,"eidatt",INT,MEDGE);
 
     ncells1 = 0;
     idx = 0; i = 1;
-- 
2.43.0


From d4b3a059990ff07513a77d90459cadea8890d0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:50 +0000
Subject: [PATCH 022/101] fix: GMV export reports failed writes

---
 src/io/MESH_ExportToGMV.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/io/MESH_ExportToGMV.c b/src/io/MESH_ExportToGMV.c
index 843c12f..01fbd66 100644
--- a/src/io/MESH_ExportToGMV.c
+++ b/src/io/MESH_ExportToGMV.c
@@ -86,7 +86,8 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
 
   gmodel = 1;
 
-  char modfilename[256];
+  char *modfilename = (char *) malloc(strlen(filename)+32);
+  int ok = 1;
 
   int rank=0, numprocs=1;
 #ifdef MSTK_HAVE_MPI
@@ -104,9 +105,10 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
 #endif
 
   if (!(fp = fopen(modfilename,"w"))) {
-    sprintf(mesg,"Cannot open file %s for writing",modfilename);
+    snprintf(mesg,sizeof(mesg),"Cannot open file %s for writing",modfilename);
     MSTK_Report(funcname,mesg,MSTK_FATAL);
   }
+  free(modfilename);
 
 
   fprintf(fp,"gmvinput ascii\n");
@@ -1304,7 +1306,10 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
 
   fprintf(fp,"endgmv\n");
 
-  fclose(fp);
+  if (ferror(fp)) ok = 0;
+  if (fclose(fp) != 0) ok = 0;
+  if (!ok)
+    MSTK_Report(funcname,"Error while writing file",MSTK_ERROR);
 
 
 
@@ -1340,7 +1345,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
   if (flist) List_Delete(flist);
   if (rlist) List_Delete(rlist);
 
-  return 1;
+  return ok;
 }
 
 #ifdef __cplusplus
-- 
2.43.0


From 72b7642ab5aa15e723b2f0c1ee4289883877eac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:43 +0000
Subject: [PATCH 023/101] fix: do not use data from an MSTK file after a read
 error

---
 src/base/MESH_InitFromFile.c | 82 ++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 41 deletions(-)

diff --git a/src/base/MESH_InitFromFile.c b/src/base/MESH_InitFromFile.c
index b0ba513..cb52bbd 100644
--- a/src/base/MESH_InitFromFile.c
+++ b/src/base/MESH_InitFromFile.c
@@ -69,7 +69,7 @@ extern "C" {
   }
 
   status = fscanf(fp,"%255s %lf",temp_str,&ver);
-  if (status == EOF)
+  if (status == EOF || ferror(fp))
     MSTK_Report("MESH_InitFromFile",
 		"Premature end of file before any mesh data is read",MSTK_FATAL);
   if (status < 2 || strcmp(temp_str,"MSTK") != 0) {
@@ -84,7 +84,7 @@ extern "C" {
 
   status = fscanf(fp,"%15s %d %d %d %d\n",inp_rtype,
 		  &(mesh->nv),&(mesh->ne),&(mesh->nf),&(mesh->nr));
-  if (status == EOF)
+  if (status == EOF || ferror(fp))
     MSTK_Report("MESH_InitFromFile",
 		"Premature end of file before any mesh data is read",MSTK_FATAL);
   else if (status < 5)
@@ -127,7 +127,7 @@ extern "C" {
 
 
   status = fscanf(fp,"%255s",temp_str);
-  if (status == EOF)
+  if (status == EOF || ferror(fp))
     MSTK_Report("MESH_InitFromFile",
 		"Premature end of file while looking for vertex data",MSTK_FATAL);
   else if (status == 0)
@@ -141,7 +141,7 @@ extern "C" {
 
     for (i = 0; i < NV; i++) {
       status = fscanf(fp,"%lf %lf %lf %d %d",&xyz[0],&xyz[1],&xyz[2],&gdim,&gid);
-      if (status == EOF)
+      if (status == EOF || ferror(fp))
 	MSTK_Report("MESH_InitFromFile",
 		    "Premature end of file while reading vertices",MSTK_FATAL);
       else if (status < 5)
@@ -168,7 +168,7 @@ extern "C" {
 
 
   status = fscanf(fp,"%255s",temp_str);
-  if (status == EOF) {
+  if (status == EOF || ferror(fp)) {
     if (mesh->ne || mesh->nf || mesh->nr)
       MSTK_Report("MESH_InitFromFile",
 		  "Premature end of file after vertex data",MSTK_FATAL);
@@ -191,7 +191,7 @@ extern "C" {
       for (i = 0; i < NV; i++) {
 	mv = List_Entry(mesh->mvertex, i);
 	status = fscanf(fp,"%d",&nav);
-	if (status == EOF)
+	if (status == EOF || ferror(fp))
 	  MSTK_Report("MESH_InitFromFile",
 		      "Premature end of file while reading adjacent vertices",
 		      MSTK_FATAL);
@@ -201,7 +201,7 @@ extern "C" {
 
 	for (j = 0; j < nav; j++) {
 	  status = fscanf(fp,"%d",&adjvid);
-	  if (status == EOF)
+	  if (status == EOF || ferror(fp))
 	    MSTK_Report("MESH_InitFromFile",
 			"Premature end of file while reading adjacent vertices"
 			,MSTK_FATAL);
@@ -227,7 +227,7 @@ extern "C" {
 
       for (i = 0; i < NV; i++) {
 	status = fscanf(fp,"%d",&nav);
-	if (status == EOF)
+	if (status == EOF || ferror(fp))
 	  MSTK_Report("MESH_InitFromFile",
 		      "Premature end of file while reading adjacent vertices",
 		      MSTK_FATAL);
@@ -237,7 +237,7 @@ extern "C" {
 	
 	for (j = 0; j < nav; j++) {
 	  status = fscanf(fp,"%d",&adjvid);
-	  if (status < 1)
+	  if (status < 1 || ferror(fp))
 	    MSTK_Report("MESH_InitFromFile",
 			"Error in reading adjacent vertex data",MSTK_FATAL);
 	}
@@ -257,7 +257,7 @@ extern "C" {
 
   if (processed_adjv) {
     status = fscanf(fp,"%255s",temp_str);
-    if (status == EOF) {
+    if (status == EOF || ferror(fp)) {
       if (mesh->ne || mesh->nf || mesh->nr)
 	MSTK_Report("MESH_InitFromFile",
 		    "Premature end of file after adjacent vertex data",MSTK_FATAL);
@@ -281,7 +281,7 @@ extern "C" {
 
       for (i = 0; i < NE; i++) {
 	status = fscanf(fp,"%d %d %d %d",&vid1,&vid2,&gdim,&gid);
-	if (status == EOF)
+	if (status == EOF || ferror(fp))
 	  MSTK_Report("MESH_InitFromFile",
 		      "Premature end of file while reading edges",MSTK_FATAL);
 	else if (status < 4)
@@ -312,7 +312,7 @@ extern "C" {
 
       for (i = 0; i < NE; i++) {
 	status = fscanf(fp,"%d %d %d %d",&vid1,&vid2,&gdim,&gid);
-	if (status == EOF)
+	if (status == EOF || ferror(fp))
 	  MSTK_Report("MESH_InitFromFile",
 		      "Premature end of file while reading edges",MSTK_FATAL);
 	else if (status < 4)
@@ -333,7 +333,7 @@ extern "C" {
   
   if (processed_edges) {
     status = fscanf(fp,"%255s",temp_str);
-    if (status == EOF) {
+    if (status == EOF || ferror(fp)) {
       if (mesh->nf || mesh->nr) {
 	MSTK_Report("MESH_InitFromFile",
 		    "Premature end of file after edge data",MSTK_FATAL);
@@ -358,7 +358,7 @@ extern "C" {
     mesh->mface = List_New(NF);
 
     status = fscanf(fp,"%15s",fltype_str);
-    if (status == EOF)
+    if (status == EOF || ferror(fp))
       MSTK_Report("MESH_InitFromFile",
 		  "Premature end of file while reading faces",MSTK_FATAL);
 
@@ -373,7 +373,7 @@ extern "C" {
 	  mf = MF_New(mesh);
 
 	  status = fscanf(fp,"%d",&nfv);
-	  if (status == EOF)
+	  if (status == EOF || ferror(fp))
 	    MSTK_Report("MESH_InitFromFile",
 			"Premature end of file while reading faces",MSTK_FATAL);
 	  else if (status == 0)
@@ -393,7 +393,7 @@ extern "C" {
 	  
 	  for (j = 0; j < nfv; j++) {
 	    status = fscanf(fp,"%d",&vid1);
-	    if (status == EOF)
+	    if (status == EOF || ferror(fp))
 	      MSTK_Report("MESH_InitFromFile",
 			  "Premature end of file while reading face data",
 			  MSTK_FATAL);
@@ -410,7 +410,7 @@ extern "C" {
 	  MF_Set_Vertices(mf,nfv,fverts);  
 
 	  status = fscanf(fp,"%d %d",&gdim,&gid);
-	  if (status == EOF)
+	  if (status == EOF || ferror(fp))
 	    MSTK_Report("MESH_InitFromFile",
 			"Premature end of file while reading face data",MSTK_FATAL);
 	  else if (status < 2)
@@ -444,7 +444,7 @@ extern "C" {
 	  mf = MF_New(mesh);
 
 	  status = fscanf(fp,"%d",&nfe);
-	  if (status == EOF)
+	  if (status == EOF || ferror(fp))
 	    MSTK_Report("MESH_InitFromFile",
 			"Premature end of file while reading face edge data",
 			MSTK_FATAL);
@@ -467,7 +467,7 @@ extern "C" {
 	  
 	  for (j = 0; j < nfe; j++) {
 	    status = fscanf(fp,"%d",&eid);
-	    if (status == EOF)
+	    if (status == EOF || ferror(fp))
 	      MSTK_Report("MESH_InitFromFile",
 			  "Premature end of file while reading face edge data",
 			  MSTK_FATAL);
@@ -497,7 +497,7 @@ extern "C" {
 	  }
 	  
 	  status = fscanf(fp,"%d %d",&gdim,&gid);
-	  if (status == EOF)
+	  if (status == EOF || ferror(fp))
 	    MSTK_Report("MESH_InitFromFile",
 			"Premature end of file while reading faces",MSTK_FATAL);
 	  else if (status < 2)
@@ -535,7 +535,7 @@ extern "C" {
   
   if (processed_faces) {
     status = fscanf(fp,"%255s",temp_str);
-    if (status == EOF) {
+    if (status == EOF || ferror(fp)) {
       if (mesh->nr != 0)
 	MSTK_Report("MESH_InitFromFile",
 		    "Premature end of file after face data",MSTK_FATAL);
@@ -558,7 +558,7 @@ extern "C" {
     mesh->mregion = List_New(NR);
 
     status = fscanf(fp,"%15s",rltype_str);
-    if (status == EOF)
+    if (status == EOF || ferror(fp))
       MSTK_Report("MESH_InitFromFile",
 		  "Premature end of file while reading regions",MSTK_FATAL);
     else if (status == 0)
@@ -572,7 +572,7 @@ extern "C" {
 	  mr = MR_New(mesh);
 	  
 	  status = fscanf(fp,"%d",&nrv);
-	  if (status == EOF)
+	  if (status == EOF || ferror(fp))
 	    MSTK_Report("MESH_InitFromFile",
 			"Premature end of file while reading region data"
 			,MSTK_FATAL);
@@ -593,7 +593,7 @@ extern "C" {
 	  
 	  for (j = 0; j < nrv; j++) {
 	    status = fscanf(fp,"%d",&vid1);
-	    if (status == EOF)
+	    if (status == EOF || ferror(fp))
 	      MSTK_Report("MESH_InitFromFile",
 		      "Premature end of file while reading region data",
 			  MSTK_FATAL);
@@ -610,7 +610,7 @@ extern "C" {
 	  MR_Set_Vertices(mr,nrv,rverts,0,NULL);  
 	  
 	  status = fscanf(fp,"%d %d",&gdim,&gid);
-	  if (status == EOF)
+	  if (status == EOF || ferror(fp))
 	    MSTK_Report("MESH_InitFromFile",
 			"Premature end of file while reading regions",MSTK_FATAL);
 	  else if (status < 2)
@@ -643,7 +643,7 @@ extern "C" {
 	  mr = MR_New(mesh);
 	  
 	  status = fscanf(fp,"%d",&nrf);
-	  if (status == EOF)
+	  if (status == EOF || ferror(fp))
 	    MSTK_Report("MESH_InitFromFile",
 			"Premature end of file while reading region data",
 			MSTK_FATAL);
@@ -666,7 +666,7 @@ extern "C" {
 	  
 	  for (j = 0; j < nrf; j++) {
 	    status = fscanf(fp,"%d",&fid);
-	    if (status == EOF)
+	    if (status == EOF || ferror(fp))
 	      MSTK_Report("MESH_InitFromFile",
 			  "Premature end of file while reading region data",
 			  MSTK_FATAL);
@@ -696,7 +696,7 @@ extern "C" {
 	  }
 	  
 	  status = fscanf(fp,"%d %d",&gdim,&gid);
-	  if (status == EOF)
+	  if (status == EOF || ferror(fp))
 	    MSTK_Report("MESH_InitFromFile",
 			  "Premature end of file while reading region",MSTK_FATAL);
 	  else if (status < 2)
@@ -727,7 +727,7 @@ extern "C" {
 
   if (processed_regions) {
     status = fscanf(fp,"%255s",temp_str);
-    if (status == EOF) {
+    if (status == EOF || ferror(fp)) {
       if (mesh->reptype == R2)
 	MSTK_Report("MESH_InitFromFile",
 		    "Premature end of file after reading regions",MSTK_FATAL);
@@ -745,7 +745,7 @@ extern "C" {
 	mr = List_Entry(mesh->mregion,i);
 
 	status = fscanf(fp,"%d",&nar);
-	if (status == EOF)
+	if (status == EOF || ferror(fp))
 	  MSTK_Report("MESH_InitFromFile",
 		      "Premature end of file while reading adjacent regions",
 		      MSTK_FATAL);
@@ -755,7 +755,7 @@ extern "C" {
 
 	for (j = 0; j < nar; j++) {
 	  status = fscanf(fp,"%d",&adjrid);
-	  if (status == EOF)
+	  if (status == EOF || ferror(fp))
 	    MSTK_Report("MESH_InitFromFile",
 			"Premature end of file while reading ajdacent regions",
 			MSTK_FATAL);
@@ -781,7 +781,7 @@ extern "C" {
     else {
       for (i = 0; i < NR; i++) {
 	status = fscanf(fp,"%d",&nar);
-	if (status == EOF)
+	if (status == EOF || ferror(fp))
 	  MSTK_Report("MESH_InitFromFile",
 		      "Premature end of file while reading adjacent regions",
 		      MSTK_FATAL);
@@ -791,7 +791,7 @@ extern "C" {
 	
 	for (j = 0; j < nar; j++) {
 	  status = fscanf(fp,"%d",&rid);
-	  if (status == EOF)
+	  if (status == EOF || ferror(fp))
 	    MSTK_Report("MESH_InitFromFile",
 			"Premature end of file while reading adjacent regions",
 			MSTK_FATAL);
@@ -807,7 +807,7 @@ extern "C" {
 
   if (processed_adjr) {
     status = fscanf(fp,"%255s",temp_str);
-    if (status == EOF) {
+    if (status == EOF || ferror(fp)) {
       return finish_read(fp, 1);
     }
   }
@@ -820,7 +820,7 @@ extern "C" {
     while (!done) {
       /* The name takes up the whole line since it may have blanks in it */
       status = fscanf(fp," %255[^\n]",attname);
-      if (status == EOF) {
+      if (status == EOF || ferror(fp)) {
 	done = 1;
 	continue;
       }
@@ -832,7 +832,7 @@ extern "C" {
 	attname[j-1] = '\0';
 
       status = fscanf(fp,"%255s",atttype_str);
-      if (status == EOF)
+      if (status == EOF || ferror(fp))
 	MSTK_Report("MESH_InitFromFile",
 		    "Premature end of file while reading attributes",MSTK_FATAL);
       else if (status == 0)
@@ -857,7 +857,7 @@ extern "C" {
       }
 
       status = fscanf(fp,"%d",&ncomp);
-      if (status == EOF)
+      if (status == EOF || ferror(fp))
 	MSTK_Report("MESH_InitFromFile",
 		    "Premature end of file while reading attributes",MSTK_FATAL);
       else if (status == 0)
@@ -872,7 +872,7 @@ extern "C" {
 
 
       status = fscanf(fp,"%255s",attent_str);
-      if (status == EOF)
+      if (status == EOF || ferror(fp))
 	MSTK_Report("MESH_InitFromFile",
 		    "Premature end of file while reading attributes",MSTK_FATAL);
       else if (status == 0)
@@ -896,7 +896,7 @@ extern "C" {
       }
 
       status = fscanf(fp,"%d",&nent);
-      if (status == EOF)
+      if (status == EOF || ferror(fp))
 	MSTK_Report("MESH_InitFromFile",
 		    "Premature end of file while reading attributes",MSTK_FATAL);
       else if (status == 0)
@@ -914,7 +914,7 @@ extern "C" {
       
       for (i = 0; i < nent; i++) {
 	status = fscanf(fp,"%d %d",&dim,&id);
-	if (status == EOF)
+	if (status == EOF || ferror(fp))
 	  MSTK_Report("MESH_InitFromFile",
 		      "Premature end of file while reading attributes",MSTK_FATAL);
 	else if (status < 2)
@@ -943,7 +943,7 @@ extern "C" {
 	  }
 	}
 
-	if (nval_read != nval)
+	if (nval_read != nval || ferror(fp))
 	  MSTK_Report("MESH_InitFromFile",
 		      "Error in reading attribute values",MSTK_FATAL);
 
-- 
2.43.0


From 6c3d336fb1997dcdcefaefaff58cc7b1ea3d3149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:46 +0000
Subject: [PATCH 024/101] fix: DX export allocates enough space for prisms,
 pyramids and triangles

---
 src/io/MESH_ExportToDXBin.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/io/MESH_ExportToDXBin.c b/src/io/MESH_ExportToDXBin.c
index 89b42ba..81a9df0 100644
--- a/src/io/MESH_ExportToDXBin.c
+++ b/src/io/MESH_ExportToDXBin.c
@@ -129,6 +129,11 @@ int MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 	  dattri = (float *)malloc(maxtri*sizeof(float));
 	}
 	nbtris++;
+	if (nbtris > maxtri) {
+	  maxtri = 2*nbtris;
+	  idbtri = (int *) realloc(idbtri,3*maxtri*sizeof(int));
+	  dattri = (float *) realloc(dattri,maxtri*sizeof(float));
+	}
 	for (k = 0; k < nvf; k++)
 	  idbtri[bt++] = MV_ID(List_Entry(verts,k))-1;	
 	dattri[nbtris-1] = MF_GEntID(face);
@@ -271,7 +276,7 @@ int MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 
 	case 3: /****** TRIANGULAR PRISM *******/
 	  if (!idbprm) {
-	    idbprm = (int *)malloc(6*nreg*sizeof(int));
+	    idbprm = (int *)malloc(8*nreg*sizeof(int));
 	    datprm = (float *)malloc(nreg*sizeof(float));
 	  }
 
@@ -355,7 +360,7 @@ int MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 
 	case 4: /***** PYRAMID *****/
 	  if (!idbpyr) {
-	    idbpyr = (int *)malloc(5*nreg*sizeof(int));
+	    idbpyr = (int *)malloc(8*nreg*sizeof(int));
 	    datpyr = (float *)malloc(nreg*sizeof(float));
 	  }
 
-- 
2.43.0


From 57d44edcd9f89970dfcaeb953d6c241cf2ed1558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:57 +0000
Subject: [PATCH 025/101] fix: X3D export of node vectors that are not set on
 all nodes

---
 src/io/MESH_ExportToFLAGX3D.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/MESH_ExportToFLAGX3D.c b/src/io/MESH_ExportToFLAGX3D.c
index 8bc1306..6608a01 100644
--- a/src/io/MESH_ExportToFLAGX3D.c
+++ b/src/io/MESH_ExportToFLAGX3D.c
@@ -1185,7 +1185,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     }
 
     MAttrib_Get_Name(attrib,attname);
-    if (strcmp("_tmp",attname-4) == 0)
+    if (strlen(attname) >= 4 && strcmp("_tmp",attname+strlen(attname)-4) == 0)
       continue;
 
     fprintf(fp,"%s\n",attname);
@@ -1240,7 +1240,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     int ncomps = MAttrib_Get_NumComps(attrib);
 
     MAttrib_Get_Name(attrib,attname);
-    if (strcmp("_tmp",attname-4) == 0)
+    if (strlen(attname) >= 4 && strcmp("_tmp",attname+strlen(attname)-4) == 0)
       continue;
 
     fprintf(fp,"%s\n",attname);
@@ -1253,7 +1253,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
       MEnt_Get_AttVal(vertex,attrib,&ival,&rval,(void **) &vval);
       
       for (k = 0; k < ncomps; k++)
-        fprintf(fp,"% 20.12E", vval[k]);
+        fprintf(fp,"% 20.12E", vval ? vval[k] : 0.0);
       for (k = ncomps; k < 3; k++)
         fprintf(fp,"% 20.12E", 0.0);  /* expects 3 components for nodal vecs */
       fprintf(fp,"\n");
-- 
2.43.0


From 6cc142acca2c0b14d09113161741d65064ef86b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:09 +0000
Subject: [PATCH 026/101] fix: check entity IDs read from MSTK files

---
 src/base/MESH_InitFromFile.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/base/MESH_InitFromFile.c b/src/base/MESH_InitFromFile.c
index cb52bbd..1b9d315 100644
--- a/src/base/MESH_InitFromFile.c
+++ b/src/base/MESH_InitFromFile.c
@@ -209,6 +209,9 @@ extern "C" {
 	    MSTK_Report("MESH_InitFromFile",
 			"Error in reading adjacent vertex data",MSTK_FATAL);
 
+	  if (adjvid < 1 || adjvid > NV)
+	    MSTK_Report("MESH_InitFromFile","Invalid vertex ID in file",MSTK_FATAL);
+
 	  adjv = List_Entry(mesh->mvertex,adjvid-1);
 #ifdef DEBUG
 	  if (MV_ID(adjv) != adjvid)
@@ -288,6 +291,9 @@ extern "C" {
 	  MSTK_Report("MESH_InitFromFile",
 		      "Error in reading edge data",MSTK_FATAL);
 
+	if (vid1 < 1 || vid1 > NV || vid2 < 1 || vid2 > NV)
+	  MSTK_Report("MESH_InitFromFile","Invalid vertex ID in file",MSTK_FATAL);
+
 	ev1 = List_Entry(mesh->mvertex,vid1-1);
 	ev2 = List_Entry(mesh->mvertex,vid2-1);
 #ifdef DEBUG
@@ -401,6 +407,9 @@ extern "C" {
 	      MSTK_Report("MESH_InitFromFile",
 			  "Error in reading edge data",MSTK_FATAL);
 
+	    if (vid1 < 1 || vid1 > NV)
+	      MSTK_Report("MESH_InitFromFile","Invalid vertex ID in file",MSTK_FATAL);
+
 	    fverts[j] = List_Entry(mesh->mvertex,vid1-1);
 #ifdef DEBUG
 	    if (MV_ID(fverts[j]) != vid1)
@@ -476,6 +485,9 @@ extern "C" {
 			  "Error in reading face data",MSTK_FATAL);
 
 	    fedirs[j] = eid > 0 ? 1 : 0;
+	    if (abs(eid) < 1 || abs(eid) > NE)
+	      MSTK_Report("MESH_InitFromFile","Invalid edge ID in file",MSTK_FATAL);
+
 	    fedges[j] = List_Entry(mesh->medge,abs(eid)-1);
 #ifdef DEBUG
 	    if (ME_ID(fedges[j]) != abs(eid))
@@ -601,6 +613,9 @@ extern "C" {
 	      MSTK_Report("MESH_InitFromFile",
 			  "Error in reading region data",MSTK_FATAL);
 
+	    if (vid1 < 1 || vid1 > NV)
+	      MSTK_Report("MESH_InitFromFile","Invalid vertex ID in file",MSTK_FATAL);
+
 	    rverts[j] = List_Entry(mesh->mvertex,vid1-1);
 #ifdef DEBUG
 	    if (MV_ID(rverts[j]) != vid1)
@@ -675,6 +690,9 @@ extern "C" {
 			  "Error in reading region data",MSTK_FATAL);
 	    
 	    rfdirs[j] = fid > 0 ? 1 : 0;
+	    if (abs(fid) < 1 || abs(fid) > NF)
+	      MSTK_Report("MESH_InitFromFile","Invalid face ID in file",MSTK_FATAL);
+
 	    rfaces[j] = List_Entry(mesh->mface,abs(fid)-1);
 #ifdef DEBUG
 	    if (MF_ID(rfaces[j]) != abs(fid))
@@ -765,6 +783,9 @@ extern "C" {
 	  
 	  if (adjrid == 0)
 	    continue;
+	  if (adjrid < 1 || adjrid > NR)
+	    MSTK_Report("MESH_InitFromFile","Invalid region ID in file",MSTK_FATAL);
+
 	  adjr = List_Entry(mesh->mregion,adjrid-1);
 #ifdef DEBUG
 	  if (MR_ID(adjr) != adjrid)
@@ -967,6 +988,10 @@ extern "C" {
 	    MSTK_Report("MESH_InitFromFile","Invalid entity type",MSTK_FATAL);
 	  }
 	  
+	  if (!ent)
+	    MSTK_Report("MESH_InitFromFile","Invalid entity ID in file",
+			MSTK_FATAL);
+
 	  MEnt_Set_AttVal(ent,attrib,ival,rval,(void *)rval_arr);
 	  
 	}
-- 
2.43.0


From 1a96c934338663f9aae6d8b880d60ed23bd46062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:23 +0000
Subject: [PATCH 027/101] fix: do not take words with null characters for
 keywords when reading MSTK files

---
 src/base/MESH_InitFromFile.c | 45 +++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/base/MESH_InitFromFile.c b/src/base/MESH_InitFromFile.c
index 1b9d315..096b41f 100644
--- a/src/base/MESH_InitFromFile.c
+++ b/src/base/MESH_InitFromFile.c
@@ -36,12 +36,26 @@ extern "C" {
     return ok;
   }
 
+  /* Read a word of up to 255 characters. A word with null characters in
+     it (from a part of the file that never made it to the disk) reads as
+     an empty word */
+
+  static int read_word(FILE *fp, char *word) {
+    int start=0, end=0;
+    int status = fscanf(fp," %n%255s%n",&start,word,&end);
+    if (status == 1 && strlen(word) != end-start) {
+      word[0] = '\0';
+      status = 0;
+    }
+    return status;
+  }
+
   /* File name should have the .mstk extension - will not check here */
   /* MSTK_Comm argument can be NULL only if MPI is not enabled        */
 
   int MESH_InitFromFile(Mesh_ptr mesh, const char *filename, MSTK_Comm comm) {
   FILE *fp;
-  char inp_rtype[16], temp_str[256], fltype_str[16], rltype_str[16];
+  char inp_rtype[16], temp_str[256], fltype_str[256], rltype_str[256];
   char attname[256], atttype_str[256], attent_str[256], mesg[512];
   int nf_file, nr_file;
   int i, j, found, NV=0, NE=0, NF=0, NR=0, nav, nar, gdim, gid;
@@ -126,7 +140,7 @@ extern "C" {
   }
 
 
-  status = fscanf(fp,"%255s",temp_str);
+  status = read_word(fp,temp_str);
   if (status == EOF || ferror(fp))
     MSTK_Report("MESH_InitFromFile",
 		"Premature end of file while looking for vertex data",MSTK_FATAL);
@@ -167,7 +181,7 @@ extern "C" {
   }
 
 
-  status = fscanf(fp,"%255s",temp_str);
+  status = read_word(fp,temp_str);
   if (status == EOF || ferror(fp)) {
     if (mesh->ne || mesh->nf || mesh->nr)
       MSTK_Report("MESH_InitFromFile",
@@ -259,7 +273,7 @@ extern "C" {
     
 
   if (processed_adjv) {
-    status = fscanf(fp,"%255s",temp_str);
+    status = read_word(fp,temp_str);
     if (status == EOF || ferror(fp)) {
       if (mesh->ne || mesh->nf || mesh->nr)
 	MSTK_Report("MESH_InitFromFile",
@@ -338,7 +352,7 @@ extern "C" {
   }
   
   if (processed_edges) {
-    status = fscanf(fp,"%255s",temp_str);
+    status = read_word(fp,temp_str);
     if (status == EOF || ferror(fp)) {
       if (mesh->nf || mesh->nr) {
 	MSTK_Report("MESH_InitFromFile",
@@ -363,7 +377,7 @@ extern "C" {
     NF = mesh->nf;
     mesh->mface = List_New(NF);
 
-    status = fscanf(fp,"%15s",fltype_str);
+    status = read_word(fp,fltype_str);
     if (status == EOF || ferror(fp))
       MSTK_Report("MESH_InitFromFile",
 		  "Premature end of file while reading faces",MSTK_FATAL);
@@ -546,7 +560,7 @@ extern "C" {
   
   
   if (processed_faces) {
-    status = fscanf(fp,"%255s",temp_str);
+    status = read_word(fp,temp_str);
     if (status == EOF || ferror(fp)) {
       if (mesh->nr != 0)
 	MSTK_Report("MESH_InitFromFile",
@@ -569,7 +583,7 @@ extern "C" {
     NR = mesh->nr;
     mesh->mregion = List_New(NR);
 
-    status = fscanf(fp,"%15s",rltype_str);
+    status = read_word(fp,rltype_str);
     if (status == EOF || ferror(fp))
       MSTK_Report("MESH_InitFromFile",
 		  "Premature end of file while reading regions",MSTK_FATAL);
@@ -744,7 +758,7 @@ extern "C" {
   }
 
   if (processed_regions) {
-    status = fscanf(fp,"%255s",temp_str);
+    status = read_word(fp,temp_str);
     if (status == EOF || ferror(fp)) {
       if (mesh->reptype == R2)
 	MSTK_Report("MESH_InitFromFile",
@@ -827,7 +841,7 @@ extern "C" {
   }
 
   if (processed_adjr) {
-    status = fscanf(fp,"%255s",temp_str);
+    status = read_word(fp,temp_str);
     if (status == EOF || ferror(fp)) {
       return finish_read(fp, 1);
     }
@@ -840,7 +854,8 @@ extern "C" {
     done = 0;
     while (!done) {
       /* The name takes up the whole line since it may have blanks in it */
-      status = fscanf(fp," %255[^\n]",attname);
+      int name_start = 0, name_end = 0;
+      status = fscanf(fp," %n%255[^\n]%n",&name_start,attname,&name_end);
       if (status == EOF || ferror(fp)) {
 	done = 1;
 	continue;
@@ -849,10 +864,14 @@ extern "C" {
 	MSTK_Report("MESH_InitFromFile",
 		    "Error in reading attribute data",MSTK_FATAL);
 
+      if (strlen(attname) != name_end-name_start)
+	MSTK_Report("MESH_InitFromFile",
+		    "Error in reading attribute name",MSTK_FATAL);
+
       for (j = strlen(attname); j > 0 && strchr(" \t\r",attname[j-1]); j--)
 	attname[j-1] = '\0';
 
-      status = fscanf(fp,"%255s",atttype_str);
+      status = read_word(fp,atttype_str);
       if (status == EOF || ferror(fp))
 	MSTK_Report("MESH_InitFromFile",
 		    "Premature end of file while reading attributes",MSTK_FATAL);
@@ -892,7 +911,7 @@ extern "C" {
 
 
 
-      status = fscanf(fp,"%255s",attent_str);
+      status = read_word(fp,attent_str);
       if (status == EOF || ferror(fp))
 	MSTK_Report("MESH_InitFromFile",
 		    "Premature end of file while reading attributes",MSTK_FATAL);
-- 
2.43.0


From 2d9ae67182720959fe2651335624d940c191a6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:52 +0000
Subject: [PATCH 028/101] fix: write adjacent regions of R4 MSTK files from the
 faces of any representation

---
 src/base/MESH_WriteToFile.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/base/MESH_WriteToFile.c b/src/base/MESH_WriteToFile.c
index c660a07..86bfe49 100644
--- a/src/base/MESH_WriteToFile.c
+++ b/src/base/MESH_WriteToFile.c
@@ -290,7 +290,33 @@ extern "C" {
       }
     }
 
-    if (reptype == R2 || reptype == R4) {
+    if (reptype == R4) {
+      /* Region across each face of the region in the order the faces
+	 were written out (0 if there is none) */
+
+      fprintf(fp,"adjregions\n");
+      
+      idx = 0;
+      while ((mr = MESH_Next_Region(mesh,&idx))) {
+
+	mrfaces = MR_Faces(mr);
+	nar = List_Num_Entries(mrfaces);
+	fprintf(fp,"%d ",nar);
+
+	for (j = 0; j < nar; j++) {
+	  mf = List_Entry(mrfaces,j);
+	  mr2 = MF_Region(mf,0);
+	  if (mr2 == mr) mr2 = MF_Region(mf,1);
+	  mrid2 = 0;
+	  if (mr2)
+	    MEnt_Get_AttVal(mr2,ridatt,&mrid2,&rval,&pval);
+	  fprintf(fp,"%d ",mrid2);
+	}
+	fprintf(fp,"\n");
+	List_Delete(mrfaces);
+      }
+    }
+    else if (reptype == R2) {
       fprintf(fp,"adjregions\n");
       
       idx = 0;
-- 
2.43.0


From 751159af376c8deb42618d36aab466653a63c0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 029/101] fix: Exodus II export overruns the title buffer for
 long file names

---
 src/io/MESH_ExportToExodusII.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index 44d4f76..3d78040 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -622,7 +622,8 @@ extern "C" {
     /* write global parameters */
     
     ex_init_params par;
-    strcpy(par.title,filename);
+    strncpy(par.title,filename,MAX_LINE_LENGTH);
+    par.title[MAX_LINE_LENGTH] = '\0';
     par.num_nodes = nvowned;
 
     if (element_dim == 3 || boundary_dim == 2)
-- 
2.43.0


From 29c26ff23ce3acc9130d96ad368bae03159cf845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 030/101] fix: Exodus II export dereferences vector attribute
 values that are not set

---
 src/io/MESH_ExportToExodusII.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index 3d78040..6034528 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -1367,7 +1367,7 @@ extern "C" {
 
               MEnt_Get_AttVal(mv,vidatt,&vid,&rval,&pval);
               MEnt_Get_AttVal(mv,att,&ival,&rval,&pval);
-              node_vars[vid-1] = ((double *) pval)[n];
+              node_vars[vid-1] = pval ? ((double *) pval)[n] : 0.0;
             }
     
 #ifdef EXODUS_6_DEPRECATED         
@@ -1512,7 +1512,7 @@ extern "C" {
               idx = 0; k = 0;
               while ((ment = MSet_Next_Entry(element_blocks_glob[i],&idx))) {
                 MEnt_Get_AttVal(ment,att,&ival,&rval,&pval);
-                elem_vars[k++] = ((double *) pval)[n];
+                elem_vars[k++] = pval ? ((double *) pval)[n] : 0.0;
               }
               
 #ifdef EXODUS_6_DEPRECATED
-- 
2.43.0


From fd1bb3059cb4f4b9df0c522a1cbde17cf4d4757a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 031/101] fix: Exodus II export overruns the variable name list
 for attributes with many components

---
 src/io/MESH_ExportToExodusII.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index 6034528..1347d10 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -1300,7 +1300,12 @@ extern "C" {
          attribute name with a keyword and component index */
 
       int num_node_atts_out = 0;      
-      char **node_att_names_out =  malloc(num_node_atts_glob*6*sizeof(char *));
+      for (j = 0; j < num_node_atts_glob; j++)
+        num_node_atts_out +=
+          MAttrib_Get_NumComps(MESH_AttribByName(mesh,node_att_names_glob[j]));
+      char **node_att_names_out =  malloc(num_node_atts_out*sizeof(char *));
+
+      num_node_atts_out = 0;
 
       for (j = 0; j < num_node_atts_glob; j++) {
         MAttrib_ptr att = MESH_AttribByName(mesh,node_att_names_glob[j]);
@@ -1431,8 +1436,13 @@ extern "C" {
          attribute name with a keyword and component index */
 
       int num_element_atts_out = 0;      
-      char **element_att_names_out = 
-          malloc(num_element_atts_glob*6*sizeof(char *));
+      for (j = 0; j < num_element_atts_glob; j++)
+        num_element_atts_out +=
+          MAttrib_Get_NumComps(MESH_AttribByName(mesh,element_att_names_glob[j]));
+      char **element_att_names_out =
+          malloc(num_element_atts_out*sizeof(char *));
+
+      num_element_atts_out = 0;
 
       for (j = 0; j < num_element_atts_glob; j++) {
         MAttrib_ptr att = MESH_AttribByName(mesh,element_att_names_glob[j]);
-- 
2.43.0


From 79a920bb7f8aa9a54af632a38a362f54ccdbfa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 032/101] fix: Exodus II export reports success although data
 could not be written

---
 src/io/MESH_ExportToExodusII.c | 108 +++++++++++++++++----------------
 1 file changed, 57 insertions(+), 51 deletions(-)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index 1347d10..8bbeffd 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -451,7 +451,7 @@ extern "C" {
 
     int CPU_word_size=sizeof(double);
     int IO_word_size=sizeof(double);
-    int exoid, err;
+    int exoid, ioerr=0;  /* ioerr is set if any data could not be written */
     exoid = ex_create(modfilename,EX_CLOBBER,&CPU_word_size,&IO_word_size);
     if (exoid < 0) {
       MSTK_Report("MESH_ExportToExodusII", "Error in creation of Exodus file",
@@ -698,7 +698,7 @@ extern "C" {
 #endif
     }
 
-    ex_put_init_ext(exoid,&par);
+    ioerr |= (ex_put_init_ext(exoid,&par) < 0);
     
     if (verbose)
       fprintf(stdout,"Global parameters wrote into %s\n", filename);
@@ -729,7 +729,7 @@ extern "C" {
       ycoord[vid-1] = vxyz[1];
       zcoord[vid-1] = vxyz[2];
     }
-    err = ex_put_coord (exoid, xcoord, ycoord, zcoord);
+    ioerr |= (ex_put_coord (exoid, xcoord, ycoord, zcoord) < 0);
 
     free(xcoord);
     free(ycoord);
@@ -739,7 +739,7 @@ extern "C" {
     /* add coordinate names(optional) */
 
     char *coord_names[3] = {"xcoor","ycoor","zcoor"};
-    err = ex_put_coord_names (exoid, coord_names);
+    ioerr |= (ex_put_coord_names (exoid, coord_names) < 0);
     if (verbose)
       fprintf(stdout,"Coordinate values wrote into %s\n", filename);
     
@@ -751,10 +751,10 @@ extern "C" {
       strcpy(block_name,"face_block");
       block_id = 9999999;
 
-      ex_put_block(exoid, EX_FACE_BLOCK, block_id, "nsided",
+      ioerr |= (ex_put_block(exoid, EX_FACE_BLOCK, block_id, "nsided",
 		   List_Num_Entries(face_block), nvfblock,
-		   0, 0, 0);
-      ex_put_name(exoid, EX_FACE_BLOCK, block_id, block_name);
+		   0, 0, 0) < 0);
+      ioerr |= (ex_put_name(exoid, EX_FACE_BLOCK, block_id, block_name) < 0);
 
 
       connect = (int *) calloc(nvfblock,sizeof(int));
@@ -778,11 +778,11 @@ extern "C" {
 
       /* Output number of nodes per face in face block */
       
-      ex_put_entity_count_per_polyhedra(exoid, EX_FACE_BLOCK, block_id, nnpe);
+      ioerr |= (ex_put_entity_count_per_polyhedra(exoid, EX_FACE_BLOCK, block_id, nnpe) < 0);
 
       /* Output connectivity of faces in face block */
 
-      ex_put_conn(exoid, EX_FACE_BLOCK, block_id, connect, NULL, NULL);
+      ioerr |= (ex_put_conn(exoid, EX_FACE_BLOCK, block_id, connect, NULL, NULL) < 0);
 
       free(connect);
       free(nnpe);
@@ -830,18 +830,18 @@ extern "C" {
 
 	sprintf(block_name,"POLYHEDRA_BLOCK_%-d",block_id);
 	
-	ex_put_block(exoid, EX_ELEM_BLOCK, block_id, "NFACED",
+	ioerr |= (ex_put_block(exoid, EX_ELEM_BLOCK, block_id, "NFACED",
 		     MSet_Num_Entries(element_blocks_glob[i]),
 		     0, /* nodes */
 		     0, /* edges */
 		     nfrblock, /* faces */
-		     0); /* attribute count */
+		     0) < 0); /* attribute count */
 
-	ex_put_name(exoid, EX_ELEM_BLOCK, block_id, block_name);
+	ioerr |= (ex_put_name(exoid, EX_ELEM_BLOCK, block_id, block_name) < 0);
 
-	ex_put_entity_count_per_polyhedra(exoid, EX_ELEM_BLOCK, block_id, nnpe);
+	ioerr |= (ex_put_entity_count_per_polyhedra(exoid, EX_ELEM_BLOCK, block_id, nnpe) < 0);
 
-	ex_put_conn(exoid, EX_ELEM_BLOCK, block_id, NULL, NULL, connect);
+	ioerr |= (ex_put_conn(exoid, EX_ELEM_BLOCK, block_id, NULL, NULL, connect) < 0);
 
 	free(nnpe);
 
@@ -877,18 +877,18 @@ extern "C" {
 
 	sprintf(block_name,"POLYGON_BLOCK_%-d",block_id);
 	
-	ex_put_block(exoid, EX_ELEM_BLOCK, block_id, "NSIDED",
+	ioerr |= (ex_put_block(exoid, EX_ELEM_BLOCK, block_id, "NSIDED",
 		     MSet_Num_Entries(element_blocks_glob[i]),
 		     nvfblock, /* nodes */
 		     0, /* edges */
 		     0, /* faces */
-		     0); /* attribute count */
+		     0) < 0); /* attribute count */
 
-	ex_put_name(exoid, EX_ELEM_BLOCK, block_id, block_name);
+	ioerr |= (ex_put_name(exoid, EX_ELEM_BLOCK, block_id, block_name) < 0);
 
-	ex_put_entity_count_per_polyhedra(exoid, EX_ELEM_BLOCK, block_id, nnpe);
+	ioerr |= (ex_put_entity_count_per_polyhedra(exoid, EX_ELEM_BLOCK, block_id, nnpe) < 0);
 
-	ex_put_conn(exoid, EX_ELEM_BLOCK, block_id, connect, NULL, NULL);
+	ioerr |= (ex_put_conn(exoid, EX_ELEM_BLOCK, block_id, connect, NULL, NULL) < 0);
 
 	free(nnpe);
 
@@ -907,28 +907,28 @@ extern "C" {
 	  if (strncasecmp(element_block_types_glob[i],"TETRA",5) == 0) {
 	    nelnodes = 4;
 #ifdef EXODUS_6_DEPRECATED
-	    ex_put_elem_block(exoid, block_id, "TETRA", nelem, nelnodes, 1);
+	    ioerr |= (ex_put_elem_block(exoid, block_id, "TETRA", nelem, nelnodes, 1) < 0);
 #else
-            ex_put_block(exoid, EX_ELEM_BLOCK, block_id, "TETRA", nelem,
-                         nelnodes, 0, 0, 1);
+            ioerr |= (ex_put_block(exoid, EX_ELEM_BLOCK, block_id, "TETRA", nelem,
+                         nelnodes, 0, 0, 1) < 0);
 #endif
 	  }
 	  else if (strncasecmp(element_block_types_glob[i],"WEDGE",5) == 0) {
 	    nelnodes = 6;
 #ifdef EXODUS_6_DEPRECATED
-	    ex_put_elem_block(exoid, block_id, "WEDGE", nelem, nelnodes, 1);
+	    ioerr |= (ex_put_elem_block(exoid, block_id, "WEDGE", nelem, nelnodes, 1) < 0);
 #else
-            ex_put_block(exoid, EX_ELEM_BLOCK, block_id, "WEDGE", nelem,
-                         nelnodes, 0, 0, 1);
+            ioerr |= (ex_put_block(exoid, EX_ELEM_BLOCK, block_id, "WEDGE", nelem,
+                         nelnodes, 0, 0, 1) < 0);
 #endif
 	  }
 	  else if (strncasecmp(element_block_types_glob[i],"HEX",3) == 0) {
 	    nelnodes = 8;
 #ifdef EXODUS_6_DEPRECATED
-	    ex_put_elem_block(exoid, block_id, "HEX", nelem, nelnodes, 1);
+	    ioerr |= (ex_put_elem_block(exoid, block_id, "HEX", nelem, nelnodes, 1) < 0);
 #else
-            ex_put_block(exoid, EX_ELEM_BLOCK, block_id, "HEX", nelem,
-                         nelnodes, 0, 0, 1);
+            ioerr |= (ex_put_block(exoid, EX_ELEM_BLOCK, block_id, "HEX", nelem,
+                         nelnodes, 0, 0, 1) < 0);
 #endif
 	  }
 	  else
@@ -950,9 +950,9 @@ extern "C" {
 	  }
 
 #ifdef EXODUS_6_DEPRECATED	  
-	  ex_put_elem_conn(exoid, block_id, connect);
+	  ioerr |= (ex_put_elem_conn(exoid, block_id, connect) < 0);
 #else
-          ex_put_conn(exoid, EX_ELEM_BLOCK, block_id, connect, NULL, NULL);
+          ioerr |= (ex_put_conn(exoid, EX_ELEM_BLOCK, block_id, connect, NULL, NULL) < 0);
 #endif
 
 	  free(connect);
@@ -962,19 +962,19 @@ extern "C" {
 	  if (strncasecmp(element_block_types_glob[i],"TRIANGLE",8) == 0) {
 	    nelnodes = 3;
 #ifdef EXODUS_6_DEPRECATED
-	    ex_put_elem_block(exoid, block_id, "TRIANGLE", nelem, nelnodes, 1);
+	    ioerr |= (ex_put_elem_block(exoid, block_id, "TRIANGLE", nelem, nelnodes, 1) < 0);
 #else
-            ex_put_block(exoid, EX_ELEM_BLOCK, block_id, "TRIANGLE", nelem,
-                         nelnodes, 0, 0, 1);
+            ioerr |= (ex_put_block(exoid, EX_ELEM_BLOCK, block_id, "TRIANGLE", nelem,
+                         nelnodes, 0, 0, 1) < 0);
 #endif
 	  }
 	  else if (strncasecmp(element_block_types_glob[i],"QUAD",4) == 0) {
 	    nelnodes = 4;
 #ifdef EXODUS_6_DEPRECATED
-	    ex_put_elem_block(exoid, block_id, "QUAD", nelem, nelnodes, 1);
+	    ioerr |= (ex_put_elem_block(exoid, block_id, "QUAD", nelem, nelnodes, 1) < 0);
 #else
-            ex_put_block(exoid, EX_ELEM_BLOCK, block_id, "QUAD", nelem,
-                         nelnodes, 0, 0, 1);
+            ioerr |= (ex_put_block(exoid, EX_ELEM_BLOCK, block_id, "QUAD", nelem,
+                         nelnodes, 0, 0, 1) < 0);
 #endif
 	  }
 	  else
@@ -995,9 +995,9 @@ extern "C" {
 	  }
 
 #ifdef EXODUS_6_DEPRECATED
-	  ex_put_elem_conn(exoid, block_id, connect);
+	  ioerr |= (ex_put_elem_conn(exoid, block_id, connect) < 0);
 #else
-          ex_put_conn(exoid, EX_ELEM_BLOCK, block_id, connect, NULL, NULL);
+          ioerr |= (ex_put_conn(exoid, EX_ELEM_BLOCK, block_id, connect, NULL, NULL) < 0);
 #endif
 
 	  free(connect);
@@ -1018,9 +1018,9 @@ extern "C" {
     for (i = 0; i < num_node_set_glob; i++) {
       int nnodes = MSet_Num_Entries(node_sets_glob[i]);
 #ifdef EXODUS_6_DEPRECATED
-      ex_put_node_set_param(exoid, node_set_ids_glob[i], nnodes, 0);
+      ioerr |= (ex_put_node_set_param(exoid, node_set_ids_glob[i], nnodes, 0) < 0);
 #else
-      ex_put_set_param(exoid, EX_NODE_SET, node_set_ids_glob[i], nnodes, 0);
+      ioerr |= (ex_put_set_param(exoid, EX_NODE_SET, node_set_ids_glob[i], nnodes, 0) < 0);
 #endif
 
       int *node_list = (int *) malloc(nnodes*sizeof(int));
@@ -1032,9 +1032,9 @@ extern "C" {
       }
 
 #ifdef EXODUS_6_DEPRECATED
-      ex_put_node_set(exoid, node_set_ids_glob[i], node_list);
+      ioerr |= (ex_put_node_set(exoid, node_set_ids_glob[i], node_list) < 0);
 #else
-      ex_put_set(exoid, EX_NODE_SET, node_set_ids_glob[i], node_list, NULL);
+      ioerr |= (ex_put_set(exoid, EX_NODE_SET, node_set_ids_glob[i], node_list, NULL) < 0);
 #endif
 
       free(node_list);
@@ -1150,12 +1150,12 @@ extern "C" {
 
 
 #ifdef EXODUS_6_DEPRECATED
-      ex_put_side_set_param(exoid, side_set_ids_glob[i], nsides, 0);
-      ex_put_side_set(exoid, side_set_ids_glob[i], elem_list, side_list);
+      ioerr |= (ex_put_side_set_param(exoid, side_set_ids_glob[i], nsides, 0) < 0);
+      ioerr |= (ex_put_side_set(exoid, side_set_ids_glob[i], elem_list, side_list) < 0);
 #else
-      ex_put_set_param(exoid, EX_SIDE_SET, side_set_ids_glob[i], nsides, 0);
-      ex_put_set(exoid, EX_SIDE_SET, side_set_ids_glob[i], elem_list,
-                   side_list);
+      ioerr |= (ex_put_set_param(exoid, EX_SIDE_SET, side_set_ids_glob[i], nsides, 0) < 0);
+      ioerr |= (ex_put_set(exoid, EX_SIDE_SET, side_set_ids_glob[i], elem_list,
+                   side_list) < 0);
 #endif
 
       free(elem_list);
@@ -1170,7 +1170,7 @@ extern "C" {
   
     for (i = 0; i < num_element_set_glob; i++) {
       int nelements = MSet_Num_Entries(element_sets_glob[i]);
-      ex_put_set_param(exoid, EX_ELEM_SET, element_set_ids_glob[i], nelements, 0);
+      ioerr |= (ex_put_set_param(exoid, EX_ELEM_SET, element_set_ids_glob[i], nelements, 0) < 0);
 
       int *element_list = (int *) malloc(nelements*sizeof(int));
 
@@ -1179,7 +1179,7 @@ extern "C" {
       while ((ment = MSet_Next_Entry(element_sets_glob[i],&idx)))
         element_list[j++] = elem_id[MEnt_ID(ment)-1];
 
-      ex_put_set(exoid, EX_ELEM_SET, element_set_ids_glob[i], element_list, NULL);
+      ioerr |= (ex_put_set(exoid, EX_ELEM_SET, element_set_ids_glob[i], element_list, NULL) < 0);
 
       free(element_list);
     }
@@ -1605,11 +1605,11 @@ extern "C" {
     strftime(time_str,sizeof(time_str),"%H:%M:%S",localtime(&ctime));
     qa_record[0][2]= date_str;
     qa_record[0][3]= time_str;
-    err = ex_put_qa(exoid, 1, qa_record);
+    ioerr |= (ex_put_qa(exoid, 1, qa_record) < 0);
     if (verbose)
       fprintf(stdout,"Quality assurance information wrote into %s\n", filename);
 
-    ex_close(exoid);
+    ioerr |= (ex_close(exoid) < 0);
 
 
     char msetname[256];
@@ -1710,6 +1710,12 @@ extern "C" {
         MEnt_Rem_AttVal(mf,fidatt);
       MAttrib_Delete(fidatt);
     }
+
+    if (ioerr) {
+      MSTK_Report(funcname,"Could not write all data to Exodus II file",
+                  MSTK_ERROR);
+      return 0;
+    }
     
     return 1;
     
-- 
2.43.0


From bc98e375f28fc2a79560dd84fe2fd219ec100c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 033/101] fix: Exodus II export leaves temporary attributes on
 the mesh

---
 src/io/MESH_ExportToExodusII.c | 74 ++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 34 deletions(-)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index 8bbeffd..48a6105 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -56,6 +56,9 @@ extern "C" {
                                char ***sideset_att_names,
                                MSTK_Comm comm);
 
+  /* this function removes the temporary data put on the mesh */
+  void MESH_Remove_Export_Data(Mesh_ptr mesh, MAttrib_ptr vidatt);
+
   /* this function get the local side number */
   int MF_LocalID_in_Region(MFace_ptr mf, MRegion_ptr mr);
   int ME_LocalID_in_Face(MEdge_ptr me, MFace_ptr mf);
@@ -456,6 +459,7 @@ extern "C" {
     if (exoid < 0) {
       MSTK_Report("MESH_ExportToExodusII", "Error in creation of Exodus file",
                   MSTK_ERROR);
+      MESH_Remove_Export_Data(mesh,vidatt);
       return 0;
     }
 
@@ -1676,40 +1680,9 @@ extern "C" {
     }
       
 
-#ifdef MSTK_HAVE_MPI
-    if (comm) {
-#ifdef MSTK_USE_MARKERS
-      idx = 0;
-      while ((mr = MESH_Next_Region(mesh,&idx)))
-        MEnt_Unmark(mr,ownedmk);
-      idx = 0;
-      while ((mf = MESH_Next_Face(mesh,&idx)))
-        MEnt_Unmark(mf,ownedmk);
-      idx = 0;
-      while ((me = MESH_Next_Edge(mesh,&idx)))
-        MEnt_Unmark(me,ownedmk);
-      idx = 0;
-      while ((mv = MESH_Next_Vertex(mesh,&idx)))
-        MEnt_Unmark(mv,ownedmk);
-      
-      MSTK_FreeMarker(ownedmk);
-#else
-      MAttrib_Delete(ownedatt);
-#endif
-    }
-#endif
-
-
-    idx = 0;
-    while ((mv = MESH_Next_Vertex(mesh,&idx)))
-      MEnt_Rem_AttVal(mv,vidatt);
-    MAttrib_Delete(vidatt);
-    if (fidatt) {
-      idx = 0;
-      while ((mf = MESH_Next_Face(mesh,&idx)))
-        MEnt_Rem_AttVal(mf,fidatt);
-      MAttrib_Delete(fidatt);
-    }
+    MESH_Remove_Export_Data(mesh,vidatt);
+    MAttrib_Delete(block_type_att);
+    MAttrib_Delete(fidatt);
 
     if (ioerr) {
       MSTK_Report(funcname,"Could not write all data to Exodus II file",
@@ -1723,6 +1696,39 @@ extern "C" {
 
 
 
+  /* Remove the labels that were put on the mesh for finding and
+     numbering the entities to be written */
+
+  void MESH_Remove_Export_Data(Mesh_ptr mesh, MAttrib_ptr vidatt) {
+#ifdef MSTK_USE_MARKERS
+    int idx;
+    MVertex_ptr mv;
+    MEdge_ptr me;
+    MFace_ptr mf;
+    MRegion_ptr mr;
+
+    idx = 0;
+    while ((mr = MESH_Next_Region(mesh,&idx)))
+      MEnt_Unmark(mr,ownedmk);
+    idx = 0;
+    while ((mf = MESH_Next_Face(mesh,&idx)))
+      MEnt_Unmark(mf,ownedmk);
+    idx = 0;
+    while ((me = MESH_Next_Edge(mesh,&idx)))
+      MEnt_Unmark(me,ownedmk);
+    idx = 0;
+    while ((mv = MESH_Next_Vertex(mesh,&idx)))
+      MEnt_Unmark(mv,ownedmk);
+
+    MSTK_FreeMarker(ownedmk);
+#else
+    MAttrib_Delete(ownedatt);
+#endif
+
+    MAttrib_Delete(vidatt);
+  }
+
+
   /* Categorize the elements into blocks based on their geometric
      entity ID and the element type */
 
-- 
2.43.0


From 05945613cc33548817c2c62abee8462113a14cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 034/101] fix: Exodus II export takes the contiguous ID option
 from the wrong entry

---
 src/io/MESH_ExportToExodusII.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index 48a6105..540509d 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -196,7 +196,7 @@ extern "C" {
 
     verbose = opts ? opts[0] : 0;  // default is 0
     enable_geometry_sets = opts ? opts[1] : 0;  // default is 0
-    enforce_contiguous_ids = opts ? opts[1] : 1; // default is 1
+    enforce_contiguous_ids = opts ? opts[2] : 1; // default is 1
 
     if (verbose)
       fprintf(stdout,"\nMesh representation type is %s\n", 
-- 
2.43.0


From 9c5be6d9aca631bc13d59ef0d176531dbfce7b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 035/101] fix: Exodus II export drops the z coordinate of
 planar meshes off z=0

---
 src/io/MESH_ExportToExodusII.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index 540509d..b6d2d57 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -437,7 +437,9 @@ extern "C" {
       while ((mv = MESH_Next_Vertex(mesh,&idx))) {
 	MV_Coords(mv,xyz_coord);
 	/* if z coordinate is not all the same, it is a surface mesh */
-	if ((xyz_coord[2]!=xyz_coord0[2])) {
+	/* Coordinates in 2D files are read back with z = 0, so planar
+           meshes in any other plane need all three too */
+	if (xyz_coord[2]!=xyz_coord0[2] || xyz_coord[2]!=0.0) {
 	  boundary_dim = 2;
 	  break;
 	}
-- 
2.43.0


From 87b5189c82223ed7a501e041116dba90b8fbe368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 036/101] fix: Exodus II export writes the element map in mesh
 order instead of block order

---
 src/io/MESH_ExportToExodusII.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index b6d2d57..1b39b38 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -1233,13 +1233,14 @@ extern "C" {
       free(node_map);
 
       
-      /* Write out element map (global IDs of elements) */
+      /* Write out element map (global IDs of elements), in the order
+         in which the elements are written block by block */
 
       int *elem_map;
 
       if (nrowned) {
         elem_map = (int *) malloc(nrowned*sizeof(int));
-        idx = 0; i = 0;
+        idx = 0;
         while ((mr = MESH_Next_Region(mesh,&idx))) {
           int rowned;
 #ifdef MSTK_USE_MARKERS
@@ -1248,12 +1249,12 @@ extern "C" {
           MEnt_Get_AttVal(mr, ownedatt, &rowned, &rval, &pval);
 #endif
           if (rowned)
-            elem_map[i++] = MR_GlobalID(mr);
+            elem_map[elem_id[MR_ID(mr)-1]-1] = MR_GlobalID(mr);
         }
       }
       else { // assume surface mesh
         elem_map = (int *) malloc(nfowned*sizeof(int));
-        idx = 0; i = 0;
+        idx = 0;
         while ((mf = MESH_Next_Face(mesh,&idx))) {
           int fowned;
 #ifdef MSTK_USE_MARKERS
@@ -1262,7 +1263,7 @@ extern "C" {
           MEnt_Get_AttVal(mf, ownedatt, &fowned, &rval, &pval);
 #endif
           if (fowned)
-            elem_map[i++] = MF_GlobalID(mf);
+            elem_map[elem_id[MF_ID(mf)-1]-1] = MF_GlobalID(mf);
         }
       }
 #ifdef EXODUS_6_DEPRECATED
-- 
2.43.0


From f5f6f69b6c88d835bc8db2b726747c85bf29929e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 037/101] fix: Exodus II export refers to ghost entities it
 does not write in sets

---
 src/io/MESH_ExportToExodusII.c | 74 ++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 35 deletions(-)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index 1b39b38..8b13181 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -1022,21 +1022,25 @@ extern "C" {
 
    
     for (i = 0; i < num_node_set_glob; i++) {
-      int nnodes = MSet_Num_Entries(node_sets_glob[i]);
-#ifdef EXODUS_6_DEPRECATED
-      ioerr |= (ex_put_node_set_param(exoid, node_set_ids_glob[i], nnodes, 0) < 0);
-#else
-      ioerr |= (ex_put_set_param(exoid, EX_NODE_SET, node_set_ids_glob[i], nnodes, 0) < 0);
-#endif
+      int nnodes = 0;
+      int *node_list = (int *) malloc(MSet_Num_Entries(node_sets_glob[i])*sizeof(int));
 
-      int *node_list = (int *) malloc(nnodes*sizeof(int));
+      /* Vertices which are not written out (those of ghost elements
+         only) have no ID in the file */
 
-      idx = 0; j = 0;
+      idx = 0;
       while ((mv = MSet_Next_Entry(node_sets_glob[i],&idx))) {
         MEnt_Get_AttVal(mv,vidatt,&vid,&rval,&pval);
-	node_list[j++] = vid;
+        if (vid)
+          node_list[nnodes++] = vid;
       }
 
+#ifdef EXODUS_6_DEPRECATED
+      ioerr |= (ex_put_node_set_param(exoid, node_set_ids_glob[i], nnodes, 0) < 0);
+#else
+      ioerr |= (ex_put_set_param(exoid, EX_NODE_SET, node_set_ids_glob[i], nnodes, 0) < 0);
+#endif
+
 #ifdef EXODUS_6_DEPRECATED
       ioerr |= (ex_put_node_set(exoid, node_set_ids_glob[i], node_list) < 0);
 #else
@@ -1065,28 +1069,24 @@ extern "C" {
       if (nrowned) {        
 	idx = 0;
 	while ((mf = MSet_Next_Entry(side_sets_glob[i],&idx))) {
-          if (MF_PType(mf) == PGHOST &&  !MF_OnParBoundary(mf)) continue;
-
 	  List_ptr fregs = MF_Regions(mf);
 
 	  if (!fregs || List_Num_Entries(fregs) == 0)
 	    MSTK_Report("MESH_ExportToEXODUSII",
 			"Standalone face with no regions in side set",
 			MSTK_FATAL);
-	  mr = List_Entry(fregs,0);
 
-#ifdef MSTK_HAVE_MPI
-          if (comm && MR_PType(mr) == PGHOST) {
-            if (List_Num_Entries(fregs) > 1)
-              mr = List_Entry(fregs,1);  /* at least 1 region should be owned */
-            else  // First check in loop should prevent it from coming here
-              MSTK_Report("MESH_ExportToExodusII", "Trying to write out ghost side set face thats not on the parallel boundary", MSTK_FATAL);
-          }
-#endif
+          /* Refer to a region that is written out, if there is one */
+
+	  mr = List_Entry(fregs,0);
+          if (elem_id[MR_ID(mr)-1] == 0 && List_Num_Entries(fregs) > 1)
+            mr = List_Entry(fregs,1);
 
           elem_list[nsides] = elem_id[MR_ID(mr)-1];
-          if (elem_list[nsides] == 0)
-            MSTK_Report("MESH_ExportToExodusII","Invalid Exodus II element ID",MSTK_ERROR);
+          if (elem_list[nsides] == 0) { /* face of ghost regions only */
+            List_Delete(fregs);
+            continue;
+          }
 
 	  
           /* Rather than look at the real element type of the region,
@@ -1130,12 +1130,17 @@ extern "C" {
 	    MSTK_Report("MESH_ExportToEXODUSII",
 			"Standalone edge with no faces in side set",
 			MSTK_FATAL);
-	  mf = List_Entry(efaces,0);
 
-#ifdef MSTK_HAVE_MPI
-          if (comm && MF_PType(mf) == PGHOST)
-            mf = List_Entry(efaces,1);  /* at least 1 face should be owned */
-#endif
+          /* Refer to a face that is written out, if there is one */
+
+          idx2 = 0;
+          while ((mf = List_Next_Entry(efaces,&idx2)))
+            if (elem_id[MF_ID(mf)-1]) break;
+
+          if (!mf) { /* edge of ghost faces only */
+            List_Delete(efaces);
+            continue;
+          }
 
 	  /* Since elements will be read back from the Exodus II file
 	     element block by element block, we have to jump through
@@ -1143,8 +1148,6 @@ extern "C" {
 	     it is read */
 
           elem_list[nsides] = elem_id[MF_ID(mf)-1];
-          if (elem_list[nsides] == 0)
-            MSTK_Report("MESH_ExportToExodusII","Invalid Exodus II element ID",MSTK_ERROR);
 	  
           int lid = ME_LocalID_in_Face(me,mf);
           side_list[nsides] = lid+1;
@@ -1175,15 +1178,16 @@ extern "C" {
     /* Write out element set information */
   
     for (i = 0; i < num_element_set_glob; i++) {
-      int nelements = MSet_Num_Entries(element_sets_glob[i]);
-      ioerr |= (ex_put_set_param(exoid, EX_ELEM_SET, element_set_ids_glob[i], nelements, 0) < 0);
-
-      int *element_list = (int *) malloc(nelements*sizeof(int));
+      int nelements = 0;
+      int *element_list = (int *) malloc(MSet_Num_Entries(element_sets_glob[i])*sizeof(int));
 
       MEntity_ptr ment;
-      idx = 0; j = 0;
+      idx = 0;
       while ((ment = MSet_Next_Entry(element_sets_glob[i],&idx)))
-        element_list[j++] = elem_id[MEnt_ID(ment)-1];
+        if (elem_id[MEnt_ID(ment)-1]) /* not a ghost element */
+          element_list[nelements++] = elem_id[MEnt_ID(ment)-1];
+
+      ioerr |= (ex_put_set_param(exoid, EX_ELEM_SET, element_set_ids_glob[i], nelements, 0) < 0);
 
       ioerr |= (ex_put_set(exoid, EX_ELEM_SET, element_set_ids_glob[i], element_list, NULL) < 0);
 
-- 
2.43.0


From 7c667580fefd920217872bf9dd63627f15f04b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:18 +0000
Subject: [PATCH 038/101] fix: Exodus II import and export cut variable names
 off after 32 characters

---
 src/io/MESH_ExportToExodusII.c     | 15 +++++++++++++++
 src/io/MESH_ReadExodusII_Partial.c |  6 ++++++
 src/io/MESH_ReadExodusII_Serial.c  |  6 ++++++
 3 files changed, 27 insertions(+)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index 8b13181..e04367b 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -704,6 +704,21 @@ extern "C" {
 #endif
     }
 
+    /* The default of 32 characters may not be enough for the names of
+       variables - make room for them and for the component suffix */
+
+    int maxnamelen = MAX_NAME_LENGTH;
+    MAttrib_ptr nameatt;
+    idx = 0;
+    while ((nameatt = MESH_Next_Attrib(mesh,&idx))) {
+      char attname[256];
+      MAttrib_Get_Name(nameatt,attname);
+      int len = strlen(attname) + (MAttrib_Get_Type(nameatt) == DOUBLE ? 0 : 16);
+      if (len > maxnamelen) maxnamelen = len;
+    }
+    if (maxnamelen > 255) maxnamelen = 255;
+    ex_set_max_name_length(exoid,maxnamelen);
+
     ioerr |= (ex_put_init_ext(exoid,&par) < 0);
     
     if (verbose)
diff --git a/src/io/MESH_ReadExodusII_Partial.c b/src/io/MESH_ReadExodusII_Partial.c
index 8b9553a..5b6c3fb 100644
--- a/src/io/MESH_ReadExodusII_Partial.c
+++ b/src/io/MESH_ReadExodusII_Partial.c
@@ -103,6 +103,12 @@ extern "C" {
       MSTK_Report(funcname,mesg,MSTK_FATAL);
     }
 
+    /* Get names in full, not only their first 32 characters */
+
+    int maxnamelen = ex_inquire_int(exoid, EX_INQ_DB_MAX_USED_NAME_LENGTH);
+    if (maxnamelen > MAX_NAME_LENGTH)
+      ex_set_max_name_length(exoid, maxnamelen < 255 ? maxnamelen : 255);
+
     status = ex_get_init_ext(exoid, &exopar);
     if (status < 0) {
       sprintf(mesg,"Error reading Exodus II file %s\n",filename);
diff --git a/src/io/MESH_ReadExodusII_Serial.c b/src/io/MESH_ReadExodusII_Serial.c
index 8faa650..9f02920 100644
--- a/src/io/MESH_ReadExodusII_Serial.c
+++ b/src/io/MESH_ReadExodusII_Serial.c
@@ -101,6 +101,12 @@ extern "C" {
       MSTK_Report(funcname,mesg,MSTK_FATAL);
     }
 
+    /* Get names in full, not only their first 32 characters */
+
+    int maxnamelen = ex_inquire_int(exoid, EX_INQ_DB_MAX_USED_NAME_LENGTH);
+    if (maxnamelen > MAX_NAME_LENGTH)
+      ex_set_max_name_length(exoid, maxnamelen < 255 ? maxnamelen : 255);
+
     status = ex_get_init_ext(exoid, &exopar);
     if (status < 0) {
       sprintf(mesg,"Error while reading Exodus II file %s\n",filename);
-- 
2.43.0


From e52278e26c018b258fbe0454b068b0842058fa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 039/101] fix: Exodus II import loses the block of faces of
 surface meshes

---
 src/io/MESH_ReadExodusII_Serial.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/MESH_ReadExodusII_Serial.c b/src/io/MESH_ReadExodusII_Serial.c
index 9f02920..d5d9101 100644
--- a/src/io/MESH_ReadExodusII_Serial.c
+++ b/src/io/MESH_ReadExodusII_Serial.c
@@ -1106,7 +1106,7 @@ extern "C" {
             MF_Set_Vertices(mf,nnpe[j],fverts);
 
             MF_Set_GEntID(mf, elem_blk_ids[i]);
-            MF_Set_GEntID(mf, 2);
+            MF_Set_GEntDim(mf, 2);
 
             if (mesh_type == 1 || mesh_type == 3) {
               MEnt_Set_AttVal(mf,elblockatt,elem_blk_ids[i],0.0,NULL);
@@ -1156,7 +1156,7 @@ extern "C" {
             MF_Set_Vertices(mf,nelnodes,fverts);
 
             MF_Set_GEntID(mf, elem_blk_ids[i]);
-            MF_Set_GEntID(mf, 2);
+            MF_Set_GEntDim(mf, 2);
 
             if (mesh_type == 1 || mesh_type == 3) {
               MEnt_Set_AttVal(mf,elblockatt,elem_blk_ids[i],0.0,NULL);
-- 
2.43.0


From 7d3bbd18b1b1301e5e4558b14622acf210024817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 040/101] fix: Exodus II import makes element sets of surface
 meshes region sets

---
 src/io/MESH_ReadExodusII_Serial.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/MESH_ReadExodusII_Serial.c b/src/io/MESH_ReadExodusII_Serial.c
index d5d9101..c3caa6c 100644
--- a/src/io/MESH_ReadExodusII_Serial.c
+++ b/src/io/MESH_ReadExodusII_Serial.c
@@ -1791,7 +1791,8 @@ extern "C" {
           char elemsetname[256];
           sprintf(elemsetname,"elemset_%-d",elemset_ids[i]);
 	
-          MSet_ptr elemset = MSet_New(mesh,elemsetname,MREGION);
+          MSet_ptr elemset = MSet_New(mesh,elemsetname,
+                                      mesh_type == 1 ? MFACE : MREGION);
       
           status = ex_get_set_param(exoid, EX_ELEM_SET, elemset_ids[i],
                                     &num_elems_in_set, &num_df_in_set);
-- 
2.43.0


From 8ea06821334dd93a1093cc59245e2772c7340b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 041/101] fix: Exodus II import ignores errors while reading
 set sizes

---
 src/io/MESH_ReadExodusII_Serial.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/io/MESH_ReadExodusII_Serial.c b/src/io/MESH_ReadExodusII_Serial.c
index c3caa6c..e3566d1 100644
--- a/src/io/MESH_ReadExodusII_Serial.c
+++ b/src/io/MESH_ReadExodusII_Serial.c
@@ -233,6 +233,11 @@ extern "C" {
         status = ex_get_set_param(exoid, EX_NODE_SET, nodeset_ids[i],
                                   &num_nodes_in_set, &num_df_in_set);
 #endif
+        if (status < 0) {
+          sprintf(mesg,
+                  "Error while reading size of nodeset %-d in Exodus II file %s\n",nodeset_ids[i],filename);
+          MSTK_Report(funcname,mesg,MSTK_FATAL);
+        }
       
         ns_node_list = (int *) malloc(num_nodes_in_set*sizeof(int));
       
@@ -564,6 +569,11 @@ extern "C" {
           status = ex_get_set_param(exoid, EX_SIDE_SET, sideset_ids[i],
                                     &num_sides_in_set, &num_df_in_set);
 #endif
+          if (status < 0) {
+            sprintf(mesg,
+                    "Error while reading size of sideset %-d in Exodus II file %s\n",sideset_ids[i],filename);
+            MSTK_Report(funcname,mesg,MSTK_FATAL);
+          }
 	
           ss_elem_list = (int *) malloc(num_sides_in_set*sizeof(int));
           ss_side_list = (int *) malloc(num_sides_in_set*sizeof(int));
@@ -638,6 +648,11 @@ extern "C" {
       
           status = ex_get_set_param(exoid, EX_ELEM_SET, elemset_ids[i],
                                     &num_elems_in_set, &num_df_in_set);
+          if (status < 0) {
+            sprintf(mesg,
+                    "Error while reading size of elemset %-d in Exodus II file %s\n",elemset_ids[i],filename);
+            MSTK_Report(funcname,mesg,MSTK_FATAL);
+          }
 	
           int *es_elem_list = (int *) malloc(num_elems_in_set*sizeof(int));
 	
@@ -1635,6 +1650,11 @@ extern "C" {
           status = ex_get_set_param(exoid, EX_SIDE_SET, sideset_ids[i],
                                     &num_sides_in_set, &num_df_in_set);
 #endif
+          if (status < 0) {
+            sprintf(mesg,
+                    "Error while reading size of sideset %-d in Exodus II file %s\n",sideset_ids[i],filename);
+            MSTK_Report(funcname,mesg,MSTK_FATAL);
+          }
 	
           ss_elem_list = (int *) malloc(num_sides_in_set*sizeof(int));
           ss_side_list = (int *) malloc(num_sides_in_set*sizeof(int));
@@ -1796,6 +1816,11 @@ extern "C" {
       
           status = ex_get_set_param(exoid, EX_ELEM_SET, elemset_ids[i],
                                     &num_elems_in_set, &num_df_in_set);
+          if (status < 0) {
+            sprintf(mesg,
+                    "Error while reading size of elemset %-d in Exodus II file %s\n",elemset_ids[i],filename);
+            MSTK_Report(funcname,mesg,MSTK_FATAL);
+          }
 	
           int *es_elem_list = (int *) malloc(num_elems_in_set*sizeof(int));
 	
-- 
2.43.0


From 9792bb163faacf77d0291b42c592ee5f93ae6db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 042/101] fix: Exodus II import overruns its message buffer for
 long file names

---
 src/io/MESH_ReadExodusII_Serial.c | 98 +++++++++++++++----------------
 1 file changed, 49 insertions(+), 49 deletions(-)

diff --git a/src/io/MESH_ReadExodusII_Serial.c b/src/io/MESH_ReadExodusII_Serial.c
index e3566d1..3ff8111 100644
--- a/src/io/MESH_ReadExodusII_Serial.c
+++ b/src/io/MESH_ReadExodusII_Serial.c
@@ -97,7 +97,7 @@ extern "C" {
     exoid = ex_open(filename, EX_READ, &comp_ws, &io_ws, &version);
 
     if (exoid < 0) {
-      sprintf(mesg,"Cannot open/read Exodus II file %s\n",filename);
+      snprintf(mesg,sizeof(mesg),"Cannot open/read Exodus II file %s\n",filename);
       MSTK_Report(funcname,mesg,MSTK_FATAL);
     }
 
@@ -109,7 +109,7 @@ extern "C" {
 
     status = ex_get_init_ext(exoid, &exopar);
     if (status < 0) {
-      sprintf(mesg,"Error while reading Exodus II file %s\n",filename);
+      snprintf(mesg,sizeof(mesg),"Error while reading Exodus II file %s\n",filename);
       MSTK_Report(funcname,mesg,MSTK_FATAL);
     }
   
@@ -148,7 +148,7 @@ extern "C" {
   
     status = ex_get_coord(exoid, xvals, yvals, zvals);
     if (status < 0) {
-      sprintf(mesg,"Error while reading vertex info in Exodus II file %s\n",filename);
+      snprintf(mesg,sizeof(mesg),"Error while reading vertex info in Exodus II file %s\n",filename);
       MSTK_Report(funcname,mesg,MSTK_FATAL);
     }
 
@@ -177,7 +177,7 @@ extern "C" {
     status = ex_get_id_map(exoid, EX_NODE_MAP, node_map);
 #endif
     if (status < 0) {
-      sprintf(mesg,"Error while reading node map in Exodus II file %s\n",filename);
+      snprintf(mesg,sizeof(mesg),"Error while reading node map in Exodus II file %s\n",filename);
       MSTK_Report(funcname,mesg,MSTK_FATAL);
     }
   
@@ -211,7 +211,7 @@ extern "C" {
       status = ex_get_ids(exoid, EX_NODE_SET, nodeset_ids);
 #endif
       if (status < 0) {
-        sprintf(mesg,
+        snprintf(mesg,sizeof(mesg),
                 "Error while reading nodeset IDs in Exodus II file %s\n",
                 filename);
         MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -234,7 +234,7 @@ extern "C" {
                                   &num_nodes_in_set, &num_df_in_set);
 #endif
         if (status < 0) {
-          sprintf(mesg,
+          snprintf(mesg,sizeof(mesg),
                   "Error while reading size of nodeset %-d in Exodus II file %s\n",nodeset_ids[i],filename);
           MSTK_Report(funcname,mesg,MSTK_FATAL);
         }
@@ -248,7 +248,7 @@ extern "C" {
                             ns_node_list, NULL);
 #endif
         if (status < 0) {
-          sprintf(mesg,
+          snprintf(mesg,sizeof(mesg),
                   "Error while reading nodes in nodeset %-d in Exodus II file %s\n",nodeset_ids[i],filename);
           MSTK_Report(funcname,mesg,MSTK_FATAL);
         }
@@ -288,7 +288,7 @@ extern "C" {
 
       status = ex_get_ids(exoid, EX_FACE_BLOCK, face_blk_ids);
       if (status < 0) {
-        sprintf(mesg,
+        snprintf(mesg,sizeof(mesg),
 		"Error while reading face block ids in Exodus II file %s\n",
 		filename);
         MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -303,7 +303,7 @@ extern "C" {
                               &nfblock, &ntotnodes, NULL, NULL, NULL);
 
         if (status < 0) {
-          sprintf(mesg,
+          snprintf(mesg,sizeof(mesg),
                   "Error while reading face block info in Exodus II file %s\n",
                   filename);
           MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -317,7 +317,7 @@ extern "C" {
                              NULL, NULL);
 
         if (status < 0) {
-          sprintf(mesg,
+          snprintf(mesg,sizeof(mesg),
                   "Error while reading face block info in Exodus II file %s\n",
                   filename);
           MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -332,7 +332,7 @@ extern "C" {
         status = ex_get_entity_count_per_polyhedra(exoid, EX_FACE_BLOCK,
                                                    face_blk_ids[i], nnpe);
         if (status < 0) {
-          sprintf(mesg,
+          snprintf(mesg,sizeof(mesg),
                   "Error while reading face block info in Exodus II file %s\n",
                   filename);
           MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -377,7 +377,7 @@ extern "C" {
     elem_blk_ids = (int *) malloc(nelblock*sizeof(int));
     status = ex_get_ids(exoid, EX_ELEM_BLOCK, elem_blk_ids);
     if (status < 0) {
-      sprintf(mesg,"Error while reading element block ids in Exodus II file %s\n",filename);
+      snprintf(mesg,sizeof(mesg),"Error while reading element block ids in Exodus II file %s\n",filename);
       MSTK_Report(funcname,mesg,MSTK_FATAL);
     }
   
@@ -386,7 +386,7 @@ extern "C" {
       elem_blknames[i] = (char *) malloc(256*sizeof(char));
     status = ex_get_names(exoid, EX_ELEM_BLOCK, elem_blknames);
     if (status < 0) {
-      sprintf(mesg,"Error while reading element block ids in Exodus II file %s\n",filename);
+      snprintf(mesg,sizeof(mesg),"Error while reading element block ids in Exodus II file %s\n",filename);
       MSTK_Report(funcname,mesg,MSTK_FATAL);
     }
 
@@ -417,7 +417,7 @@ extern "C" {
                               elem_type, &(nel_in_blk[i]), &nelnodes, 
                               &neledges, &nelfaces, &natts);
         if (status < 0) {
-          sprintf(mesg,
+          snprintf(mesg,sizeof(mesg),
                   "Error while reading element block %s in Exodus II file %s\n",
                   elem_blknames[i],filename);
           MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -440,7 +440,7 @@ extern "C" {
                                NULL, NULL);
 
           if (status < 0) {
-            sprintf(mesg,
+            snprintf(mesg,sizeof(mesg),
                     "Error while reading face block info in Exodus II file %s\n",
                     filename);
             MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -452,7 +452,7 @@ extern "C" {
           status = ex_get_entity_count_per_polyhedra(exoid, EX_ELEM_BLOCK,
                                                      elem_blk_ids[i], nnpe);
           if (status < 0) {
-            sprintf(mesg,
+            snprintf(mesg,sizeof(mesg),
                     "Error while reading face block info in Exodus II file %s\n",
                     filename);
             MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -500,7 +500,7 @@ extern "C" {
                                connect, NULL, NULL);
 #endif
           if (status < 0) {
-            sprintf(mesg,"Error while reading element block %s in Exodus II file %s\n",elem_blknames[i],filename);
+            snprintf(mesg,sizeof(mesg),"Error while reading element block %s in Exodus II file %s\n",elem_blknames[i],filename);
             MSTK_Report(funcname,mesg,MSTK_FATAL);
           }
 	
@@ -546,7 +546,7 @@ extern "C" {
         status = ex_get_ids(exoid, EX_SIDE_SET, sideset_ids);
 #endif
         if (status < 0) {
-          sprintf(mesg,
+          snprintf(mesg,sizeof(mesg),
                   "Error while reading sideset IDs in Exodus II file %s\n",
                   filename);
           MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -570,7 +570,7 @@ extern "C" {
                                     &num_sides_in_set, &num_df_in_set);
 #endif
           if (status < 0) {
-            sprintf(mesg,
+            snprintf(mesg,sizeof(mesg),
                     "Error while reading size of sideset %-d in Exodus II file %s\n",sideset_ids[i],filename);
             MSTK_Report(funcname,mesg,MSTK_FATAL);
           }
@@ -585,7 +585,7 @@ extern "C" {
                               ss_side_list);
 #endif
           if (status < 0) {
-            sprintf(mesg,
+            snprintf(mesg,sizeof(mesg),
                     "Error while reading elements in sideset %-d in Exodus II file %s\n",sideset_ids[i],filename);
             MSTK_Report(funcname,mesg,MSTK_FATAL);
           }
@@ -631,7 +631,7 @@ extern "C" {
         int *elemset_ids = (int *) malloc(nelemsets*sizeof(int));
         status = ex_get_ids(exoid,EX_ELEM_SET,elemset_ids);
         if (status < 0) {
-          sprintf(mesg,
+          snprintf(mesg,sizeof(mesg),
                   "Error while reading element set IDs in Exodus II file %s\n",
                   filename);
           MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -649,7 +649,7 @@ extern "C" {
           status = ex_get_set_param(exoid, EX_ELEM_SET, elemset_ids[i],
                                     &num_elems_in_set, &num_df_in_set);
           if (status < 0) {
-            sprintf(mesg,
+            snprintf(mesg,sizeof(mesg),
                     "Error while reading size of elemset %-d in Exodus II file %s\n",elemset_ids[i],filename);
             MSTK_Report(funcname,mesg,MSTK_FATAL);
           }
@@ -659,7 +659,7 @@ extern "C" {
           status = ex_get_set(exoid, EX_ELEM_SET, elemset_ids[i], es_elem_list,
                               NULL);
           if (status < 0) {
-            sprintf(mesg,
+            snprintf(mesg,sizeof(mesg),
                     "Error while reading elements in elemset %-d in Exodus II file %s\n",elemset_ids[i],filename);
             MSTK_Report(funcname,mesg,MSTK_FATAL);
           }
@@ -688,7 +688,7 @@ extern "C" {
       status = ex_get_id_map(exoid, EX_ELEM_MAP, elem_map);
 #endif
       if (status < 0) {
-        sprintf(mesg,"Error while reading element map in Exodus II file %s\n",filename);
+        snprintf(mesg,sizeof(mesg),"Error while reading element map in Exodus II file %s\n",filename);
         MSTK_Report(funcname,mesg,MSTK_FATAL);
       }
     
@@ -729,7 +729,7 @@ extern "C" {
                               elem_type, &(nel_in_blk[i]), &nelnodes, 
                               &neledges, &nelfaces, &natts);
         if (status < 0) {
-          sprintf(mesg,
+          snprintf(mesg,sizeof(mesg),
                   "Error while reading element block %s in Exodus II file %s\n",
                   elem_blknames[i],filename);
           MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -788,7 +788,7 @@ extern "C" {
                               elem_type, &(nel_in_blk[i]), &nelnodes, 
                               &neledges, &nelfaces, &natts);
         if (status < 0) {
-          sprintf(mesg,
+          snprintf(mesg,sizeof(mesg),
                   "Error while reading element block %s in Exodus II file %s\n",
                   elem_blknames[i],filename);
           MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -819,7 +819,7 @@ extern "C" {
                                connect);
 
           if (status < 0) {
-            sprintf(mesg,
+            snprintf(mesg,sizeof(mesg),
                     "Error while reading elem block info in Exodus II file %s\n",
                     filename);
             MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -831,7 +831,7 @@ extern "C" {
           status = ex_get_entity_count_per_polyhedra(exoid, EX_ELEM_BLOCK,
                                                      elem_blk_ids[i], nnpe);
           if (status < 0) {
-            sprintf(mesg,
+            snprintf(mesg,sizeof(mesg),
                     "Error while reading elem block info in Exodus II file %s\n",
                     filename);
             MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -898,7 +898,7 @@ extern "C" {
           status = ex_get_conn(exoid, EX_ELEM_BLOCK, elem_blk_ids[i], connect,
                                NULL, NULL);
           if (status < 0) {
-            sprintf(mesg,"Error while reading element block %s in Exodus II file %s\n",elem_blknames[i],filename);
+            snprintf(mesg,sizeof(mesg),"Error while reading element block %s in Exodus II file %s\n",elem_blknames[i],filename);
             MSTK_Report(funcname,mesg,MSTK_FATAL);
           }
 	
@@ -940,7 +940,7 @@ extern "C" {
             }
           }
           else {
-            sprintf(mesg,"Unrecognized or unsupported solid element type: %s",
+            snprintf(mesg,sizeof(mesg),"Unrecognized or unsupported solid element type: %s",
                     elem_type);
             MSTK_Report(funcname,mesg,MSTK_WARN);
             continue;
@@ -1087,7 +1087,7 @@ extern "C" {
                                NULL, NULL);
 
           if (status < 0) {
-            sprintf(mesg,
+            snprintf(mesg,sizeof(mesg),
                     "Error while reading face block info in Exodus II file %s\n",
                     filename);
             MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -1099,7 +1099,7 @@ extern "C" {
           status = ex_get_entity_count_per_polyhedra(exoid, EX_ELEM_BLOCK,
                                                      elem_blk_ids[i], nnpe);
           if (status < 0) {
-            sprintf(mesg,
+            snprintf(mesg,sizeof(mesg),
                     "Error while reading face block info in Exodus II file %s\n",
                     filename);
             MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -1152,7 +1152,7 @@ extern "C" {
                                NULL, NULL);
 #endif
           if (status < 0) {
-            sprintf(mesg,"Error while reading element block %s in Exodus II file %s\n",elem_blknames[i],filename);
+            snprintf(mesg,sizeof(mesg),"Error while reading element block %s in Exodus II file %s\n",elem_blknames[i],filename);
             MSTK_Report(funcname,mesg,MSTK_FATAL);
           }
 	
@@ -1630,7 +1630,7 @@ extern "C" {
         status = ex_get_ids(exoid, EX_SIDE_SET, sideset_ids);
 #endif
         if (status < 0) {
-          sprintf(mesg,
+          snprintf(mesg,sizeof(mesg),
                   "Error while reading sideset IDs %s in Exodus II file %s\n",
                   elem_blknames[i],filename);
           MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -1651,7 +1651,7 @@ extern "C" {
                                     &num_sides_in_set, &num_df_in_set);
 #endif
           if (status < 0) {
-            sprintf(mesg,
+            snprintf(mesg,sizeof(mesg),
                     "Error while reading size of sideset %-d in Exodus II file %s\n",sideset_ids[i],filename);
             MSTK_Report(funcname,mesg,MSTK_FATAL);
           }
@@ -1666,7 +1666,7 @@ extern "C" {
                               ss_side_list);
 #endif
           if (status < 0) {
-            sprintf(mesg,
+            snprintf(mesg,sizeof(mesg),
                     "Error while reading elements in sideset %-d in Exodus II file %s\n",sideset_ids[i],filename);
             MSTK_Report(funcname,mesg,MSTK_FATAL);
           }
@@ -1757,7 +1757,7 @@ extern "C" {
                   if (MF_GEntID(List_Entry(fregs,0)) == 
                       MF_GEntID(List_Entry(fregs,1))) {
                     char mesg[256];
-                    sprintf(mesg,"Sideset %-d contains non-boundary faces",sideset_ids[i]);
+                    snprintf(mesg,sizeof(mesg),"Sideset %-d contains non-boundary faces",sideset_ids[i]);
                     MSTK_Report(funcname,mesg,MSTK_WARN);
                   }
 #endif
@@ -1798,7 +1798,7 @@ extern "C" {
         int *elemset_ids = (int *) malloc(nelemsets*sizeof(int));
         status = ex_get_ids(exoid, EX_ELEM_SET, elemset_ids);
         if (status < 0) {
-          sprintf(mesg,
+          snprintf(mesg,sizeof(mesg),
                   "Error while reading element set IDs in Exodus II file %s\n",
                   filename);
           MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -1817,7 +1817,7 @@ extern "C" {
           status = ex_get_set_param(exoid, EX_ELEM_SET, elemset_ids[i],
                                     &num_elems_in_set, &num_df_in_set);
           if (status < 0) {
-            sprintf(mesg,
+            snprintf(mesg,sizeof(mesg),
                     "Error while reading size of elemset %-d in Exodus II file %s\n",elemset_ids[i],filename);
             MSTK_Report(funcname,mesg,MSTK_FATAL);
           }
@@ -1827,7 +1827,7 @@ extern "C" {
           status = ex_get_set(exoid, EX_ELEM_SET, elemset_ids[i], es_elem_list,
                               NULL);
           if (status < 0) {
-            sprintf(mesg,
+            snprintf(mesg,sizeof(mesg),
                     "Error while reading elements in elemset %-d in Exodus II file %s\n",elemset_ids[i],filename);
             MSTK_Report(funcname,mesg,MSTK_FATAL);
           }
@@ -1868,7 +1868,7 @@ extern "C" {
       status = ex_get_id_map(exoid, EX_ELEM_MAP, elem_map);
 #endif
       if (status < 0) {
-        sprintf(mesg,"Error while reading element map in Exodus II file %s\n",filename);
+        snprintf(mesg,sizeof(mesg),"Error while reading element map in Exodus II file %s\n",filename);
         MSTK_Report(funcname,mesg,MSTK_FATAL);
       }
     
@@ -1926,7 +1926,7 @@ extern "C" {
     status = ex_get_variable_param(exoid, EX_ELEM_BLOCK, &nelemvars);
 #endif
     if (status < 0) {
-      sprintf(mesg, 
+      snprintf(mesg,sizeof(mesg),
               "Error while reading element variables in Exodus II file %s\n",
               filename);
       MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -1947,7 +1947,7 @@ extern "C" {
                                      elvarnames);
 #endif
       if (status < 0) {
-        sprintf(mesg, 
+        snprintf(mesg,sizeof(mesg),
                 "Error while reading element variable names in Exodus II file %s\n",
                 filename);
         MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -2034,7 +2034,7 @@ extern "C" {
                                     elem_var_vals[j]);
 #endif
                 if (status < 0) {
-                  sprintf(mesg, 
+                  snprintf(mesg,sizeof(mesg),
                           "Error while reading element variables in Exodus II file %s\n",
                           filename);
                   MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -2088,7 +2088,7 @@ extern "C" {
                                 elem_blk_ids[i], nel_in_blk[i], elem_var_vals);
 #endif
             if (status < 0) {
-              sprintf(mesg, 
+              snprintf(mesg,sizeof(mesg),
                       "Error while reading element variables in Exodus II file %s\n",
                       filename);
               MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -2125,7 +2125,7 @@ extern "C" {
     status = ex_get_variable_param(exoid, EX_NODAL, &nnodevars);
 #endif
     if (status < 0) {
-      sprintf(mesg, "Error while reading node variables in Exodus II file %s\n",
+      snprintf(mesg,sizeof(mesg),"Error while reading node variables in Exodus II file %s\n",
               filename);
       MSTK_Report(funcname,mesg,MSTK_FATAL);
     }
@@ -2143,7 +2143,7 @@ extern "C" {
       status = ex_get_variable_names(exoid, EX_NODAL, nnodevars, nodevarnames);
 #endif
       if (status < 0) {
-        sprintf(mesg, "Error while reading node variable names in Exodus II file %s\n",filename);
+        snprintf(mesg,sizeof(mesg),"Error while reading node variable names in Exodus II file %s\n",filename);
         MSTK_Report(funcname,mesg,MSTK_FATAL);
       }
 
@@ -2224,7 +2224,7 @@ extern "C" {
                                   nnodes, node_var_vals[j]);
 #endif
               if (status < 0) {
-                sprintf(mesg, 
+                snprintf(mesg,sizeof(mesg),
                         "Error while reading node variables in Exodus II file %s\n",
                         filename);
                 MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -2260,7 +2260,7 @@ extern "C" {
                               node_var_vals);
 #endif
           if (status < 0) {
-            sprintf(mesg, 
+            snprintf(mesg,sizeof(mesg),
                     "Error while reading node variables in Exodus II file %s\n",
                     filename);
             MSTK_Report(funcname,mesg,MSTK_FATAL);
-- 
2.43.0


From 137beb33494927e5ca70f312acec587d0a3fee84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 043/101] fix: Exodus II import rejects small polyhedra as
 having no volume

---
 src/io/MESH_ReadExodusII_Serial.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/io/MESH_ReadExodusII_Serial.c b/src/io/MESH_ReadExodusII_Serial.c
index 3ff8111..05313b4 100644
--- a/src/io/MESH_ReadExodusII_Serial.c
+++ b/src/io/MESH_ReadExodusII_Serial.c
@@ -1359,6 +1359,12 @@ extern "C" {
                 }
               }
               for (k = 0; k < 3; k++) rcen[k] /= nrv;
+
+              /* Size of region, to tell if a length in it is negligible */
+
+              double rvec[3];
+              MSTK_VDiff3(fxyz[0], rcen, rvec);
+              double rsize2 = MSTK_VLenSqr3(rvec);
             
               int nfgood = 0;
               for (k = 0; k < nrf; k++) {
@@ -1368,7 +1374,7 @@ extern "C" {
               
                 double outvec[3];              
                 MSTK_VDiff3(fcen[k], rcen, outvec);
-                if (MSTK_VLenSqr3(outvec) < 1.0e-20) continue;  /* zero vol element */
+                if (MSTK_VLenSqr3(outvec) <= 1.0e-20*rsize2) continue;  /* zero vol element */
               
                 MSTK_VNormalize3(outvec);
                 MSTK_VNormalize3(fnormal[k]);
-- 
2.43.0


From 430a48aa0ecddd7d6bcf7d889ae69fee53cc77e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 044/101] fix: distribution gives vector attributes with one
 component a random number of components

---
 src/par/MESH_Partition.c              | 2 +-
 src/par/MESH_Recv_AttributeMetaData.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/par/MESH_Partition.c b/src/par/MESH_Partition.c
index 38c418b..e45d385 100644
--- a/src/par/MESH_Partition.c
+++ b/src/par/MESH_Partition.c
@@ -106,7 +106,7 @@ extern "C" {
       ncomp = MAttrib_Get_NumComps(attrib);
       mtype = MAttrib_Get_EntDim(attrib);
       for (i = 0; i < num; i++) {
-	if (ncomp == 1)
+	if (att_type != VECTOR && att_type != TENSOR)
 	  attrib =  MAttrib_New(submeshes[i], attname, att_type, mtype);
 	else
 	  attrib =  MAttrib_New(submeshes[i], attname, att_type, mtype, ncomp);
diff --git a/src/par/MESH_Recv_AttributeMetaData.c b/src/par/MESH_Recv_AttributeMetaData.c
index 36054a3..6e10241 100644
--- a/src/par/MESH_Recv_AttributeMetaData.c
+++ b/src/par/MESH_Recv_AttributeMetaData.c
@@ -81,7 +81,7 @@ extern "C" {
       att_type = list_attr_info[i] & 7;
       mtype = (list_attr_info[i] >> 3) & 7;
       ncomp = list_attr_info[i] >> 6;
-      if(ncomp == 1)
+      if(att_type != VECTOR && att_type != TENSOR)
         attrib =  MAttrib_New(mesh, attname, att_type, mtype);
       else
         attrib =  MAttrib_New(mesh, attname, att_type, mtype, ncomp);
-- 
2.43.0


From cf6f1c580bb0dc9a210c163839f88554636b476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 045/101] fix: Exodus II import prints an undefined block name
 when side sets cannot be read

---
 src/io/MESH_ReadExodusII_Serial.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/MESH_ReadExodusII_Serial.c b/src/io/MESH_ReadExodusII_Serial.c
index 05313b4..c429639 100644
--- a/src/io/MESH_ReadExodusII_Serial.c
+++ b/src/io/MESH_ReadExodusII_Serial.c
@@ -1637,8 +1637,8 @@ extern "C" {
 #endif
         if (status < 0) {
           snprintf(mesg,sizeof(mesg),
-                  "Error while reading sideset IDs %s in Exodus II file %s\n",
-                  elem_blknames[i],filename);
+                  "Error while reading sideset IDs in Exodus II file %s\n",
+                  filename);
           MSTK_Report(funcname,mesg,MSTK_FATAL);
         }
       
-- 
2.43.0


From d85992688631c4154656d38a6691b41d3c132db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 046/101] fix: Exodus II export adds geometric sets to the
 mesh's own sets

With geometry sets enabled, entities classified on a model entity whose ID
is that of an existing side or node set were added to that set of the mesh.
Also start the search for the edges of surface meshes from the first edge.
---
 src/io/MESH_ExportToExodusII.c | 39 +++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index e04367b..43bdbe4 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -2166,6 +2166,38 @@ extern "C" {
 
 
 
+  /* Add an entity to the set collecting entities of a geometric entity
+     and return the set. A set of the mesh itself (one whose name does
+     not start with TEMPORARY) must not change, so the entity goes into
+     a temporary copy of such a set */
+
+  static MSet_ptr Add_To_Geometry_Set(Mesh_ptr mesh, MSet_ptr mset,
+                                      char const *settype, int id,
+                                      MEntity_ptr ment) {
+    char mset_name[256];
+    int idx;
+    MEntity_ptr ment2;
+
+    MSet_Name(mset,mset_name);
+    if (strncmp(mset_name,"TEMPORARY_",10) != 0) {
+      MSet_ptr mset2;
+
+      sprintf(mset_name,"TEMPORARY_merged_%s_%-d",settype,id);
+      mset2 = MSet_New(mesh,mset_name,MSet_EntDim(mset));
+      idx = 0;
+      while ((ment2 = MSet_Next_Entry(mset,&idx)))
+        MSet_Add(mset2,ment2);
+      mset = mset2;
+    }
+
+    if (strncmp(mset_name,"TEMPORARY_merged_",17) == 0)
+      MSet_ChknAdd(mset,ment);
+    else
+      MSet_Add(mset,ment);
+
+    return mset;
+  }
+
   /* Collect side sets (sets of boundary entities that are one
      dimension less than the dimension of elements in the mesh, e.g.,
      faces in solid mesh)
@@ -2259,7 +2291,7 @@ extern "C" {
           while (!found && i < nsideset) {
             if (side_set_ids[i] == sid) {
               found = 1;
-              MSet_Add(side_sets[i],mf);
+              side_sets[i] = Add_To_Geometry_Set(mesh,side_sets[i],"sideset",sid,mf);
               break;
             }
             i++;
@@ -2323,6 +2355,7 @@ extern "C" {
         /* create sidesets from sets of edges classified on the same
            geometric model edge */
 
+        idx = 0;
         while ((me = MESH_Next_Edge(mesh,&idx))) {
           if (ME_GEntDim(me) != 1) continue;
           
@@ -2344,7 +2377,7 @@ extern "C" {
           while (!found && i < nsideset) {
             if (side_set_ids[i] == sid) {
               found = 1;
-              MSet_Add(side_sets[i],me);
+              side_sets[i] = Add_To_Geometry_Set(mesh,side_sets[i],"sideset",sid,me);
               break;
             }
             i++;
@@ -2585,7 +2618,7 @@ extern "C" {
         while (!found && i < nnodeset) {
           if (node_set_ids[i] == nid) {
             found = 1;
-            MSet_Add(node_sets[i],mv);
+            node_sets[i] = Add_To_Geometry_Set(mesh,node_sets[i],"nodeset",nid,mv);
             break;
           }
           i++;
-- 
2.43.0


From decdd0313e3bf06e327c250e79f13a701249c035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 047/101] fix: partial Exodus II import skips elements of
 ranges that span blocks

A range of consecutive element IDs is read one block at a time, but the rest
of the range after its first block was skipped when reading polyhedra and
element variables.
---
 src/io/MESH_ReadExodusII_Partial.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/io/MESH_ReadExodusII_Partial.c b/src/io/MESH_ReadExodusII_Partial.c
index 5b6c3fb..fe143de 100644
--- a/src/io/MESH_ReadExodusII_Partial.c
+++ b/src/io/MESH_ReadExodusII_Partial.c
@@ -304,8 +304,10 @@ extern "C" {
 	    
 	    int jbeg = begel - elblock_min[b];  /* jbeg is index in global
 						   list of elements */
-	    if (elblock_max[b] < endel)
+	    if (elblock_max[b] < endel) {
 	      endel = elblock_max[b];    /* range spans multiple blocks */
+	      iend = ibeg + endel - begel;
+	    }
 	    int nelems_cur = endel - begel + 1;
 	    
 	    if (strncasecmp(elblock_type[b],"NFACED",6) == 0) {
@@ -1801,8 +1803,10 @@ extern "C" {
 	  
 		  int jbeg = begel - elblock_min[b];
 		  int endel = elem_ids[iend];
-		  if (elblock_max[b] < endel)
+		  if (elblock_max[b] < endel) {
 		    endel = elblock_max[b];  /* range spans multiple blocks */
+		    iend = ibeg + endel - begel;
+		  }
 		  int nelems_cur = endel - begel + 1;
 
 		  for (int k = 0; k < ncomp; k++) {
@@ -1865,8 +1869,10 @@ extern "C" {
 		
 		int jbeg = begel - elblock_min[b];
 		int endel = elem_ids[iend];
-		if (elblock_max[b] < endel)
+		if (elblock_max[b] < endel) {
 		  endel = elblock_max[b];  /* range spans multiple blocks */
+		  iend = ibeg + endel - begel;
+		}
 		int nelems_cur = endel - begel + 1;
 		
 		/* ex_get_partial_var is using indices starting from 1 */
-- 
2.43.0


From 62d43500b446d13a66bf10fc506e71ae62709527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 048/101] fix: partial Exodus II import cannot read polyhedra

The faces to read were not collected (the loop ended at once and its count
was shadowed), face numbers were looked up as if they started from 0, node
lists of faces were read from wrong offsets, polyhedra were not given their
faces, their face set did not exist, and elements of meshes with polyhedral
and standard blocks were numbered in another order than they are created.
---
 src/io/MESH_ReadExodusII_Partial.c | 72 +++++++++++++++---------------
 1 file changed, 37 insertions(+), 35 deletions(-)

diff --git a/src/io/MESH_ReadExodusII_Partial.c b/src/io/MESH_ReadExodusII_Partial.c
index fe143de..0ee5a2a 100644
--- a/src/io/MESH_ReadExodusII_Partial.c
+++ b/src/io/MESH_ReadExodusII_Partial.c
@@ -266,8 +266,6 @@ extern "C" {
 
     int *elem_blockidx = (int *) malloc(nelems*sizeof(int));
 
-    int elcounter = 0;
-
     
     /* Gather info needed for any polyhedral elements */
 
@@ -336,11 +334,11 @@ extern "C" {
 	      int nelfaces_cur_sum = 0;
 	      for (j = 0; j < nelems_cur; j++) {
 		nelfaces_cur_sum += nelfaces_cur[jbeg+j];
-		nelfaces[elcounter] = nelfaces_cur[jbeg+j];
-		elem_blockidx[elcounter] = b;
-		global2local_elem_map[begel+j] = elcounter+1;
-		local2global_elem_map[elcounter+1] = begel+j;
-		elcounter++;
+		int ie = ibeg+j;  /* elements are created in the order of elem_ids */
+		nelfaces[ie] = nelfaces_cur[jbeg+j];
+		elem_blockidx[ie] = b;
+		global2local_elem_map[begel+j] = ie+1;
+		local2global_elem_map[ie+1] = begel+j;
 	      }
 
 	      if (nelfaces_alloc < nelfaces_sum + nelfaces_cur_sum) {
@@ -383,16 +381,10 @@ extern "C" {
       memcpy(faces2read_tmp, elfaces, nelfaces_sum*sizeof(int));
       qsort(faces2read_tmp, nelfaces_sum, sizeof(int), compareINT);
       faces2read = (int *) malloc(nelfaces_sum*sizeof(int));
-      faces2read[0] = faces2read_tmp[0];
-      int nfaces2read = 1;
-      int curf = 0, nxtf = 1;
-      while (nxtf < nfaces2read) {
-	if (faces2read_tmp[nxtf] != faces2read_tmp[curf]) {
-	  faces2read[nfaces2read++] = faces2read_tmp[nxtf];
-	  curf = nxtf;
-	}
-	nxtf++;
-      }
+      nfaces2read = 0;
+      for (int i = 0; i < nelfaces_sum; i++)
+	if (i == 0 || faces2read_tmp[i] != faces2read_tmp[i-1])
+	  faces2read[nfaces2read++] = faces2read_tmp[i];
       free(faces2read_tmp);
 
       
@@ -418,8 +410,8 @@ extern "C" {
 	status = ex_get_block(exoid, EX_FACE_BLOCK, faceblock_ids[i], face_type,
 			      &(faceblock_nfaces[i]), &nfnodes_cur_sum,
 			      NULL, NULL, NULL);
-	faceblock_min[i] = (i == 0) ? 0 : faceblock_max[i-1]+1;
-	faceblock_max[i] = faceblock_min[i] + faceblock_nfaces[i];
+	faceblock_min[i] = (i == 0) ? 1 : faceblock_max[i-1]+1;
+	faceblock_max[i] = faceblock_min[i] + faceblock_nfaces[i] - 1;
 	nfnodes_sum_max += nfnodes_cur_sum;
       }
 
@@ -431,7 +423,8 @@ extern "C" {
       while (ibeg < nfaces2read) {
 	/* Find range of contiguous face numbers */
 	int iend = ibeg;
-	while (faces2read[iend+1] == faces2read[iend]+1) iend++;
+	while (iend < nfaces2read-1 && faces2read[iend+1] == faces2read[iend]+1)
+	  iend++;
 
 	int begf = faces2read[ibeg];
 	int endf = faces2read[iend];
@@ -439,8 +432,10 @@ extern "C" {
 	for (int i = 0; i < nfaceblock_total; i++) {
 	  if (faceblock_min[i] <= begf && begf <= faceblock_max[i]) {
 
-	    if (endf > faceblock_max[i])
+	    if (endf > faceblock_max[i]) {
 	      endf = faceblock_max[i];   /* range spans multiple face blocks */
+	      iend = ibeg + endf - begf;
+	    }
 
 	    int nface_cur = endf - begf + 1;
 	    int jbeg = begf - faceblock_min[i];
@@ -465,12 +460,12 @@ extern "C" {
 	    int fnodes_beg = 0;
 	    int j;
 	    for (j = 0; j < jbeg; j++)
-	      fnodes_beg += nfnodes_cur[0];
+	      fnodes_beg += nfnodes_cur[j];
 
 	    int nfnodes_cur_sum = 0;
 	    for (int j = 0; j < nface_cur; j++) {
 	      nfnodes_cur_sum += nfnodes_cur[jbeg+j];
-	      nfnodes[nfnodes_sum+j] = nfnodes_cur[jbeg+j];
+	      nfnodes[ibeg+j] = nfnodes_cur[jbeg+j];
 	    }
 	    
 	    /* ex_get_partial_conn requires us to provde the offset of
@@ -553,11 +548,11 @@ extern "C" {
 	    int nelnodes_cur_sum = 0;
 	    for (j = 0; j < nelems_cur; j++) {
 	      nelnodes_cur_sum += nelnodes_cur[jbeg+j];
-	      nelnodes[elcounter] = nelnodes_cur[jbeg+j];
-	      elem_blockidx[elcounter] = b;
-	      global2local_elem_map[begel+j] = elcounter+1;
-	      local2global_elem_map[elcounter+1] = begel+j;
-	      elcounter++;
+	      int ie = ibeg+j;
+	      nelnodes[ie] = nelnodes_cur[jbeg+j];
+	      elem_blockidx[ie] = b;
+	      global2local_elem_map[begel+j] = ie+1;
+	      local2global_elem_map[ie+1] = begel+j;
 	    }
 
 	    if (nelnodes_sum + nelnodes_cur_sum > nelnodes_alloc) {
@@ -612,11 +607,11 @@ extern "C" {
 	       the same number of nodes */
 	    int j;
 	    for (j = 0; j < nelems_cur; j++) {
-	      nelnodes[elcounter] = elblock_nelnodes[b];
-	      elem_blockidx[elcounter] = b;
-	      global2local_elem_map[begel+j] = elcounter+1;
-	      local2global_elem_map[elcounter+1] = begel+j;
-	      elcounter++;
+	      int ie = ibeg+j;
+	      nelnodes[ie] = elblock_nelnodes[b];
+	      elem_blockidx[ie] = b;
+	      global2local_elem_map[begel+j] = ie+1;
+	      local2global_elem_map[ie+1] = begel+j;
 	    }
 
 	    nelnodes_sum += elblock_nelnodes[b]*nelems_cur;
@@ -789,16 +784,21 @@ extern "C" {
       } else {  /* solid mesh */
 
 	MFace_ptr *mfaces = NULL;
+	if (nfaceblock_total)
+	  faceset = MSet_New(mesh, "faceset", MFACE);
+
 	if (nfaces2read) {
 
 	  /* create faces of any polyhedral elements */
 
 	  mfaces = (MFace_ptr *) malloc(nfaces2read*sizeof(MFace_ptr));
 
+	  int fnoffset = 0;
 	  for (int f = 0; f < nfaces2read; f++) {
 	    mfaces[f] = MF_New(mesh);
 	    for (int n = 0; n < nfnodes[f]; n++)
-	      fverts[n] = mverts[fnodes[n]];
+	      fverts[n] = mverts[fnodes[fnoffset+n]];
+	    fnoffset += nfnodes[f];
 	    MF_Set_Vertices(mfaces[f], nfnodes[f], fverts);
 	    MSet_Add(faceset, mfaces[f]);
 	  }
@@ -850,6 +850,8 @@ extern "C" {
 	    }
 	    foffset += nrf;
 
+	    MR_Set_Faces(mr, nrf, rfaces_arr, rfdirs);
+
 	  } else {  /* standard element */
 	  
 	    for (int n = 0; n < nelnodes[e]; n++)
@@ -1125,7 +1127,6 @@ extern "C" {
 		}
 		for (k1 = 0; k1 < 3; k1++) fcen[k][k1] /= nfv;
 		List_Delete(fvlist);
-		List_Delete(rvlist);
               
 		fnormal[k][0] = fnormal[k][1] = fnormal[k][2] = 0.0;
 		for (k1 = 0; k1 < nfv; k1++) {
@@ -1138,6 +1139,7 @@ extern "C" {
 		  MSTK_VSum3(fnormal[k], normal, fnormal[k]);
 		}
 	      }
+	      List_Delete(rvlist);
 	      for (int k = 0; k < 3; k++) rcen[k] /= nrv;
             
 	      int nfgood = 0;
-- 
2.43.0


From 34c235132b7f0569198a76d821bb1e9371a0fce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 049/101] fix: partial Exodus II import reads past the node
 list, uses unset z coordinates

---
 src/io/MESH_ReadExodusII_Partial.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/MESH_ReadExodusII_Partial.c b/src/io/MESH_ReadExodusII_Partial.c
index 0ee5a2a..820cff3 100644
--- a/src/io/MESH_ReadExodusII_Partial.c
+++ b/src/io/MESH_ReadExodusII_Partial.c
@@ -669,7 +669,7 @@ extern "C" {
     int *local2global_node_map = (int *) malloc((nnodes2read+1)*sizeof(int)); /* local node IDs start from 1 */
     xvals = (double *) malloc(nnodes2read*sizeof(double));
     yvals = (double *) malloc(nnodes2read*sizeof(double));
-    zvals = (double *) malloc(nnodes2read*sizeof(double));
+    zvals = (double *) calloc(nnodes2read,sizeof(double)); /* not read if ndim is 2 */
 
     ibeg = 0;
     while (ibeg < nnodes2read) {
@@ -1996,7 +1996,7 @@ extern "C" {
 	    int ibeg = 0;
 	    while (ibeg < nnodes2read) {
 	      int iend = ibeg;
-	      while (nodes2read[iend+1] == nodes2read[iend]+1) iend++;
+	      while (iend < nnodes2read-1 && nodes2read[iend+1] == nodes2read[iend]+1) iend++;
 	      int nnodes_cur = iend - ibeg + 1;
 
               int begnode = nodes2read[ibeg];
@@ -2044,7 +2044,7 @@ extern "C" {
 	  int ibeg = 0;
 	  while (ibeg < nnodes2read) {
 	    int iend = ibeg;
-	    while (nodes2read[iend+1] == nodes2read[iend]+1) iend++;
+	    while (iend < nnodes2read-1 && nodes2read[iend+1] == nodes2read[iend]+1) iend++;
 	    int nnodes_cur = iend - ibeg + 1;
 
             int begnode = nodes2read[ibeg];
-- 
2.43.0


From d5fb5e57cc14fde0ae991dad6a6f39849f874d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 050/101] fix: partial Exodus II import loses the block of
 faces of surface meshes

---
 src/io/MESH_ReadExodusII_Partial.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/MESH_ReadExodusII_Partial.c b/src/io/MESH_ReadExodusII_Partial.c
index 820cff3..ec441ea 100644
--- a/src/io/MESH_ReadExodusII_Partial.c
+++ b/src/io/MESH_ReadExodusII_Partial.c
@@ -751,7 +751,7 @@ extern "C" {
 	MF_Set_GlobalID(mf, elem_ids[e]);
 #endif
 	MF_Set_GEntID(mf, b);
-	MF_Set_GEntID(mf, 2);
+	MF_Set_GEntDim(mf, 2);
 
 	MSet_Add(matset[ib], mf);
 	MEnt_Set_AttVal(mf, elblockatt, b, 0.0, NULL);  /* necessary? */
@@ -776,7 +776,7 @@ extern "C" {
 	  MF_Set_GlobalID(mf, elem_ids[e]);
 #endif
 	  MF_Set_GEntID(mf, b);
-	  MF_Set_GEntDim(mf, 3);
+	  MF_Set_GEntDim(mf, 2);
 	
 	  MSet_Add(matset[ib], mf);
 	  MEnt_Set_AttVal(mf, elblockatt, b, 0.0, NULL);
-- 
2.43.0


From 8e56cb292218de77ab5ec7f38d0b1a4e91b1a205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 051/101] fix: partial Exodus II import overruns its message
 buffer for long file names

---
 src/io/MESH_ReadExodusII_Partial.c | 64 +++++++++++++++---------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/src/io/MESH_ReadExodusII_Partial.c b/src/io/MESH_ReadExodusII_Partial.c
index ec441ea..cd38fb5 100644
--- a/src/io/MESH_ReadExodusII_Partial.c
+++ b/src/io/MESH_ReadExodusII_Partial.c
@@ -99,7 +99,7 @@ extern "C" {
     exoid = ex_open(filename, EX_READ, &comp_ws, &io_ws, &version);
 
     if (exoid < 0) {
-      sprintf(mesg,"Cannot open/read Exodus II file %s\n",filename);
+      snprintf(mesg,sizeof(mesg),"Cannot open/read Exodus II file %s\n",filename);
       MSTK_Report(funcname,mesg,MSTK_FATAL);
     }
 
@@ -111,7 +111,7 @@ extern "C" {
 
     status = ex_get_init_ext(exoid, &exopar);
     if (status < 0) {
-      sprintf(mesg,"Error reading Exodus II file %s\n",filename);
+      snprintf(mesg,sizeof(mesg),"Error reading Exodus II file %s\n",filename);
       MSTK_Report(funcname,mesg,MSTK_FATAL);
     }
   
@@ -156,7 +156,7 @@ extern "C" {
     elblock_ids = (int *) malloc(nelblock_total*sizeof(int));
     status = ex_get_ids(exoid, EX_ELEM_BLOCK, elblock_ids);
     if (status < 0) {
-      sprintf(mesg,
+      snprintf(mesg,sizeof(mesg),
 	      "Error reading element block ids in Exodus II file %s\n",
 	      filename);
       MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -167,7 +167,7 @@ extern "C" {
       elblock_names[i] = (char *) malloc(256*sizeof(char));
     status = ex_get_names(exoid, EX_ELEM_BLOCK, elblock_names);
     if (status < 0) {
-      sprintf(mesg,"Error reading element block ids in Exodus II file %s\n",filename);
+      snprintf(mesg,sizeof(mesg),"Error reading element block ids in Exodus II file %s\n",filename);
       MSTK_Report(funcname,mesg,MSTK_FATAL);
     }
 
@@ -195,7 +195,7 @@ extern "C" {
 			    &(elblock_nelfaces[b]), &(elblock_natts[b]));
 
       if (status < 0) {
-	sprintf(mesg, "Error reading element block %s in Exodus II file %s\n",
+	snprintf(mesg,sizeof(mesg), "Error reading element block %s in Exodus II file %s\n",
 		elblock_names[b],filename);
 	MSTK_Report(funcname,mesg,MSTK_FATAL);
       }
@@ -231,7 +231,7 @@ extern "C" {
 			  MSTK_WARN);
 	  } else {
             if (strncasecmp(elblock_type[b],"NFACED",6) != 0) {
-              sprintf(mesg,"Unrecognized or unsupported solid element type: %s",
+              snprintf(mesg,sizeof(mesg),"Unrecognized or unsupported solid element type: %s",
                       elblock_type[b]);
               MSTK_Report(funcname,mesg,MSTK_FATAL);
             }
@@ -318,7 +318,7 @@ extern "C" {
 							 elblock_ids[b],
 							 nelfaces_cur);
 	      if (status < 0) {
-		sprintf(mesg,
+		snprintf(mesg,sizeof(mesg),
 			"Error reading elem block info in Exodus II file %s\n",
 			filename);
 		MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -358,7 +358,7 @@ extern "C" {
 					   NULL, NULL,
 					   elfaces + nelfaces_sum);
 	      if (status < 0) {
-		sprintf(mesg,
+		snprintf(mesg,sizeof(mesg),
 			"Error reading elem block info in Exodus II file %s\n",
 			filename);
 		MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -394,7 +394,7 @@ extern "C" {
       int *faceblock_ids = (int *) malloc(nfaceblock_total*sizeof(int));
       status = ex_get_ids(exoid, EX_FACE_BLOCK, faceblock_ids);
       if (status < 0) {
-        sprintf(mesg,
+        snprintf(mesg,sizeof(mesg),
 		"Error reading face block ids in Exodus II file %s\n",
 		filename);
         MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -449,7 +449,7 @@ extern "C" {
 						       nfnodes_cur);
 	    
 	    if (status < 0) {
-	      sprintf(mesg,
+	      snprintf(mesg,sizeof(mesg),
 		      "Error reading face block info in Exodus II file %s\n",
 		      filename);
 	      MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -475,7 +475,7 @@ extern "C" {
 					 fnodes_beg+1, nfnodes_cur_sum,
 					 fnodes + nfnodes_sum, NULL, NULL);
 	    if (status < 0) {
-	      sprintf(mesg,
+	      snprintf(mesg,sizeof(mesg),
 		      "Error reading face block info in Exodus II file %s\n",
 		      filename);
 	      MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -529,7 +529,7 @@ extern "C" {
 						       elblock_ids[b],
 						       nelnodes_cur);
 	    if (status < 0) {
-	      sprintf(mesg,
+	      snprintf(mesg,sizeof(mesg),
 		      "Error reading elem block info in Exodus II file %s\n",
 		      filename);
 	      MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -570,7 +570,7 @@ extern "C" {
 					 elnodes + nelnodes_sum, NULL, NULL);
 
 	    if (status < 0) {
-	      sprintf(mesg,
+	      snprintf(mesg,sizeof(mesg),
 		      "Error reading face block info in Exodus II file %s\n",
 		      filename);
 	      MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -596,7 +596,7 @@ extern "C" {
 					 jbeg+1, nelems_cur,
 					 elnodes + nelnodes_sum, NULL, NULL);
 	    if (status < 0) {
-	      sprintf(mesg,
+	      snprintf(mesg,sizeof(mesg),
 		      "Error reading element block %s in Exodus II file %s\n",
 		      elblock_names[b],filename);
 	      MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -619,7 +619,7 @@ extern "C" {
 	    /* we already collected data from this block */
 	  } else {
 	    if (status < 0) {
-	      sprintf(mesg,
+	      snprintf(mesg,sizeof(mesg),
 		      "UNKNOWN element type (%s) info in Exodus II file %s\n",
 		      elblock_type[b], filename);
 	      MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -680,7 +680,7 @@ extern "C" {
       
       status = ex_get_partial_coord(exoid, begnode, nnodes_cur, xvals, yvals, zvals);
       if (status < 0) {
-	sprintf(mesg, "Error reading node coordinates in Exodus II file %s\n",
+	snprintf(mesg,sizeof(mesg), "Error reading node coordinates in Exodus II file %s\n",
 		filename);
 	MSTK_Report(funcname,mesg,MSTK_FATAL);
       }
@@ -1413,7 +1413,7 @@ extern "C" {
     status = ex_get_id_map(exoid, EX_NODE_MAP, node_map);
 #endif
     if (status < 0) {
-      sprintf(mesg,"Error reading node map in Exodus II file %s\n",filename);
+      snprintf(mesg,sizeof(mesg),"Error reading node map in Exodus II file %s\n",filename);
       MSTK_Report(funcname,mesg,MSTK_FATAL);
     }
   
@@ -1444,7 +1444,7 @@ extern "C" {
       status = ex_get_ids(exoid, EX_NODE_SET, nodeset_ids);
 #endif
       if (status < 0) {
-        sprintf(mesg,
+        snprintf(mesg,sizeof(mesg),
                 "Error reading nodeset IDs in Exodus II file %s\n",
                 filename);
         MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -1476,7 +1476,7 @@ extern "C" {
                             ns_node_list, NULL);
 #endif
         if (status < 0) {
-          sprintf(mesg,
+          snprintf(mesg,sizeof(mesg),
                   "Error reading nodes in nodeset %-d in Exodus II file %s\n",nodeset_ids[i],filename);
           MSTK_Report(funcname,mesg,MSTK_FATAL);
         }
@@ -1519,7 +1519,7 @@ extern "C" {
       status = ex_get_ids(exoid, EX_SIDE_SET, sideset_ids);
 #endif
       if (status < 0) {
-	sprintf(mesg,
+	snprintf(mesg,sizeof(mesg),
 		"Error reading sideset IDs in Exodus II file %s\n",
 		filename);
 	MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -1553,7 +1553,7 @@ extern "C" {
 			    ss_side_list);
 #endif
 	if (status < 0) {
-	  sprintf(mesg,
+	  snprintf(mesg,sizeof(mesg),
 		  "Error reading elements in sideset %-d in Exodus II file %s\n",sideset_ids[i],filename);
 	  MSTK_Report(funcname,mesg,MSTK_FATAL);
 	}
@@ -1608,7 +1608,7 @@ extern "C" {
       int *elemset_ids = (int *) malloc(nelemsets_total*sizeof(int));
       status = ex_get_ids(exoid,EX_ELEM_SET,elemset_ids);
       if (status < 0) {
-	sprintf(mesg,
+	snprintf(mesg,sizeof(mesg),
 		"Error reading element set IDs in Exodus II file %s\n",
 		filename);
 	MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -1631,7 +1631,7 @@ extern "C" {
 	status = ex_get_set(exoid, EX_ELEM_SET, elemset_ids[i], es_elem_list,
 			    NULL);
 	if (status < 0) {
-	  sprintf(mesg,
+	  snprintf(mesg,sizeof(mesg),
 		  "Error reading elements in elemset %-d in Exodus II file %s\n",elemset_ids[i],filename);
 	  MSTK_Report(funcname,mesg,MSTK_FATAL);
 	}
@@ -1669,7 +1669,7 @@ extern "C" {
     status = ex_get_id_map(exoid, EX_ELEM_MAP, elem_map);
 #endif
     if (status < 0) {
-      sprintf(mesg,"Error reading element map in Exodus II file %s\n",filename);
+      snprintf(mesg,sizeof(mesg),"Error reading element map in Exodus II file %s\n",filename);
       MSTK_Report(funcname,mesg,MSTK_FATAL);
     }
     
@@ -1713,7 +1713,7 @@ extern "C" {
 
     status = ex_get_variable_param(exoid, EX_ELEM_BLOCK, &nelemvars);
     if (status < 0) {
-      sprintf(mesg, "Error reading element variables in Exodus II file %s\n",
+      snprintf(mesg,sizeof(mesg), "Error reading element variables in Exodus II file %s\n",
 	      filename);
       MSTK_Report(funcname,mesg,MSTK_FATAL);
     }
@@ -1729,7 +1729,7 @@ extern "C" {
       status = ex_get_variable_names(exoid, EX_ELEM_BLOCK, nelemvars,
 				     elvarnames);
       if (status < 0) {
-        sprintf(mesg,
+        snprintf(mesg,sizeof(mesg),
 		"Error reading element variable names in Exodus II file %s\n",
 		filename);
         MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -1819,7 +1819,7 @@ extern "C" {
 						jbeg+1, nelems_cur,
 						elem_var_vals[k]+ibeg);
 		    if (status < 0) {
-		      sprintf(mesg,
+		      snprintf(mesg,sizeof(mesg),
 			      "Error reading element variables in Exodus II file %s\n",
 			      filename);
 		      MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -1882,7 +1882,7 @@ extern "C" {
 					    varindex+1, elblock_ids[b], jbeg+1,
 					    nelems_cur, elem_var_vals+ibeg);
 		if (status < 0) {
-		  sprintf(mesg,
+		  snprintf(mesg,sizeof(mesg),
 			  "Error reading element variables in Exodus II file %s\n",
 			  filename);
 		  MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -1919,7 +1919,7 @@ extern "C" {
 
     status = ex_get_variable_param(exoid, EX_NODAL, &nnodevars);
     if (status < 0) {
-      sprintf(mesg, "Error reading node variables in Exodus II file %s\n",
+      snprintf(mesg,sizeof(mesg), "Error reading node variables in Exodus II file %s\n",
 	      filename);
       MSTK_Report(funcname,mesg,MSTK_FATAL);
     }
@@ -1933,7 +1933,7 @@ extern "C" {
 
       status = ex_get_variable_names(exoid, EX_NODAL, nnodevars, nodevarnames);
       if (status < 0) {
-        sprintf(mesg,
+        snprintf(mesg,sizeof(mesg),
 		"Error reading node variable names in Exodus II file %s\n",
 		filename);
         MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -2009,7 +2009,7 @@ extern "C" {
 					    varindex2+1, 1, begnode, nnodes_cur,
 					    node_var_vals[k]+ibeg);
 		if (status < 0) {
-		  sprintf(mesg,
+		  snprintf(mesg,sizeof(mesg),
 			  "Error reading node variables in Exodus II file %s\n",
 			  filename);
 		  MSTK_Report(funcname,mesg,MSTK_FATAL);
@@ -2054,7 +2054,7 @@ extern "C" {
 					varindex+1, 1, begnode, nnodes_cur,
 					node_var_vals+ibeg);
             if (status < 0) {
-              sprintf(mesg, "Error reading node variables in Exodus II file %s\n",
+              snprintf(mesg,sizeof(mesg), "Error reading node variables in Exodus II file %s\n",
                       filename);
               MSTK_Report(funcname,mesg,MSTK_FATAL);
             }
-- 
2.43.0


From 547f9f09e6f9c30db8152dda3c1cd8f7fb86d876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:54 +0000
Subject: [PATCH 052/101] fix: partial Exodus II import cannot read parts of
 polyhedral blocks

ex_get_partial_conn limits the range to the number of elements in the block,
so the lists of faces and nodes of polyhedra and polygons were refused or
cut. Read them in full and copy the part that is needed.
---
 src/io/MESH_ReadExodusII_Partial.c | 65 +++++++++++++++++-------------
 1 file changed, 37 insertions(+), 28 deletions(-)

diff --git a/src/io/MESH_ReadExodusII_Partial.c b/src/io/MESH_ReadExodusII_Partial.c
index cd38fb5..b2af942 100644
--- a/src/io/MESH_ReadExodusII_Partial.c
+++ b/src/io/MESH_ReadExodusII_Partial.c
@@ -346,17 +346,14 @@ extern "C" {
 		elfaces = (int *) realloc(elfaces, nelfaces_alloc*sizeof(int));
 	      }
 	      
-	      /* ex_get_partial_conn for NFACED elements is different
-		 than for standard elements; for NFACED elements you
-		 have to give it the offset to the first face of the
-		 starting element (begel) and the number of faces to
-		 be read */
-
-	      status = ex_get_partial_conn(exoid, EX_ELEM_BLOCK,
-					   elblock_ids[b], elfaces_beg+1,
-					   nelfaces_cur_sum,
-					   NULL, NULL,
-					   elfaces + nelfaces_sum);
+	      /* ex_get_partial_conn checks the range against the number
+		 of elements in the block, so it cannot read all the
+		 faces of NFACED elements - read all and copy the ones
+		 needed */
+
+	      int *blkfaces = (int *) malloc(elblock_nelfaces[b]*sizeof(int));
+	      status = ex_get_conn(exoid, EX_ELEM_BLOCK, elblock_ids[b],
+				   NULL, NULL, blkfaces);
 	      if (status < 0) {
 		snprintf(mesg,sizeof(mesg),
 			"Error reading elem block info in Exodus II file %s\n",
@@ -364,6 +361,10 @@ extern "C" {
 		MSTK_Report(funcname,mesg,MSTK_FATAL);
 	      }
 
+	      memcpy(elfaces + nelfaces_sum, blkfaces + elfaces_beg,
+		     nelfaces_cur_sum*sizeof(int));
+	      free(blkfaces);
+
 	      nelfaces_sum += nelfaces_cur_sum;
 	      
 	      free(nelfaces_cur);
@@ -403,16 +404,16 @@ extern "C" {
       int *faceblock_min = (int *) malloc(nfaceblock_total*sizeof(int));
       int *faceblock_max = (int *) malloc(nfaceblock_total*sizeof(int));
       int *faceblock_nfaces = (int *) malloc(nfaceblock_total*sizeof(int));
+      int *faceblock_nfnodes = (int *) malloc(nfaceblock_total*sizeof(int));
 
       int nfnodes_sum_max = 0;
       for (int i = 0; i < nfaceblock_total; i++) {
-	int nfnodes_cur_sum;
 	status = ex_get_block(exoid, EX_FACE_BLOCK, faceblock_ids[i], face_type,
-			      &(faceblock_nfaces[i]), &nfnodes_cur_sum,
+			      &(faceblock_nfaces[i]), &(faceblock_nfnodes[i]),
 			      NULL, NULL, NULL);
 	faceblock_min[i] = (i == 0) ? 1 : faceblock_max[i-1]+1;
 	faceblock_max[i] = faceblock_min[i] + faceblock_nfaces[i] - 1;
-	nfnodes_sum_max += nfnodes_cur_sum;
+	nfnodes_sum_max += faceblock_nfnodes[i];
       }
 
       nfnodes = (int *) malloc(nfaces2read*sizeof(int));
@@ -468,12 +469,12 @@ extern "C" {
 	      nfnodes[ibeg+j] = nfnodes_cur[jbeg+j];
 	    }
 	    
-	    /* ex_get_partial_conn requires us to provde the offset of
-	       the first node of the starting face and the number of
-	       face nodes to retrieve */
-	    status = ex_get_partial_conn(exoid, EX_FACE_BLOCK, faceblock_ids[i],
-					 fnodes_beg+1, nfnodes_cur_sum,
-					 fnodes + nfnodes_sum, NULL, NULL);
+	    /* ex_get_partial_conn checks the range against the number of
+	       faces in the block, so it cannot read all the nodes of
+	       the faces - read all and copy the ones needed */
+	    int *blkfnodes = (int *) malloc(faceblock_nfnodes[i]*sizeof(int));
+	    status = ex_get_conn(exoid, EX_FACE_BLOCK, faceblock_ids[i],
+				 blkfnodes, NULL, NULL);
 	    if (status < 0) {
 	      snprintf(mesg,sizeof(mesg),
 		      "Error reading face block info in Exodus II file %s\n",
@@ -481,6 +482,10 @@ extern "C" {
 	      MSTK_Report(funcname,mesg,MSTK_FATAL);
 	    }
 
+	    memcpy(fnodes + nfnodes_sum, blkfnodes + fnodes_beg,
+		   nfnodes_cur_sum*sizeof(int));
+	    free(blkfnodes);
+
 	    nfnodes_sum += nfnodes_cur_sum;
 	    free(nfnodes_cur);
 	  }
@@ -489,6 +494,7 @@ extern "C" {
       }  /* while (ibeg < nfaces2read) */
 
       free(faceblock_ids);
+      free(faceblock_nfnodes);
     }  /* ndim == 3 */
 
 
@@ -560,14 +566,12 @@ extern "C" {
 	      elnodes = (int *) realloc(elnodes, nelnodes_alloc*sizeof(int));
 	    }
 	    
-	    /* ex_get_partial_conn for NSIDED elements is different
-	       from the call for standard elements - you have to give
-	       it the starting offset (+1) for where the first node of
-	       the first element you want is listed and then tell it
-	       the total number of nodes you want read */
-	    status = ex_get_partial_conn(exoid, EX_ELEM_BLOCK, elblock_ids[b],
-					 elnodes_beg+1, nelnodes_cur_sum,
-					 elnodes + nelnodes_sum, NULL, NULL);
+	    /* ex_get_partial_conn checks the range against the number of
+	       elements in the block, so it cannot read all the nodes of
+	       NSIDED elements - read all and copy the ones needed */
+	    int *blknodes = (int *) malloc(elblock_nelnodes[b]*sizeof(int));
+	    status = ex_get_conn(exoid, EX_ELEM_BLOCK, elblock_ids[b],
+				 blknodes, NULL, NULL);
 
 	    if (status < 0) {
 	      snprintf(mesg,sizeof(mesg),
@@ -576,6 +580,11 @@ extern "C" {
 	      MSTK_Report(funcname,mesg,MSTK_FATAL);
 	    }
 
+	    memcpy(elnodes + nelnodes_sum, blknodes + elnodes_beg,
+		   nelnodes_cur_sum*sizeof(int));
+	    free(blknodes);
+	    free(nelnodes_cur);
+
 	    nelnodes_sum += nelnodes_cur_sum;
 	    
 	  } else if (strncasecmp(elblock_type[b],"TRI",3) == 0 ||
-- 
2.43.0


From f443dad8ad5749159b789e0ba5cb7277947c445f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 053/101] fix: element graph of Exodus II files with several
 polyhedral blocks is wrong

The numbers of faces (edges) of polyhedra (polygons) were stored as if their
block were the first one, so that the graph was built from memory that was
not set. Faces of face blocks lost their first standard element.
---
 src/io/ExodusII_GetElementGraph.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/io/ExodusII_GetElementGraph.c b/src/io/ExodusII_GetElementGraph.c
index 9dafa24..f870277 100644
--- a/src/io/ExodusII_GetElementGraph.c
+++ b/src/io/ExodusII_GetElementGraph.c
@@ -526,7 +526,7 @@ extern "C" {
 	}
 
 	for (j = 0; j < nel_in_blk; j++) {
-	  nelemfaces[j] = nnpe[j];
+	  nelemfaces[max_elem_id+j] = nnpe[j];
 	  elem_faces[max_elem_id+j] = (int *) malloc(nnpe[j]*sizeof(int));
 	}
 
@@ -689,8 +689,12 @@ extern "C" {
 		// update element-to-"face" list
 		elem_faces[max_elem_id][k] = face->id;
 
-		// update "face"-to-element info
-		face->elem[1] = max_elem_id;
+		// update "face"-to-element info; faces of face blocks
+		// may not be connected to any element yet
+		if (face->elem[0] == -1)
+		  face->elem[0] = max_elem_id;
+		else
+		  face->elem[1] = max_elem_id;
 		
 	      }
 	    }
@@ -744,7 +748,7 @@ extern "C" {
 	}
 
 	for (j = 0; j < nel_in_blk; j++) {
-	  nelemfaces[j] = nnpe[j];
+	  nelemfaces[max_elem_id+j] = nnpe[j];
 	  elem_faces[max_elem_id+j] = (int *) malloc(nnpe[j]*sizeof(int));
 	}
 
-- 
2.43.0


From 28a5ef852ade3dab9351c06d4864f094d030f3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:44 +0000
Subject: [PATCH 054/101] fix: parallel Exodus II import takes the dimension of
 space for that of the mesh

---
 src/io/MESH_ImportFromExodusII.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/MESH_ImportFromExodusII.c b/src/io/MESH_ImportFromExodusII.c
index 9454ee7..b09de4e 100644
--- a/src/io/MESH_ImportFromExodusII.c
+++ b/src/io/MESH_ImportFromExodusII.c
@@ -293,7 +293,8 @@ extern "C" {
 	/* Weave the meshes together to establish interprocessor connectivity */
 	int num_ghost_layers = 1;
 	int input_type = 1;
-	MSTK_Weave_DistributedMeshes(mesh, dim, num_ghost_layers, input_type,
+	int topodim = MESH_Num_Regions(mesh) ? 3 : 2; /* dim is of the space */
+	MSTK_Weave_DistributedMeshes(mesh, topodim, num_ghost_layers, input_type,
 				     comm);
 	
       }
-- 
2.43.0


From dd5b7115218faf7c745218acdec10e6c8f321c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:53 +0000
Subject: [PATCH 055/101] fix: edge collapse keeps different faces on different
 processes

---
 src/mod/ME_Collapse.c | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/mod/ME_Collapse.c b/src/mod/ME_Collapse.c
index d5f0277..bcd4288 100644
--- a/src/mod/ME_Collapse.c
+++ b/src/mod/ME_Collapse.c
@@ -534,13 +534,34 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
              REGION IN BETWEEN THE TWO FACES, AN EXTERNAL FACE WILL
              HAVE 0 REGIONS CONNECTED TO IT */
 
-          List_ptr fregs = MF_Regions(face);
-          int face_on_boundary = ((MF_PType(face) != PGHOST) && !fregs) ? 1 : 0;
-          if (fregs) List_Delete(fregs);
+          int face_on_boundary = 0;
+          int fdim = MF_GEntDim(face);
+          if (fdim == 2)
+            face_on_boundary = 1;
+          else if (fdim == 4 && MF_PType(face) != PGHOST) {
+            /* Don't know classification of face - check topology. Do
+               this only if the face is not a ghost, because faces on
+               the outer boundary of a ghost layer can mimic an
+               external face */
+
+            List_ptr fregs = MF_Regions(face);
+            if (fregs)
+              List_Delete(fregs);
+            else
+              face_on_boundary = 1;
+          }
 
-          List_ptr fregs2 = MF_Regions(face2);
-          int face2_on_boundary = ((MF_PType(face2) != PGHOST) && !fregs2) ? 1 : 0;
-          if (fregs2) List_Delete(fregs2);
+          int face2_on_boundary = 0;
+          fdim = MF_GEntDim(face2);
+          if (fdim == 2)
+            face2_on_boundary = 1;
+          else if (fdim == 4 && MF_PType(face2) != PGHOST) {
+            List_ptr fregs2 = MF_Regions(face2);
+            if (fregs2)
+              List_Delete(fregs2);
+            else
+              face2_on_boundary = 1;
+          }
 
           if (face_on_boundary == face2_on_boundary) {
           /* if both faces are boundary faces or both are interior, then we
-- 
2.43.0


From 8959246d2f5eee6faf34bb67419866ceaca7d93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:49 +0000
Subject: [PATCH 056/101] fix: partitioning overruns the graph of surfaces with
 edges of three or more faces

---
 src/par/MESH_PartitionWithMetis.c  | 11 ++++++++++-
 src/par/MESH_PartitionWithZoltan.c | 13 +++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/par/MESH_PartitionWithMetis.c b/src/par/MESH_PartitionWithMetis.c
index 0c87112..3594cce 100644
--- a/src/par/MESH_PartitionWithMetis.c
+++ b/src/par/MESH_PartitionWithMetis.c
@@ -54,8 +54,17 @@ int MESH_PartitionWithMetis(Mesh_ptr mesh, int nparts, int **part) {
       exit(-1);
     }
 
+    /* an edge of a non-manifold surface may have more than two faces */
+    int nadj = 0;
+    MEdge_ptr me;
+    idx = 0;
+    while ((me = MESH_Next_Edge(mesh,&idx))) {
+      nef = ME_Num_Faces(me);
+      nadj += nef*(nef-1);
+    }
+
     xadj = (idx_t *) malloc((nf+1)*sizeof(idx_t));
-    adjncy = (idx_t *) malloc(2*ne*sizeof(idx_t));
+    adjncy = (idx_t *) malloc(nadj*sizeof(idx_t));
     ncells = nf;
 
     /* Surface mesh */
diff --git a/src/par/MESH_PartitionWithZoltan.c b/src/par/MESH_PartitionWithZoltan.c
index 8d2f8e0..fbac673 100644
--- a/src/par/MESH_PartitionWithZoltan.c
+++ b/src/par/MESH_PartitionWithZoltan.c
@@ -262,8 +262,17 @@ int NDIM_4_ZOLTAN = 3;
 
         graph.nodeGID = (ZOLTAN_ID_TYPE *)malloc(sizeof(ZOLTAN_ID_TYPE) * nf);
         graph.nborIndex = (int *)malloc(sizeof(int) * (nf + 1));
-        graph.nborGID = (ZOLTAN_ID_TYPE *)malloc(sizeof(ZOLTAN_ID_TYPE) * 2*ne);
-        graph.nborProc = (int *)malloc(sizeof(int) * 2*ne);
+
+        /* an edge of a non-manifold surface may have more than two faces */
+        int nnbors = 0;
+        MEdge_ptr me;
+        idx = 0;
+        while ((me = MESH_Next_Edge(mesh,&idx))) {
+          nef = ME_Num_Faces(me);
+          nnbors += nef*nef;
+        }
+        graph.nborGID = (ZOLTAN_ID_TYPE *)malloc(sizeof(ZOLTAN_ID_TYPE) * nnbors);
+        graph.nborProc = (int *)malloc(sizeof(int) * nnbors);
       
         graph.nborIndex[0] = 0;
       
-- 
2.43.0


From 2724dfda19ea3e1c8b0339c3db0282a917a962d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:45 +0000
Subject: [PATCH 057/101] fix: partitioning overruns its arrays if cells of the
 mesh were deleted

Cells are numbered by their position in the mesh when it is partitioned,
but local IDs have gaps after cells are deleted
---
 include/MSTK_private.h             |  1 +
 src/par/FixColumnPartitions.c      | 17 ++++++++++-------
 src/par/MESH_Get_Partitioning.c    | 23 +++++++++++++++++++++++
 src/par/MESH_PartitionWithMetis.c  |  7 +++++--
 src/par/MESH_PartitionWithZoltan.c | 17 +++++++++++------
 5 files changed, 50 insertions(+), 15 deletions(-)

diff --git a/include/MSTK_private.h b/include/MSTK_private.h
index 4cc3b9c..56f5cd6 100644
--- a/include/MSTK_private.h
+++ b/include/MSTK_private.h
@@ -328,6 +328,7 @@ typedef enum MDelType {MDELREGION=-40, MDELFACE=-30, MDELEDGE=-20, MDELVERTEX=-1
 
   /* Mesh Partitioning Routines*/
 
+  int       *MESH_CellIndices(Mesh_ptr mesh);
   int        MESH_PartitionWithMetis(Mesh_ptr mesh, int nparts, int **part);
   int        MESH_PartitionWithZoltan(Mesh_ptr mesh, int nparts, int **part, 
                                       int noptions, char **options,
diff --git a/src/par/FixColumnPartitions.c b/src/par/FixColumnPartitions.c
index 9e829a5..c486c4b 100644
--- a/src/par/FixColumnPartitions.c
+++ b/src/par/FixColumnPartitions.c
@@ -12,6 +12,7 @@ https://github.com/MeshToolkit/MSTK/blob/master/LICENSE
 #include <math.h>
 
 #include "MSTK.h"
+#include "MSTK_private.h"
 
 /* Sometimes partitioners will partition vertical (Z) columns of
    elements into two even though we requested only a horizontal
@@ -138,6 +139,7 @@ int FixColumnPartitions(Mesh_ptr mesh, int *part, MSTK_Comm comm) {
   if (MESH_Num_Regions(mesh) == 0) return 1; /* Not implemented for 2D (perhaps not needed either) */
 
   /* ensure every region is touched once */
+  int *index = MESH_CellIndices(mesh);
   touched = calloc(MESH_Num_Regions(mesh),sizeof(int));
   for (idx=0; idx!=MESH_Num_Regions(mesh); ++idx) touched[idx] = 0;
 #ifdef DEBUG
@@ -165,15 +167,15 @@ int FixColumnPartitions(Mesh_ptr mesh, int *part, MSTK_Comm comm) {
     num_cells_in_col = 0;
     done = 0;
     curreg = mr;
-    curid = MR_ID(curreg);
-    homepid = part[curid-1];
+    curid = index[MR_ID(curreg)];
+    homepid = part[curid];
 
     /* continue to loop through the column */
     expected_topf = topf;
     while (!done) {
-      if (touched[curid-1]) 
+      if (touched[curid]) 
         MSTK_Report("FixColumnPartitions","Mesh is not columnar, iteration process touches the same cell twice.",MSTK_FATAL);
-      touched[curid-1] = 1;
+      touched[curid] = 1;
       num_cells_in_col++;
       num_touches++;
       
@@ -187,10 +189,10 @@ int FixColumnPartitions(Mesh_ptr mesh, int *part, MSTK_Comm comm) {
         nxtreg = List_Entry(fregs,0);
         if (nxtreg == curreg) nxtreg = List_Entry(fregs,1);
         
-        nxtid = MR_ID(nxtreg);
-        nxtpid = part[nxtid-1];
+        nxtid = index[MR_ID(nxtreg)];
+        nxtpid = part[nxtid];
         if (nxtpid != homepid) {
-          part[nxtid-1] = homepid;
+          part[nxtid] = homepid;
           nmove++;
         }
 
@@ -230,6 +232,7 @@ int FixColumnPartitions(Mesh_ptr mesh, int *part, MSTK_Comm comm) {
     MSTK_Report("FixColumnPartitions",msg,MSTK_MESG);
   }
   free(touched);
+  free(index);
   
   return 1;
 }
diff --git a/src/par/MESH_Get_Partitioning.c b/src/par/MESH_Get_Partitioning.c
index 446c904..7944d7f 100644
--- a/src/par/MESH_Get_Partitioning.c
+++ b/src/par/MESH_Get_Partitioning.c
@@ -19,6 +19,29 @@ https://github.com/MeshToolkit/MSTK/blob/master/LICENSE
 extern "C" {
 #endif
 
+  /*
+     Position (from 0) of each cell in the mesh, by the ID of the cell. It
+     differs from ID-1 if cells were deleted. The caller must free the array
+  */
+
+int *MESH_CellIndices(Mesh_ptr mesh) {
+  int nr = MESH_Num_Regions(mesh), idx, i, maxid = 0, *index;
+  MEntity_ptr mc;
+
+  idx = 0;
+  while ((mc = nr ? MESH_Next_Region(mesh,&idx) : MESH_Next_Face(mesh,&idx)))
+    if (MEnt_ID(mc) > maxid) maxid = MEnt_ID(mc);
+
+  index = (int *) calloc(maxid+1,sizeof(int));
+
+  idx = 0; i = 0;
+  while ((mc = nr ? MESH_Next_Region(mesh,&idx) : MESH_Next_Face(mesh,&idx)))
+    index[MEnt_ID(mc)] = i++;
+
+  return index;
+}
+
+
   /* 
      This function derives a partitioning of the mesh on processor 0
 
diff --git a/src/par/MESH_PartitionWithMetis.c b/src/par/MESH_PartitionWithMetis.c
index 3594cce..5063d34 100644
--- a/src/par/MESH_PartitionWithMetis.c
+++ b/src/par/MESH_PartitionWithMetis.c
@@ -13,6 +13,7 @@ https://github.com/MeshToolkit/MSTK/blob/master/LICENSE
 #include "metis.h"
 
 #include "MSTK.h"
+#include "MSTK_private.h"
 
 /* Get the partitioning of mesh using Metis - Doesn't actually do 
    anything to the mesh */
@@ -46,6 +47,7 @@ int MESH_PartitionWithMetis(Mesh_ptr mesh, int nparts, int **part) {
   nr = MESH_Num_Regions(mesh);
 
   ipos = 0;
+  int *index = MESH_CellIndices(mesh);
   
   if (nr == 0) {
     
@@ -90,7 +92,7 @@ int MESH_PartitionWithMetis(Mesh_ptr mesh, int nparts, int **part) {
           for (j = 0; j < nef; j++) {
             oppf = List_Entry(efaces,j);
             if (oppf != mf) {
-              adjncy[ipos] = MF_ID(oppf)-1;
+              adjncy[ipos] = index[MF_ID(oppf)];
               ipos++;
             }
           }
@@ -133,7 +135,7 @@ int MESH_PartitionWithMetis(Mesh_ptr mesh, int nparts, int **part) {
 	  if (oppr == mr)
 	    oppr = List_Entry(fregions,1);
 	  
-	  adjncy[ipos] = MR_ID(oppr)-1;
+	  adjncy[ipos] = index[MR_ID(oppr)];
 	  ipos++;
 	}
         List_Delete(fregions);	
@@ -180,6 +182,7 @@ int MESH_PartitionWithMetis(Mesh_ptr mesh, int nparts, int **part) {
 
   free(xadj);
   free(adjncy);
+  free(index);
 
 
   
diff --git a/src/par/MESH_PartitionWithZoltan.c b/src/par/MESH_PartitionWithZoltan.c
index fbac673..baff8f6 100644
--- a/src/par/MESH_PartitionWithZoltan.c
+++ b/src/par/MESH_PartitionWithZoltan.c
@@ -76,6 +76,7 @@ int NDIM_4_ZOLTAN = 3;
   float ver;
   struct Zoltan_Struct *zz;
   GRAPH_DATA graph;
+  int *index = NULL;   /* position of cells in the mesh, by their ID */
   int changes, numGidEntries, numLidEntries, numImport, numExport;
   ZOLTAN_ID_PTR importGlobalGids, importLocalGids, exportGlobalGids, exportLocalGids;
   int *importProcs, *importToPart, *exportProcs, *exportToPart;
@@ -120,6 +121,9 @@ int NDIM_4_ZOLTAN = 3;
     MSTK_Report("MESH_PartitionWithZoltan",mesg,MSTK_MESG);
   }
 
+  if (rank == 0)
+    index = MESH_CellIndices(mesh);
+
   /* General parameters for Zoltan */
   Zoltan_Set_Param(zz, "DEBUG_LEVEL", "0");
   Zoltan_Set_Param(zz, "LB_METHOD", partition_method_str);
@@ -178,7 +182,7 @@ int NDIM_4_ZOLTAN = 3;
               cen[k] += fxyz[j][k];              
           for (k = 0; k < NDIM_4_ZOLTAN; k++) cen[k] /= nfv;
 
-          id = MF_ID(mf);
+          id = index[MF_ID(mf)]+1;
           graph.nodeGID[id-1] = id;
           memcpy(&(graph.nodeCoords[NDIM_4_ZOLTAN*(id-1)]),cen,NDIM_4_ZOLTAN*sizeof(double));
         }
@@ -207,7 +211,7 @@ int NDIM_4_ZOLTAN = 3;
           for (k = 0; k < NDIM_4_ZOLTAN; k++) 
             if (fabs(cen[k]) < 1.0e-10) cen[k] = 0.0; 
 
-          id = MR_ID(mr);
+          id = index[MR_ID(mr)]+1;
           graph.nodeGID[id-1] = id;
           memcpy(&(graph.nodeCoords[NDIM_4_ZOLTAN*(id-1)]),cen,NDIM_4_ZOLTAN*sizeof(double));
         }
@@ -279,7 +283,7 @@ int NDIM_4_ZOLTAN = 3;
         /* Surface mesh */
         idx = 0; i = 0;
         while ((mf = MESH_Next_Face(mesh,&idx))) {
-          graph.nodeGID[i] = MF_ID(mf);
+          graph.nodeGID[i] = index[MF_ID(mf)]+1;
           fedges = MF_Edges(mf,1,0);
           nfe = List_Num_Entries(fedges);
 	
@@ -296,7 +300,7 @@ int NDIM_4_ZOLTAN = 3;
               for (j = 0; j < nef; j++) {
                 oppf = List_Entry(efaces,j);
                 if (oppf == mf) {
-                  graph.nborGID[ipos] = MF_ID(oppf);
+                  graph.nborGID[ipos] = index[MF_ID(oppf)]+1;
                   /* initially set all nodes on processor 0 */
                   graph.nborProc[ipos] = 0;
                   ipos++;
@@ -327,7 +331,7 @@ int NDIM_4_ZOLTAN = 3;
       
         idx = 0; i = 0;
         while ((mr = MESH_Next_Region(mesh,&idx))) {
-          graph.nodeGID[i] = MR_ID(mr);
+          graph.nodeGID[i] = index[MR_ID(mr)]+1;
           rfaces = MR_Faces(mr);
           nrf = List_Num_Entries(rfaces);
       
@@ -342,7 +346,7 @@ int NDIM_4_ZOLTAN = 3;
               if (oppr == mr)
                 oppr = List_Entry(fregions,1);
 	    
-              graph.nborGID[ipos] = MR_ID(oppr);
+              graph.nborGID[ipos] = index[MR_ID(oppr)]+1;
               /* initially set all nodes on processor 0 */
               graph.nborProc[ipos] = 0;
               ipos++;
@@ -411,6 +415,7 @@ int NDIM_4_ZOLTAN = 3;
     for ( i = 0; i < numExport; i++ ) {
       (*part)[exportGlobalGids[i]-1] = exportToPart[i];
     }
+    free(index);
     if (graph.nodeGID) free(graph.nodeGID);
     if (graph.nodeCoords) free(graph.nodeCoords);
     if (graph.nborIndex) free(graph.nborIndex);
-- 
2.43.0


From 3d03bad241095564333b58377d3dd6e3d685fd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 058/101] fix: ghost layers overrun arrays if entities of a
 part were deleted

The arrays are indexed by local ID, which exceeds the number of entities
after entities are deleted
---
 src/par/MESH_BuildSubMesh.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/par/MESH_BuildSubMesh.c b/src/par/MESH_BuildSubMesh.c
index d58ee70..54fed33 100644
--- a/src/par/MESH_BuildSubMesh.c
+++ b/src/par/MESH_BuildSubMesh.c
@@ -45,6 +45,21 @@ int MESH_BuildSubMesh_Region(Mesh_ptr mesh, Mesh_ptr submesh);
 }
 
 
+  /* Highest local ID of the entities of one type - it is more than their
+     number if entities were deleted */
+static int max_local_id(Mesh_ptr mesh, MType mtype) {
+  int idx = 0, maxid = 0;
+  MEntity_ptr ment;
+
+  while ((ment = (mtype == MVERTEX) ? MESH_Next_Vertex(mesh,&idx) :
+          (mtype == MEDGE) ? MESH_Next_Edge(mesh,&idx) :
+          MESH_Next_Face(mesh,&idx)))
+    if (MEnt_ID(ment) > maxid) maxid = MEnt_ID(ment);
+
+  return maxid;
+}
+
+
   /* 
      Send 1-ring Faces to neighbor processors, and receive them 
      First update the parallel adjancy information, 
@@ -59,9 +74,8 @@ int MESH_BuildSubMesh_Face(Mesh_ptr mesh, Mesh_ptr submesh) {
   int idx, *fedirs;
   double coor[3];
   int *MV_to_list_id, *ME_to_list_id;
-  int nv = MESH_Num_Vertices(mesh);
-  int ne = MESH_Num_Edges(mesh);
-  int nf = MESH_Num_Faces(mesh);
+  int nv = max_local_id(mesh,MVERTEX);
+  int ne = max_local_id(mesh,MEDGE);
 
 #ifdef MSTK_USE_MARKERS
   int mkvid = MSTK_GetMarker();
@@ -211,9 +225,9 @@ int MESH_BuildSubMesh_Region(Mesh_ptr mesh, Mesh_ptr submesh) {
   int idx, *fedirs, *rfdirs;
   int *MV_to_list_id, *ME_to_list_id, *MF_to_list_id;
   double coor[3];
-  int nv = MESH_Num_Vertices(mesh);
-  int ne = MESH_Num_Edges(mesh);
-  int nf = MESH_Num_Faces(mesh);
+  int nv = max_local_id(mesh,MVERTEX);
+  int ne = max_local_id(mesh,MEDGE);
+  int nf = max_local_id(mesh,MFACE);
 
 #ifdef MSTK_USE_MARKERS
   int mkvid = MSTK_GetMarker();
-- 
2.43.0


From a942f22d9244ae4751138adc85d5b8abf2402db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:23 +0000
Subject: [PATCH 059/101] fix: DX export overruns arrays and writes wrong
 vertices after deletions

Local IDs have gaps after entities are deleted
---
 src/io/MESH_ExportToDXBin.c | 65 +++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 25 deletions(-)

diff --git a/src/io/MESH_ExportToDXBin.c b/src/io/MESH_ExportToDXBin.c
index 81a9df0..37edb0a 100644
--- a/src/io/MESH_ExportToDXBin.c
+++ b/src/io/MESH_ExportToDXBin.c
@@ -16,7 +16,7 @@ int MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
   int nvf, nrf, objnum, fed0, fed1, fed2, rfd0, flip;
   int nbtris=0, nbquads=0, ngenf=0, ntets=0, npyrs=0, nprisms=0, nhexes=0;
   int *idbtri=0, *idbquad=0, *idbtet=0, *idbprm=0, *idbpyr=0, *idbhex=0;
-  int *edgarr, *loopstartarr, *facearr, *polcenidx;
+  int *edgarr, *loopstartarr, *facearr, *polcenidx, *vpos, maxid;
   int nfaces, nedges=0, index, maxvf, maxtri=0;
   int genpoly2, id, nfv;
   FILE *fout, *fdat;
@@ -57,12 +57,22 @@ int MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 
   /* Write out vertex coordinates */
   
+  /* Positions of vertices in the file by their local IDs, which have
+     gaps if vertices were deleted */
+
+  maxid = 0;
+  index = 0;
+  while ((vertex = MESH_Next_Vertex(mesh,&index)))
+    if (MV_ID(vertex) > maxid) maxid = MV_ID(vertex);
+  vpos = (int *) malloc((maxid+1)*sizeof(int));
+
   index = 0;
   np = 0;
   while( (vertex = MESH_Next_Vertex(mesh,&index)) ){
     MV_Coords(vertex,xyz);
     for (i = 0; i < 3; i++) flxyz[i] = (float) xyz[i];
     fwrite((void *)flxyz,sizeof(float),3,fdat);
+    vpos[MV_ID(vertex)] = np;
     np++;
   }
 
@@ -79,8 +89,12 @@ int MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
   /* We are still not checking for the center point being inside the
      polygon which may be non-convex */
   
-  polcenidx = (int *) malloc((nfaces+1)*sizeof(int));
-  polcen2 = (double (*)[3]) malloc((nfaces+1)*sizeof(double [3]));
+  maxid = 0;
+  index = 0;
+  while ((face = MESH_Next_Face(mesh,&index)))
+    if (MF_ID(face) > maxid) maxid = MF_ID(face);
+  polcenidx = (int *) malloc((maxid+1)*sizeof(int));
+  polcen2 = (double (*)[3]) malloc((maxid+1)*sizeof(double [3]));
   
   index = 0; bgf = 0; maxvf = 0;
   while ((face = MESH_Next_Face(mesh,&index))) {
@@ -135,7 +149,7 @@ int MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 	  dattri = (float *) realloc(dattri,maxtri*sizeof(float));
 	}
 	for (k = 0; k < nvf; k++)
-	  idbtri[bt++] = MV_ID(List_Entry(verts,k))-1;	
+	  idbtri[bt++] = vpos[MV_ID(List_Entry(verts,k))];	
 	dattri[nbtris-1] = MF_GEntID(face);
       }
       /* We have to disallow direct writing of quads since 
@@ -149,9 +163,9 @@ int MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 	}
 	nbquads++;
 	for (k = 0; k < 2; k++)
-	  idbquad[bq++] = MV_ID(List_Entry(verts,k))-1;
-	idbquad[bq++] = MV_ID(List_Entry(verts,3))-1;
-	idbquad[bq++] = MV_ID(List_Entry(verts,2))-1;	
+	  idbquad[bq++] = vpos[MV_ID(List_Entry(verts,k))];
+	idbquad[bq++] = vpos[MV_ID(List_Entry(verts,3))];
+	idbquad[bq++] = vpos[MV_ID(List_Entry(verts,2))];	
 	datquad[nbquads-1] = MF_GEntID(face);
       }
       */
@@ -169,8 +183,8 @@ int MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 	    idbtri = (int *) realloc(idbtri,3*maxtri*sizeof(int));
 	    dattri = (float *) realloc(dattri,maxtri*sizeof(float));
 	  }
-	  idbtri[bt++] = MV_ID(List_Entry(verts,k))-1;
-	  idbtri[bt++] = MV_ID(List_Entry(verts,(k+1)%nvf))-1;
+	  idbtri[bt++] = vpos[MV_ID(List_Entry(verts,k))];
+	  idbtri[bt++] = vpos[MV_ID(List_Entry(verts,(k+1)%nvf))];
 	  idbtri[bt++] = polcenidx[MF_ID(face)];
 	  dattri[nbtris-1] = MF_GEntID(face);
 	}
@@ -220,7 +234,7 @@ int MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 	nvf = List_Num_Entries(verts);
 
 	for (i = 0; i < nvf; i++)
-	  edgarr[bgf++] = MV_ID(List_Entry(verts,i))-1;
+	  edgarr[bgf++] = vpos[MV_ID(List_Entry(verts,i))];
 
 	List_Delete(verts);
       }
@@ -258,7 +272,7 @@ int MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 	verts = MR_Vertices(reg);
         for (k = 0; k < 4; k++) {
 	  k1 = rvtmpl[0][k];
-	  idbtet[bt++] = MV_ID(List_Entry(verts,k))-1;
+	  idbtet[bt++] = vpos[MV_ID(List_Entry(verts,k))];
 	}
 	List_Delete(verts);
 	ntets++;
@@ -344,14 +358,14 @@ int MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 	  }
 	  List_Delete(verts);
 	    
-	  idbprm[bpr]   = MV_ID(lvert[0])-1; 
-	  idbprm[bpr+1] = MV_ID(lvert[1])-1;
-	  idbprm[bpr+2] = MV_ID(lvert[2])-1; 
-	  idbprm[bpr+3] = MV_ID(lvert[2])-1;
-	  idbprm[bpr+4] = MV_ID(lvert[3])-1; 
-	  idbprm[bpr+5] = MV_ID(lvert[4])-1;
-	  idbprm[bpr+6] = MV_ID(lvert[5])-1; 
-	  idbprm[bpr+7] = MV_ID(lvert[5])-1;
+	  idbprm[bpr]   = vpos[MV_ID(lvert[0])]; 
+	  idbprm[bpr+1] = vpos[MV_ID(lvert[1])];
+	  idbprm[bpr+2] = vpos[MV_ID(lvert[2])]; 
+	  idbprm[bpr+3] = vpos[MV_ID(lvert[2])];
+	  idbprm[bpr+4] = vpos[MV_ID(lvert[3])]; 
+	  idbprm[bpr+5] = vpos[MV_ID(lvert[4])];
+	  idbprm[bpr+6] = vpos[MV_ID(lvert[5])]; 
+	  idbprm[bpr+7] = vpos[MV_ID(lvert[5])];
 	  bpr += 8;
 	  nprisms++;
 
@@ -384,12 +398,12 @@ int MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 	    }
 	  }
 	  List_Delete(fedges);
-	  idbpyr[bpy]   = MV_ID(lvert[0])-1; 
-	  idbpyr[bpy+1] = MV_ID(lvert[1])-1;
-	  idbpyr[bpy+2] = MV_ID(lvert[3])-1; 
-	  idbpyr[bpy+3] = MV_ID(lvert[2])-1;
+	  idbpyr[bpy]   = vpos[MV_ID(lvert[0])]; 
+	  idbpyr[bpy+1] = vpos[MV_ID(lvert[1])];
+	  idbpyr[bpy+2] = vpos[MV_ID(lvert[3])]; 
+	  idbpyr[bpy+3] = vpos[MV_ID(lvert[2])];
 	  idbpyr[bpy+4] = idbpyr[bpy+5] = idbpyr[bpy+6] = idbpyr[bpy+7] = 
-	    MV_ID(lvert[4])-1;
+	    vpos[MV_ID(lvert[4])];
 	  bpy += 8;
 	  npyrs++;
 
@@ -407,7 +421,7 @@ int MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 	verts = MR_Vertices(reg);
         for (k = 0; k < 8; k++) {
 	  k1 = rvtmpl[3][k];
-	  idbhex[bh++] = MV_ID(List_Entry(verts,k1))-1;
+	  idbhex[bh++] = vpos[MV_ID(List_Entry(verts,k1))];
 	}
 	List_Delete(verts);
 	nhexes++;
@@ -445,6 +459,7 @@ int MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
   if (fclose(fdat) != 0) ok = 0;
     
   free(idbtet);
+  free(vpos);
 
   /* Now write into the .dx file */
   fout = fopen(fname,"w");
-- 
2.43.0


From 99e044541f38a3a941f601cce05078deaf91dcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 060/101] fix: STL export writes endloop, endfacet and the next
 facet as one word

---
 src/io/MESH_ExportToSTL.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/MESH_ExportToSTL.c b/src/io/MESH_ExportToSTL.c
index 9cba8a5..98c774d 100644
--- a/src/io/MESH_ExportToSTL.c
+++ b/src/io/MESH_ExportToSTL.c
@@ -84,11 +84,11 @@ int MESH_ExportToSTL(Mesh_ptr mesh, const char *filename) {
     fprintf(fp,"  outer loop\n");
     for (j = 0; j < 3; j++) 
       fprintf(fp,"    vertex %20.10lf %20.10lf %20.10lf\n",fxyz[j][0],fxyz[j][1],fxyz[j][2]);
-    fprintf(fp,"endloop");
-    fprintf(fp,"endfacet");
+    fprintf(fp,"  endloop\n");
+    fprintf(fp,"endfacet\n");
   }
 
-  fprintf(fp,"endsolid");
+  fprintf(fp,"endsolid\n");
 
   int ok = !ferror(fp);
   if (fclose(fp) != 0) ok = 0;
-- 
2.43.0


From 5ebedf40563a2aad5849da1d45fd6434876d3e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 061/101] fix: OFF export counts vertices from 1 and by IDs
 that may have gaps

---
 src/io/MESH_ExportToOFF.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/io/MESH_ExportToOFF.c b/src/io/MESH_ExportToOFF.c
index 20b7c34..3151d1f 100644
--- a/src/io/MESH_ExportToOFF.c
+++ b/src/io/MESH_ExportToOFF.c
@@ -44,10 +44,19 @@ int MESH_ExportToOFF(Mesh_ptr mesh, const char *filename) {
 
   /* Write vertex info */
   
-  int idx = 0;
+  /* Positions of vertices in the file (counted from 0) by their local
+     IDs, which have gaps if vertices were deleted */
+
+  int idx = 0, maxid = 0, nv = 0;
   MVertex_ptr mv;
+  while ((mv = MESH_Next_Vertex(mesh, &idx)))
+    if (MV_ID(mv) > maxid) maxid = MV_ID(mv);
+  int *vpos = (int *) malloc((maxid+1)*sizeof(int));
+
+  idx = 0;
   while ((mv = MESH_Next_Vertex(mesh, &idx))) {
     double xyz[3];
+    vpos[MV_ID(mv)] = nv++;
     MV_Coords(mv, xyz);
     fprintf(fp,"%20.12lf %20.12lf %20.12lf\n",xyz[0],xyz[1],xyz[2]);
   }
@@ -60,10 +69,11 @@ int MESH_ExportToOFF(Mesh_ptr mesh, const char *filename) {
     List_ptr fverts = MF_Vertices(mf,1,0);
     fprintf(fp,"%d ",List_Num_Entries(fverts));
     for (int i = 0; i < List_Num_Entries(fverts); i++)
-      fprintf(fp," %d",MV_ID(List_Entry(fverts,i)));
+      fprintf(fp," %d",vpos[MV_ID(List_Entry(fverts,i))]);
     fprintf(fp,"\n");
     List_Delete(fverts);
   }
+  free(vpos);
 
   int ok = !ferror(fp);
   if (fclose(fp) != 0) ok = 0;
-- 
2.43.0


From 5378721b3ca106e04740c3dc81ae1e24ecf90f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 062/101] fix: GMV export lacks geometric IDs of faces, adds an
 internal attribute, ignores natt < 0

---
 src/io/MESH_ExportToGMV.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/MESH_ExportToGMV.c b/src/io/MESH_ExportToGMV.c
index 01fbd66..278a503 100644
--- a/src/io/MESH_ExportToGMV.c
+++ b/src/io/MESH_ExportToGMV.c
@@ -937,6 +937,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
     }
 
     if (ncells2) {
+      idx = 0;
       while ((face = List_Next_Entry(flist,&idx))) {
         int fmarked;
 #ifdef MSTK_USE_MARKERS
@@ -997,7 +998,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
   /* Must write out other attributes that exist on mesh entities */ 
   /* If natt is 0, all attributes are to be written out */
   
-  if (nmeshatt) {
+  if (natt >= 0 && nmeshatt) {
 
     /* Collect the attributes */
     
@@ -1031,6 +1032,9 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
               continue;
 	  }
           else {
+#ifndef MSTK_USE_MARKERS
+            if (attrib == cellmkatt) continue;  /* created above */
+#endif
             if (strncmp(attname+1,"idatt",5) == 0) {
               /* this is a special MSTK attribute created for writing out
                  contiguous entity IDs - ignore it */
-- 
2.43.0


From 36489d938d706f8c7dfea72040d587b32cf1e311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 063/101] fix: X3D header counts cell fields that are not
 written

---
 src/io/MESH_ExportToFLAGX3D.c | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/io/MESH_ExportToFLAGX3D.c b/src/io/MESH_ExportToFLAGX3D.c
index 6608a01..114d791 100644
--- a/src/io/MESH_ExportToFLAGX3D.c
+++ b/src/io/MESH_ExportToFLAGX3D.c
@@ -508,12 +508,15 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
       if (atttype != INT && atttype != DOUBLE && atttype != VECTOR && atttype != TENSOR)
         continue;
 
+      /* Names ending in _tmp are not written out */
+      MAttrib_Get_Name(attrib,attname);
+      if (strlen(attname) >= 4 && strcmp("_tmp",attname+strlen(attname)-4) == 0)
+        continue;
+
       /* If natt == 0, all qualifying attributes are to be written out */
       /* If natt > 0, only specified ones are to be exported */
       
       if (natt > 0) {
-        MAttrib_Get_Name(attrib,attname);
-	
         found = 0; j = 0;
         while (!found && j < natt) {
           if (strcmp(attname,attnames[j]) == 0)
@@ -536,15 +539,20 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
         }
       }
       
+      int oncells = 0;
       if (nr) {
-        if ((attentdim == MREGION) || (attentdim == MALLTYPE)) {
-          cellatts[ncellatt++] = attrib;
-        }
+        if ((attentdim == MREGION) || (attentdim == MALLTYPE))
+          oncells = 1;
       }
       else if (nf) {
-        if ((attentdim == MFACE) || (attentdim == MALLTYPE)) {
+        if ((attentdim == MFACE) || (attentdim == MALLTYPE))
+          oncells = 1;
+      }
+      if (oncells) {
+        if (atttype == VECTOR || atttype == TENSOR)
+          MSTK_Report("MESH_ExportToFLAGX3D", "Export of cell vectors and tensors to X3D file not implemented", MSTK_WARN);
+        else
           cellatts[ncellatt++] = attrib;
-        }
       }
     }
   }
@@ -1179,14 +1187,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
   for (i = 0; i < ncellatt; i++) {
     attrib = cellatts[i];
     atttype = MAttrib_Get_Type(attrib);
-    if (atttype == VECTOR || atttype == TENSOR) {
-      MSTK_Report("MESH_ExportToFLAGX3D", "Export of cell vectors and tensors to X3D file not implemented", MSTK_WARN);
-      continue;
-    }
-
     MAttrib_Get_Name(attrib,attname);
-    if (strlen(attname) >= 4 && strcmp("_tmp",attname+strlen(attname)-4) == 0)
-      continue;
 
     fprintf(fp,"%s\n",attname);
     
@@ -1240,8 +1241,6 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     int ncomps = MAttrib_Get_NumComps(attrib);
 
     MAttrib_Get_Name(attrib,attname);
-    if (strlen(attname) >= 4 && strcmp("_tmp",attname+strlen(attname)-4) == 0)
-      continue;
 
     fprintf(fp,"%s\n",attname);
     
-- 
2.43.0


From 9116fae9d08b92b5c65df8358d58633bd1f13c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 064/101] fix: X3D material names are not those the cells refer
 to

---
 src/io/MESH_ExportToFLAGX3D.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/io/MESH_ExportToFLAGX3D.c b/src/io/MESH_ExportToFLAGX3D.c
index 114d791..cd776d8 100644
--- a/src/io/MESH_ExportToFLAGX3D.c
+++ b/src/io/MESH_ExportToFLAGX3D.c
@@ -168,6 +168,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     idx = 0;
     while ((region = MESH_Next_Region(mesh,&idx))) {
       gentid = MR_GEntID(region);
+      if (!gentid) gentid = 1;  /* as in the matid block */
       
       found = 0;
       for (i = 0; i < ngent; i++)
@@ -189,6 +190,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     idx = 0;
     while ((face = MESH_Next_Face(mesh,&idx))) {
       gentid = MF_GEntID(face);
+      if (!gentid) gentid = 1;  /* as in the matid block */
       
       found = 0;
       for (i = 0; i < ngent; i++)
@@ -582,7 +584,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
      * why the names must be integers even though the data header
      * block identifies them as character strings" */
 
-    sprintf(matname,"%-d",i+1);
+    sprintf(matname,"%-d",gentities[i]);
     fprintf(fp,"   %10d   %s\n",i+1,matname);
   }
   fprintf(fp,"end_matnames\n");
@@ -1293,21 +1295,21 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     if (nr) {
       idx = 0;
       while ((region = MESH_Next_Region(mesh, &idx))) {
-        if (MR_PType(region) != PGHOST && MR_GEntID(region) == gentities[g])
+        if (MR_PType(region) != PGHOST && (MR_GEntID(region) ? MR_GEntID(region) : 1) == gentities[g])
           fprintf(fp, "% 10d\n", MR_ID(region));
       }
       fprintf(fp,"\n");
 
       idx = 0;
       while ((region = MESH_Next_Region(mesh, &idx))) {
-        if (MR_PType(region) != PGHOST && MR_GEntID(region) == gentities[g])
+        if (MR_PType(region) != PGHOST && (MR_GEntID(region) ? MR_GEntID(region) : 1) == gentities[g])
           fprintf(fp, "% 20.18e\n", 1.0);
       }
       
     } else {
       idx = 0;
       while ((face = MESH_Next_Face(mesh, &idx))) {
-        if (MF_PType(face) != PGHOST && MF_GEntID(face) == gentities[g])
+        if (MF_PType(face) != PGHOST && (MF_GEntID(face) ? MF_GEntID(face) : 1) == gentities[g])
           fprintf(fp, "% 10d\n", MF_ID(face));
       }
       fprintf(fp,"\n");
@@ -1315,7 +1317,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
 
       idx = 0;
       while ((face = MESH_Next_Face(mesh, &idx))) {
-        if (MF_PType(face) != PGHOST && MF_GEntID(face) == gentities[g])
+        if (MF_PType(face) != PGHOST && (MF_GEntID(face) ? MF_GEntID(face) : 1) == gentities[g])
           fprintf(fp, "% 20.18e\n", 1.0);
       }
       
-- 
2.43.0


From 4d151a54ada77d611ee37b3241993759935b5bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 065/101] fix: X3D lists of cells and nodes use IDs that may
 not be those in the file

---
 src/io/MESH_ExportToFLAGX3D.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/io/MESH_ExportToFLAGX3D.c b/src/io/MESH_ExportToFLAGX3D.c
index cd776d8..229f920 100644
--- a/src/io/MESH_ExportToFLAGX3D.c
+++ b/src/io/MESH_ExportToFLAGX3D.c
@@ -1277,7 +1277,8 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
 
 
   /* Write out elements of each material (derived from each element
-   * block) as a .reg file */
+   * block) as a .reg file. Cells and nodes are referred to by their
+   * IDs in the X3D file - local IDs may have gaps */
 
   int g;
   for (g = 0; g < ngent; ++g) {
@@ -1295,8 +1296,10 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     if (nr) {
       idx = 0;
       while ((region = MESH_Next_Region(mesh, &idx))) {
-        if (MR_PType(region) != PGHOST && (MR_GEntID(region) ? MR_GEntID(region) : 1) == gentities[g])
-          fprintf(fp, "% 10d\n", MR_ID(region));
+        if (MR_PType(region) != PGHOST && (MR_GEntID(region) ? MR_GEntID(region) : 1) == gentities[g]) {
+          MEnt_Get_AttVal(region,ridatt_tmp,&rid,&rval,&pval);
+          fprintf(fp, "% 10d\n", rid);
+        }
       }
       fprintf(fp,"\n");
 
@@ -1309,8 +1312,10 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     } else {
       idx = 0;
       while ((face = MESH_Next_Face(mesh, &idx))) {
-        if (MF_PType(face) != PGHOST && (MF_GEntID(face) ? MF_GEntID(face) : 1) == gentities[g])
-          fprintf(fp, "% 10d\n", MF_ID(face));
+        if (MF_PType(face) != PGHOST && (MF_GEntID(face) ? MF_GEntID(face) : 1) == gentities[g]) {
+          MEnt_Get_AttVal(face,fidatt_tmp,&fid,&rval,&pval);
+          fprintf(fp, "% 10d\n", fid);
+        }
       }
       fprintf(fp,"\n");
       
@@ -1358,8 +1363,11 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     int idx2 = 0;
     MEntity_ptr ment;
     while ((ment = MSet_Next_Entry(mset, &idx2)))
-      if (MEnt_PType(ment) != PGHOST)
-        fprintf(fp, "% 10d\n", MEnt_ID(ment));
+      if (MEnt_PType(ment) != PGHOST) {
+        int cid;
+        MEnt_Get_AttVal(ment,nr ? ridatt_tmp : fidatt_tmp,&cid,&rval,&pval);
+        fprintf(fp, "% 10d\n", cid);
+      }
     fprintf(fp,"\n");
     idx2 = 0;
     while ((ment = MSet_Next_Entry(mset, &idx2)))
@@ -1400,8 +1408,10 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     int idx2 = 0;
     MEntity_ptr ment;
     while ((ment = MSet_Next_Entry(mset, &idx2)))
-      if (MEnt_PType(ment) != PGHOST || MEnt_OnParBoundary(ment))
-        fprintf(fp, "% 10d\n", MEnt_ID(ment));
+      if (MEnt_PType(ment) != PGHOST || MEnt_OnParBoundary(ment)) {
+        MEnt_Get_AttVal(ment,vidatt_tmp,&vid,&rval,&pval);
+        fprintf(fp, "% 10d\n", vid);
+      }
 
     if (!close_file(fp)) ok = 0;
   }
-- 
2.43.0


From c34b6652a7f25c97d495bb9be7f7f5c8ae8f5fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 066/101] fix: deleting ghosts leaves the mesh's entity lists
 marked as sorted

---
 src/base/Mesh.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index 2280cd6..d060ae7 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -2163,6 +2163,7 @@ void MESH_Rem_GhostVertex(Mesh_ptr mesh, MVertex_ptr v) {
     MSTK_Report("MESH_Rem_GhostVertex","Vertex not found in ghost vertex list",MSTK_FATAL);
 
   MESH_Mark_ParallelAdj_Stale(mesh);
+  MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
      
 void MESH_Rem_GhostEdge(Mesh_ptr mesh, MEdge_ptr e) {
@@ -2200,6 +2201,7 @@ void MESH_Rem_GhostEdge(Mesh_ptr mesh, MEdge_ptr e) {
     MSTK_Report("MESH_Rem_GhostEdge","Edge not found in ghost edge list",MSTK_FATAL);
 
   MESH_Mark_ParallelAdj_Stale(mesh);
+  MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
      
 void MESH_Rem_GhostFace(Mesh_ptr mesh, MFace_ptr f){
@@ -2237,6 +2239,7 @@ void MESH_Rem_GhostFace(Mesh_ptr mesh, MFace_ptr f){
     MSTK_Report("MESH_Rem_GhostFace","Face not found in ghost list",MSTK_FATAL);
 
   MESH_Mark_ParallelAdj_Stale(mesh);
+  MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
      
 void MESH_Rem_GhostRegion(Mesh_ptr mesh, MRegion_ptr r){
@@ -2273,6 +2276,7 @@ void MESH_Rem_GhostRegion(Mesh_ptr mesh, MRegion_ptr r){
     MSTK_Report("MESH_Rem_GhostRegion","Region not found in ghost region list",MSTK_FATAL);
 
   MESH_Mark_ParallelAdj_Stale(mesh);
+  MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
 
 
-- 
2.43.0


From fd5d1e8ee37eef3cc888db10447be749922fb64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 067/101] fix: deleting a face of an F4 mesh leaves it in the
 lists of its edges

---
 src/base/MFace_F4.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/base/MFace_F4.c b/src/base/MFace_F4.c
index 64a0b48..beb9bfe 100644
--- a/src/base/MFace_F4.c
+++ b/src/base/MFace_F4.c
@@ -28,9 +28,24 @@ extern "C" {
 
   void MF_Delete_F4(MFace_ptr f, int keep) {
     MFace_Adj_F2F4 *adj;
+    MEdge_ptr e;
+    int i, ne;
+
+    adj = (MFace_Adj_F2F4 *) f->adj;
+
+    if (MEnt_Dim((MEntity_ptr) f) != MDELETED) { /* if face hasnt been temporarily deleted */
+      if (adj) {
+	if (adj->fedges) {
+	  ne = List_Num_Entries(adj->fedges);
+	  for (i = 0; i < ne; i++) {
+	    e = List_Entry(adj->fedges,i);
+	    ME_Rem_Face(e,f);
+	  }
+	}
+      }
+    }
 
     if (!keep) {
-      adj = (MFace_Adj_F2F4 *) f->adj;
       if (adj) {
 	if (adj->fedges)
 	  List_Delete(adj->fedges);
@@ -40,7 +55,19 @@ extern "C" {
   }
 
   void MF_Restore_F4(MFace_ptr f) {
+    MFace_Adj_F2F4 *adj;
+    MEdge_ptr e;
+    int i, ne;
+
     MEnt_Set_Dim((MEntity_ptr) f,MFACE);
+
+    adj = (MFace_Adj_F2F4 *) f->adj;
+
+    ne = List_Num_Entries(adj->fedges);
+    for (i = 0; i < ne; i++) {
+      e = List_Entry(adj->fedges,i);
+      ME_Add_Face(e,f);
+    }
   }
 
   void MF_Destroy_For_MESH_Delete_F4(MFace_ptr f) {
-- 
2.43.0


From 5f14214724915766e6c484072784f19aec6d6748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:17 +0000
Subject: [PATCH 068/101] fix: F4 regions tell their edges that they use them

In the F4 representation edges know the regions they are in, but
MR_Set_Faces never told them: in 3D, MF_Regions, ME_Regions and MV_Regions
were always empty, and faces could not tell which side a region is on.
---
 src/base/MR_Face_Funcs_FNR3R4.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/base/MR_Face_Funcs_FNR3R4.c b/src/base/MR_Face_Funcs_FNR3R4.c
index 1883caa..6605fb3 100644
--- a/src/base/MR_Face_Funcs_FNR3R4.c
+++ b/src/base/MR_Face_Funcs_FNR3R4.c
@@ -96,6 +96,15 @@ extern "C" {
 
       if (MEnt_RepType((MEntity_ptr) r) != F4) 
 	MF_Add_Region(rfaces[i],r,!dirs[i]);
+      else {
+        /* In this representation, edges know the regions they are in */
+        MEdge_ptr fe;
+        int idx = 0;
+        List_ptr fedges = MF_Edges(rfaces[i],1,0);
+        while ((fe = List_Next_Entry(fedges,&idx)))
+          ME_Add_Region(fe,r);
+        List_Delete(fedges);
+      }
     }
 
     MR_Update_ElementType_FNR3R4(r);
-- 
2.43.0


From 7e91e1d52ffb3533073c7e527e47759218ee1a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:17 +0000
Subject: [PATCH 069/101] fix: order of a pyramid's nodes in GMV files

In GMV files the apex of a pyramid comes first. The exporter wrote it last,
the importer read it first but mixed up the base: exporting and importing
a pyramid gave a self-intersecting cell.
---
 src/io/MESH_ExportToGMV.c   | 2 +-
 src/io/MESH_ImportFromGMV.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/MESH_ExportToGMV.c b/src/io/MESH_ExportToGMV.c
index 278a503..4bd0725 100644
--- a/src/io/MESH_ExportToGMV.c
+++ b/src/io/MESH_ExportToGMV.c
@@ -77,7 +77,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
   time_t                ctime;
 
   int			rtmpl[5][8] =   {{0,2,1,3,-1,-1,-1,-1},
-					 {0,3,2,1,4,-1,-1,-1},
+					 {4,0,1,2,3,-1,-1,-1},
 					 {3,4,5,0,1,2,-1,-1},
 					 {-1,-1,-1,-1,-1,-1,-1,-1},
 					 {4,5,6,7,0,1,2,3}};
diff --git a/src/io/MESH_ImportFromGMV.c b/src/io/MESH_ImportFromGMV.c
index 8419e30..cd822a0 100644
--- a/src/io/MESH_ImportFromGMV.c
+++ b/src/io/MESH_ImportFromGMV.c
@@ -37,7 +37,7 @@ extern "C" {
   int distributed=0;
 
   int rtmpl[5][8] = {{0,2,1,3,-1,-1,-1,-1},
-		     {1,2,3,4,0,-1,-1,-1},
+		     {4,0,1,2,3,-1,-1,-1},
 		     {3,4,5,0,1,2,-1,-1},
 		     {-1,-1,-1,-1,-1,-1,-1,-1},  /* dummy 7 node element */
 		     {4,5,6,7,0,1,2,3}};
-- 
2.43.0


From fc2951cb4a70da00eae765f25ef2da8a6dea2c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:17 +0000
Subject: [PATCH 070/101] fix: GMV import tells a vface's number from its
 cell's

The fifth number of a vface is the number of its cell. It was compared with
the number of the opposite vface to see which of the two comes first, so
that faces were made twice or not at all.
---
 src/io/MESH_ImportFromGMV.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/MESH_ImportFromGMV.c b/src/io/MESH_ImportFromGMV.c
index cd822a0..b7504ab 100644
--- a/src/io/MESH_ImportFromGMV.c
+++ b/src/io/MESH_ImportFromGMV.c
@@ -584,7 +584,7 @@ extern "C" {
 	}
 
 	if (vface2d) {
-	  if (opp_fid && opp_fid < fid) {
+	  if (opp_fid && opp_fid < j+1) {
 
 	    /* Edge must have already been defined for adjacent face */
 
@@ -609,7 +609,7 @@ extern "C" {
 	  }
 	}
 	else {
-	  if (opp_fid && opp_fid < fid) {
+	  if (opp_fid && opp_fid < j+1) {
 
 	    /* Face must have already been defined for adjacent region */
 
-- 
2.43.0


From cc9c047e71f64e76c52a50cbf86f6828e8720600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:17 +0000
Subject: [PATCH 071/101] fix: GMV import of a file cut short ends

Without 'endgmv' the importer looped for ever at the end of the file.
---
 src/io/MESH_ImportFromGMV.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/io/MESH_ImportFromGMV.c b/src/io/MESH_ImportFromGMV.c
index b7504ab..35b95c1 100644
--- a/src/io/MESH_ImportFromGMV.c
+++ b/src/io/MESH_ImportFromGMV.c
@@ -135,9 +135,12 @@ extern "C" {
   done = 0; 
   while (!done) {
     status = fscanf(fp,"%s",temp_str);
-    if (status == EOF)
+    if (status == EOF) {
       MSTK_Report("MESH_ImportFromGMV","End of file but 'endgmv' not found?",
-		  MSTK_WARN);
+		  MSTK_ERROR);
+      fclose(fp);
+      return 0;
+    }
 
 
     /* READ COMMENTS IF THEY EXIST */
-- 
2.43.0


From c61002be3326371fba0fc67ffe44ac0402189a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:17 +0000
Subject: [PATCH 072/101] fix: GMV import finds the files of several processes

The exporter numbers them with leading zeros.
---
 src/io/MESH_ImportFromGMV.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/MESH_ImportFromGMV.c b/src/io/MESH_ImportFromGMV.c
index 35b95c1..30be109 100644
--- a/src/io/MESH_ImportFromGMV.c
+++ b/src/io/MESH_ImportFromGMV.c
@@ -60,7 +60,7 @@ extern "C" {
   if (numprocs > 1) {
     distributed = 1;
 
-    sprintf(modfilename,"%s.%5d",filename,rank);
+    sprintf(modfilename,"%s.%05d",filename,rank);
     if (!(fp = fopen(modfilename,"r"))) {
       
       sprintf(modfilename,"%s.%d",filename,rank);      
-- 
2.43.0


From 047a12a3d8209f72a78202721615eecf58e99040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:17 +0000
Subject: [PATCH 073/101] fix: GMV import sets both vertices of a line cell

---
 src/io/MESH_ImportFromGMV.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/MESH_ImportFromGMV.c b/src/io/MESH_ImportFromGMV.c
index 30be109..d2e97c0 100644
--- a/src/io/MESH_ImportFromGMV.c
+++ b/src/io/MESH_ImportFromGMV.c
@@ -275,7 +275,7 @@ extern "C" {
 	  
 	  me = ME_New(mesh);
 	  for (j = 0; j < 2; j++)
-	    ME_Set_Vertex(me,0,vtx[j]);
+	    ME_Set_Vertex(me,j,vtx[j]);
 
 	  non_vface_cells = 1;
 	}
-- 
2.43.0


From cded8f9ead76466fc21a07ac2106372ded8b2b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:43 +0000
Subject: [PATCH 074/101] fix: collapsing an edge of a solid mesh prefers an
 external vertex

Of the two vertices of an edge, ME_Collapse means to keep one on the external
boundary if it is free to choose, but for meshes of regions it took no vertex
to be on the boundary.
---
 src/mod/ME_Collapse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mod/ME_Collapse.c b/src/mod/ME_Collapse.c
index bcd4288..3f08be1 100644
--- a/src/mod/ME_Collapse.c
+++ b/src/mod/ME_Collapse.c
@@ -147,7 +147,7 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
         if (fregs) List_Delete(fregs);
 
         if (nfr == 1) {
-          vdel_external = 0;
+          vdel_external = 1;
           break;
         }
       }
-- 
2.43.0


From ad700047eb34043ef9cb4038a06796f4d2d9e55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:43 +0000
Subject: [PATCH 075/101] fix: edge collapse crashed on unclassified edges of
 surface meshes

To find out which of two edges to be merged is on the boundary, ME_Collapse
counted their faces. The external edge of a triangle that has collapsed has no
faces left, so the list of its faces is NULL.
---
 src/mod/ME_Collapse.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mod/ME_Collapse.c b/src/mod/ME_Collapse.c
index 3f08be1..6e01b55 100644
--- a/src/mod/ME_Collapse.c
+++ b/src/mod/ME_Collapse.c
@@ -397,8 +397,8 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
              edge */
           
           efaces = ME_Faces(edge);
-          int nef = List_Num_Entries(efaces);
-          if (nef == 1) {
+          if (!efaces) {
+            /* the degenerate face deleted above was its only face */
             edge_on_boundary = 1;
           } else {
             idx3 = 0;
@@ -414,8 +414,8 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
               }
               if (edge_on_boundary) break;
             }
+            List_Delete(efaces);
           }
-          List_Delete(efaces);
         }
     
         edge2_on_boundary = 0;
@@ -429,8 +429,8 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
              boundary of a ghost layer can mimic an external edge */
           
           efaces = ME_Faces(edge2);
-          int nef = List_Num_Entries(efaces);
-          if (nef == 1) {
+          if (!efaces) {
+            /* the degenerate face deleted above was its only face */
             edge2_on_boundary = 1;
           } else {
             idx3 = 0;
@@ -446,8 +446,8 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
               }
               if (edge2_on_boundary) break;
             }
+            List_Delete(efaces);
           }
-          List_Delete(efaces);
         }
     
         if (edge_on_boundary == edge2_on_boundary) {
-- 
2.43.0


From b42602e0b6605b767fd1375af509c64b26a350ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:43 +0000
Subject: [PATCH 076/101] fix: edge collapse merged edges of the boundary onto
 interior edges

Of two edges that become coincident, ME_Collapse took both to be on the
boundary if their model entities have dimension 1 or 2, so in surface meshes it
chose by global ID between an interior and a boundary edge. If topological
conformity was asked for, MEs_Merge refused and the edge was reported as
deleted nevertheless.
---
 src/mod/ME_Collapse.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mod/ME_Collapse.c b/src/mod/ME_Collapse.c
index 6e01b55..c03dd64 100644
--- a/src/mod/ME_Collapse.c
+++ b/src/mod/ME_Collapse.c
@@ -450,6 +450,15 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
           }
         }
     
+        if (ME_GEntDim(edge) < 4 && ME_GEntDim(edge2) < 4 &&
+            ME_GEntDim(edge) != ME_GEntDim(edge2)) {
+          /* The edge on the lower dimensional model entity must stay -
+             otherwise the model entity will not be represented in the
+             mesh (and MEs_Merge will refuse if topoflag is 1) */
+          edge_on_boundary = ME_GEntDim(edge) < ME_GEntDim(edge2);
+          edge2_on_boundary = !edge_on_boundary;
+        }
+
         if (edge_on_boundary == edge2_on_boundary) {
           /* if both edges are boundary edges or both are interior, then we
              don't have to worry about topological consistency of the
-- 
2.43.0


From 8ab0a0bcf8f422f770b3dc073d761975a242c380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:16 +0000
Subject: [PATCH 077/101] fix: meshconvert: end with a failure status when the
 output could not be written

---
 utils/meshconvert/src/meshconvert.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/utils/meshconvert/src/meshconvert.c b/utils/meshconvert/src/meshconvert.c
index d817bed..fd2e09e 100644
--- a/utils/meshconvert/src/meshconvert.c
+++ b/utils/meshconvert/src/meshconvert.c
@@ -486,8 +486,7 @@ int main(int argc, char *argv[]) {
   if (outmeshfmt == MSTK) {
     if (rank == 0)
       fprintf(stderr,"Writing mesh to MSTK file...");
-    MESH_WriteToFile(mesh,outfname,MESH_RepType(mesh),comm);
-    fprintf(stderr,"Done\n");
+    ok = MESH_WriteToFile(mesh,outfname,MESH_RepType(mesh),comm);
   }
   else {
     switch(outmeshfmt) {
@@ -504,14 +503,17 @@ int main(int argc, char *argv[]) {
     case CGNS:
       if (rank == 0)
         fprintf(stderr,"Cannot export to CGNS format. ");
+      ok = 0;
       break;
     case VTK:
       if (rank == 0)
         fprintf(stderr,"Cannot export to VTK format. ");
+      ok = 0;
       break;
     case AVSUCD:
       if (rank == 0)
         fprintf(stderr,"Cannot export to AVS format. ");
+      ok = 0;
       break;
     case X3D:
       if (rank == 0)
@@ -536,16 +538,18 @@ int main(int argc, char *argv[]) {
     default:
       if (rank == 0)
         fprintf(stderr,"Cannot export mesh to unrecognized format. \n");      
+      ok = 0;
     }
 
-    if (rank == 0) {
-      if (ok)
-        fprintf(stderr,"Done\n");
-      else {
-        fprintf(stderr,"Failed\n");
-        exit(-1);
-      }
-    }
+  }
+
+  if (ok) {
+    if (rank == 0)
+      fprintf(stderr,"Done\n");
+  }
+  else {
+    fprintf(stderr,"Failed\n");
+    exit(-1);
   }
 
 
-- 
2.43.0


From 77e0d7eeae73be72c7dcf5ff0e4e8ae688a3b823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:16 +0000
Subject: [PATCH 078/101] fix: meshconvert: recognize the STL and DX extensions

---
 utils/meshconvert/src/meshconvert.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/meshconvert/src/meshconvert.c b/utils/meshconvert/src/meshconvert.c
index fd2e09e..964e762 100644
--- a/utils/meshconvert/src/meshconvert.c
+++ b/utils/meshconvert/src/meshconvert.c
@@ -42,6 +42,10 @@ MshFmt getFormat(char *filename) {
     return CGNS;
   else if (len > 4 && strncmp(&(filename[len-4]),".off",4) == 0)
     return OFF;
+  else if (len > 4 && strncmp(&(filename[len-4]),".stl",4) == 0)
+    return STL;
+  else if (len > 3 && strncmp(&(filename[len-3]),".dx",3) == 0)
+    return DX;
   else {
     fprintf(stderr,"Unrecognized mesh format\n");
     fprintf(stderr,"Recognized mesh formats for import: MSTK, GMV, ExodusII, NemesisI\n");
-- 
2.43.0


From 85db9e5daf326300640291b7be73d42e11aaa6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:36 +0000
Subject: [PATCH 079/101] fix: meshconvert: names of the files of a parallel
 mesh

---
 utils/meshconvert/src/meshconvert.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/utils/meshconvert/src/meshconvert.c b/utils/meshconvert/src/meshconvert.c
index 964e762..66c4d19 100644
--- a/utils/meshconvert/src/meshconvert.c
+++ b/utils/meshconvert/src/meshconvert.c
@@ -383,7 +383,8 @@ int main(int argc, char *argv[]) {
       if (rank == 0)
 	fprintf(stderr,"Reading file in MSTK format...");
 
-      sprintf(parfilename,"%s.%-d.%-d",infname,numprocs,rank);
+      int ndigits = (int)(floor(log10(numprocs))+1);
+      sprintf(parfilename,"%s.%d.%0*d",infname,numprocs,ndigits,rank);
       mesh = MESH_New(UNKNOWN_REP);
       
       ok = MESH_InitFromFile(mesh,parfilename,comm);
@@ -394,21 +395,22 @@ int main(int argc, char *argv[]) {
       if (rank == 0)
 	fprintf(stderr,"Importing mesh from GMV file...");
 
-      sprintf(parfilename,"%s.%05d",infname,rank+1);
+      /* the importer adds the rank to the name and weaves the meshes too */
       mesh = MESH_New(F1);
       
-      ok = MESH_ImportFromFile(mesh,parfilename,"gmv",opts,comm);
+      ok = MESH_ImportFromFile(mesh,infname,"gmv",opts,comm);
+      weave = 0;
 
       break;
     }
-    case NEMESISI: {
+    case EXODUSII: case NEMESISI: {
       if (rank == 0)
 	fprintf(stderr,"Reading file in Exodus/Nemesis format...");
 
-      sprintf(parfilename,"%s.%-d.%-d",infname,numprocs,rank);
+      /* the importer adds the number of processors and rank to the name */
       mesh = MESH_New(UNKNOWN_REP);
       
-      ok = MESH_ImportFromFile(mesh,parfilename,"nemesisi",opts,comm);
+      ok = MESH_ImportFromFile(mesh,infname,"nemesisi",opts,comm);
       
       break;
     }
@@ -454,7 +456,7 @@ int main(int argc, char *argv[]) {
     if (weave == 1) {
 
       int input_type = 0;
-      if (inmeshfmt == NEMESISI)
+      if (inmeshfmt == EXODUSII || inmeshfmt == NEMESISI)
 	input_type = 1;
       else if (inmeshfmt == X3D)
 	input_type = 2;
-- 
2.43.0


From 7fb0b039743c3410da103e453b8f980ca9a205c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:36 +0000
Subject: [PATCH 080/101] fix: meshconvert: --parallel-check=1 had no effect

---
 utils/meshconvert/src/meshconvert.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/meshconvert/src/meshconvert.c b/utils/meshconvert/src/meshconvert.c
index 66c4d19..c4e110e 100644
--- a/utils/meshconvert/src/meshconvert.c
+++ b/utils/meshconvert/src/meshconvert.c
@@ -153,7 +153,7 @@ int main(int argc, char *argv[]) {
       else if (strncmp(argv[i],"--parallel-check",16) == 0 ||
                strncmp(argv[i],"--parallel_check",16) == 0) {
         if (strncmp(argv[i]+17,"y",1) == 0 ||
-            strncmp(argv[i]+17,"1",1) == 1)
+            strncmp(argv[i]+17,"1",1) == 0)
           parallel_check = 1;
         else if (strncmp(argv[i]+17,"n",13) == 0 ||
                  strncmp(argv[i]+17,"0",13) == 0) 
-- 
2.43.0


From f042567ee315faaadc5a31339cf9423604fa6821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:53 +0000
Subject: [PATCH 081/101] fix: unpadded names of Nemesis files had the number
 of digits for the rank

---
 src/io/MESH_ImportFromNemesisI.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/MESH_ImportFromNemesisI.c b/src/io/MESH_ImportFromNemesisI.c
index 91c7f85..6bc5fc4 100644
--- a/src/io/MESH_ImportFromNemesisI.c
+++ b/src/io/MESH_ImportFromNemesisI.c
@@ -78,7 +78,7 @@ extern "C" {
       /* Try opening the file with .par.N.n extension */
 
       sprintf(modfilename,"%s.par.%-d.%0*d",basename,numprocs,ndigits,rank);
-      sprintf(modfilename_alt,"%s.par.%-d.%-d",basename,numprocs,ndigits,rank);
+      sprintf(modfilename_alt,"%s.par.%-d.%-d",basename,numprocs,rank);
 
       fprintf(stderr,"Rank %d filename %s\n",rank,modfilename);
       
@@ -98,7 +98,7 @@ extern "C" {
         /* Perhaps the files have a .exo.N.n extension? */
 
         sprintf(modfilename,"%s.exo.%-d.%0*d",basename,numprocs,ndigits,rank);
-        sprintf(modfilename_alt,"%s.exo.%-d.%d",basename,numprocs,ndigits,rank);
+        sprintf(modfilename_alt,"%s.exo.%-d.%d",basename,numprocs,rank);
       
         if ((fp = fopen(modfilename,"r"))) {
           fclose(fp);
@@ -138,7 +138,7 @@ extern "C" {
         ext[0] = '\0'; /* Truncate the basename string at the extension */
 
       sprintf(modfilename,"%s.par.%-d.%0*d",basename,numprocs,ndigits,rank);
-      sprintf(modfilename_alt,"%s.par.%-d.%-d",basename,numprocs,ndigits,rank);
+      sprintf(modfilename_alt,"%s.par.%-d.%-d",basename,numprocs,rank);
       
       if ((fp = fopen(modfilename,"r"))) {
         fclose(fp);
-- 
2.43.0


From dc38a90304dedc0cdc2afa7b5b6a6c48958ae62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:56 +0000
Subject: [PATCH 082/101] fix: meshconvert: classification and checks of a mesh
 before it is partitioned

---
 utils/meshconvert/src/meshconvert.c | 73 ++++++++++++++++-------------
 1 file changed, 40 insertions(+), 33 deletions(-)

diff --git a/utils/meshconvert/src/meshconvert.c b/utils/meshconvert/src/meshconvert.c
index c4e110e..1181ca2 100644
--- a/utils/meshconvert/src/meshconvert.c
+++ b/utils/meshconvert/src/meshconvert.c
@@ -54,6 +54,38 @@ MshFmt getFormat(char *filename) {
   }
 }
 
+/* Derive the classification of a complete mesh and check its topology */
+
+static void prepareMesh(Mesh_ptr mesh, int build_classfn, int use_geometry,
+                        int check_topo) {
+
+  /* Figure out geometric classification */
+
+  if (build_classfn) {
+    fprintf(stderr,"Building classification information....");
+
+    if (MESH_BuildClassfn(mesh,use_geometry))
+      fprintf(stderr,"Done\n");
+    else {
+      fprintf(stderr,"Failed\n");
+      exit(-1);
+    }
+  }
+
+  /* Check that the imported mesh topology is ok */
+
+  if (check_topo) {
+    fprintf(stderr,"Checking mesh topology....");
+
+    if (MESH_CheckTopo(mesh))
+      fprintf(stderr,"Done\n");
+    else {
+      fprintf(stderr,"Failed\n");
+      exit(-1);
+    }
+  }
+}
+
 int main(int argc, char *argv[]) {
   char infname[256], outfname[256];
   int len, ok;
@@ -273,6 +305,10 @@ int main(int argc, char *argv[]) {
       mesh = MESH_New(F1);
       ok = MESH_ImportFromFile(mesh,infname,"exodusii",opts,comm);
 
+      /* works correctly only for un-partitioned meshes */
+      if (rank == 0 && partition <= 0)
+        prepareMesh(mesh, build_classfn, use_geometry, check_topo);
+
     } else {
 
       Mesh_ptr serial_mesh = NULL;
@@ -319,6 +355,10 @@ int main(int argc, char *argv[]) {
 	}
       }
 
+      /* works correctly only for un-partitioned meshes */
+      if (rank == 0)
+        prepareMesh(serial_mesh, build_classfn, use_geometry, check_topo);
+
       if (partition > 0) {
 	int ring = 1; /* 1 layer of ghost elements */
 	int with_attr = 1; /* Do allow exchange of attributes */
@@ -341,39 +381,6 @@ int main(int argc, char *argv[]) {
 	mesh = serial_mesh;
     }
 
-    /* Figure out geometric classification */
-    
-    if (build_classfn) {  /* works correctly only for un-partitioned meshes */
-      if (rank == 0) {
-	fprintf(stderr,"Building classification information....");
-	
-	ok = MESH_BuildClassfn(mesh,use_geometry);  
-
-	if (ok)
-	  fprintf(stderr,"Done\n");
-	else {
-	  fprintf(stderr,"Failed\n");
-	  exit(-1);
-	}
-      }
-    }
-    
-    /* Check that the imported serial mesh topology is ok */
-
-    if (check_topo) {  /* works correctly only for un-partitioned meshes */
-      if (rank == 0) {
-	fprintf(stderr,"Checking mesh topology....");
-
-	ok = MESH_CheckTopo(mesh);
-	
-	if (ok)
-	  fprintf(stderr,"Done\n");
-	else {
-	  fprintf(stderr,"Failed\n");
-	  exit(-1);
-	}
-      }
-    }
   } else {  /* parallel files */
 
     char parfilename[256];
-- 
2.43.0


From 2d7731c9c80615beba8776bc17352bc9da12f9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:13 +0000
Subject: [PATCH 083/101] fix: topology check crashed when there are no
 boundary faces at a boundary vertex or edge

---
 src/hilev/MESH_CheckTopo.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hilev/MESH_CheckTopo.c b/src/hilev/MESH_CheckTopo.c
index f8a7db3..8b1a4cf 100644
--- a/src/hilev/MESH_CheckTopo.c
+++ b/src/hilev/MESH_CheckTopo.c
@@ -138,6 +138,7 @@ extern "C" {
 	  sprintf(mesg,"Vertex %-d classified on model face %-d but could not \n find connected face classified on this model face",vid,gvid);
 	  MSTK_Report(funcname,mesg,MSTK_WARN);
 	  valid = 0;
+	  continue;
 	}
 
 	fcur = vf;
@@ -307,6 +308,8 @@ extern "C" {
 	    sprintf(mesg,"Boundary edge %-d is not connected to exactly two\n  faces classified on the boundary",eid);
 	    MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    valid = 0;
+	    if (nf < 2)
+	      continue;
 	  }
 
 
-- 
2.43.0


From 91f1de5151a2a23dae123b7c67cfe01a2a40960f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:51 +0000
Subject: [PATCH 084/101] fix: Exodus II export read past the end of the list
 of attributes of a process

---
 src/io/MESH_ExportToExodusII.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index 43bdbe4..c11bb43 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -3059,6 +3059,12 @@ extern "C" {
 
       if (maxnum) {
 
+        /* every processor contributes the same number of entries */
+
+        att_names_loc = (char *) realloc(att_names_loc,maxnum*MAXLEN*sizeof(char));
+        att_dim_loc = (int *) realloc(att_dim_loc,maxnum*sizeof(int));
+        nalloc = (nalloc < maxnum) ? maxnum : nalloc;
+
         att_names_glob = (char *) malloc(maxnum*numprocs*MAXLEN*sizeof(char));
       
         MPI_Gather(att_names_loc, maxnum*MAXLEN, MPI_CHAR, att_names_glob,
-- 
2.43.0


From 490ce75d517baa74875e061128f302c2e2c0ce78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:30 +0000
Subject: [PATCH 085/101] fix: parallel Exodus II export crashed when a process
 lacks an attribute

---
 src/io/MESH_ExportToExodusII.c | 42 +++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index c11bb43..8180095 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -54,6 +54,7 @@ extern "C" {
                                char ***node_att_names,
                                int *num_sideset_atts,
                                char ***sideset_att_names,
+                               List_ptr *added_atts,
                                MSTK_Comm comm);
 
   /* this function removes the temporary data put on the mesh */
@@ -114,6 +115,7 @@ extern "C" {
       *element_set_ids_glob;
     int num_face_block;
     char **element_block_types_glob, block_name[256];
+    List_ptr added_atts=NULL;
     char **element_att_names_glob, **node_att_names_glob, 
       **sideset_att_names_glob, **elementset_att_names_glob;
     MSet_ptr *element_blocks_glob, *side_sets_glob, *node_sets_glob, 
@@ -1311,7 +1313,7 @@ extern "C" {
                             &element_att_names_glob,
                             &num_node_atts_glob, &node_att_names_glob,
                             &num_sideset_atts_glob, &sideset_att_names_glob,
-                            comm);
+                            &added_atts, comm);
 
 
     char veckey[16] = "_veccomp";
@@ -1702,6 +1704,12 @@ extern "C" {
     }
       
 
+    if (added_atts) {
+      for (i = 0; i < List_Num_Entries(added_atts); i++)
+        MAttrib_Delete(List_Entry(added_atts,i));
+      List_Delete(added_atts);
+    }
+
     MESH_Remove_Export_Data(mesh,vidatt);
     MAttrib_Delete(block_type_att);
     MAttrib_Delete(fidatt);
@@ -2983,13 +2991,14 @@ extern "C" {
                                char ***node_att_names_glob, 
                                int *num_sideset_atts_glob, 
                                char ***sideset_att_names_glob, 
+                               List_ptr *added_atts,
                                MSTK_Comm comm) {
 
     int MAXLEN=256;
     int i, j, k, idx, natt_loc, nalloc;
     int rank=0, numprocs=1;
     MAttrib_ptr att;
-    int element_dim, face_dim, *att_dim_loc;
+    int element_dim, face_dim, *att_dim_loc, *att_type_loc;
     char *att_names_loc; 
 
 #ifdef MSTK_HAVE_MPI
@@ -3018,6 +3027,7 @@ extern "C" {
 
     att_names_loc = (char *) malloc(nalloc*MAXLEN*sizeof(char));
     att_dim_loc = (int *) malloc(nalloc*sizeof(int));
+    att_type_loc = (int *) malloc(2*nalloc*sizeof(int));
     natt_loc = 0;
  
     idx = 0;
@@ -3029,6 +3039,8 @@ extern "C" {
       
       MAttrib_Get_Name(att, &(att_names_loc[natt_loc*MAXLEN]));
       att_dim_loc[natt_loc] = MAttrib_Get_EntDim(att);
+      att_type_loc[2*natt_loc] = MAttrib_Get_Type(att);
+      att_type_loc[2*natt_loc+1] = MAttrib_Get_NumComps(att);
       ++natt_loc;
 
     }
@@ -3063,6 +3075,7 @@ extern "C" {
 
         att_names_loc = (char *) realloc(att_names_loc,maxnum*MAXLEN*sizeof(char));
         att_dim_loc = (int *) realloc(att_dim_loc,maxnum*sizeof(int));
+        att_type_loc = (int *) realloc(att_type_loc,2*maxnum*sizeof(int));
         nalloc = (nalloc < maxnum) ? maxnum : nalloc;
 
         att_names_glob = (char *) malloc(maxnum*numprocs*MAXLEN*sizeof(char));
@@ -3076,6 +3089,10 @@ extern "C" {
         MPI_Gather(att_dim_loc, maxnum, MPI_INT, att_dim_glob, maxnum, MPI_INT, 
                    0, comm);
         
+        int *att_type_glob = (int *) malloc(2*maxnum*numprocs*sizeof(int));
+        MPI_Gather(att_type_loc, 2*maxnum, MPI_INT, att_type_glob, 2*maxnum,
+                   MPI_INT, 0, comm);
+
         if (rank == 0) {
           
           /* Make a unique list of att names and the dimension of the
@@ -3106,6 +3123,8 @@ extern "C" {
                    the global list. Put it in. */
                 
                 att_dim_glob[maxnum1] = att_dim_glob[offset+j];
+                att_type_glob[2*maxnum1] = att_type_glob[2*(offset+j)];
+                att_type_glob[2*maxnum1+1] = att_type_glob[2*(offset+j)+1];
                 strcpy(&(att_names_glob[maxnum1*MAXLEN]),
                        &(att_names_glob[(offset+j)*MAXLEN]));
                 ++maxnum1;
@@ -3130,7 +3149,23 @@ extern "C" {
         /* Send everyone the dimension of the entities these attributes are on */
         
         MPI_Bcast(att_dim_glob,natts_glob,MPI_INT,0,comm);
-        
+        MPI_Bcast(att_type_glob,2*natts_glob,MPI_INT,0,comm);
+
+        /* An attribute that exists on other processors only is created
+           here (without values) so that all processors can write it out.
+           It has to be deleted after that */
+
+        for (i = 0; i < natts_glob; i++)
+          if (!MESH_AttribByName(mesh,&(att_names_glob[i*MAXLEN]))) {
+            att = MAttrib_New(mesh,&(att_names_glob[i*MAXLEN]),
+                              att_type_glob[2*i],att_dim_glob[i],
+                              att_type_glob[2*i+1]);
+            if (!*added_atts)
+              *added_atts = List_New(natts_glob);
+            List_Add(*added_atts,att);
+          }
+        free(att_type_glob);
+
         free(natt_all);
       }
       else
@@ -3220,6 +3255,7 @@ extern "C" {
     if (nalloc) {
       free(att_names_loc);
       free(att_dim_loc);
+      free(att_type_loc);
     }
     if (natts_glob) {
       free(att_names_glob);
-- 
2.43.0


From f1be25bc9a0491c5663129daeb3012eb96d252f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:03 +0000
Subject: [PATCH 086/101] fix: meshconvert: serial and parallel input files of
 the same name

---
 utils/meshconvert/src/meshconvert.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/utils/meshconvert/src/meshconvert.c b/utils/meshconvert/src/meshconvert.c
index 1181ca2..a25d39f 100644
--- a/utils/meshconvert/src/meshconvert.c
+++ b/utils/meshconvert/src/meshconvert.c
@@ -134,8 +134,12 @@ int main(int argc, char *argv[]) {
   MPI_Comm_rank(comm,&rank);
   MPI_Comm_size(comm,&numprocs);
 
+  /* for what one process does on its own */
+  MSTK_Comm serial_comm = MPI_COMM_SELF;
+
 #else
   MSTK_Comm comm = NULL;
+  MSTK_Comm serial_comm = NULL;
 #endif
 
   if (rank == 0) {
@@ -281,6 +285,10 @@ int main(int argc, char *argv[]) {
       MSTK_Report("meshconvert",
 		  "Did not find input file",MSTK_FATAL);
     }
+
+    /* Use the parallel files if that was asked for */
+    if (parallel_file && weave == 1 && partition <= 0)
+      serial_file = 0;
   }
 #endif
 
@@ -327,13 +335,13 @@ int main(int argc, char *argv[]) {
 	case GMV: {
 	  fprintf(stderr,"Importing mesh from GMV file...");
 	  serial_mesh = MESH_New(F1);
-	  ok = MESH_ImportFromFile(serial_mesh,infname,"gmv",opts,comm);
+	  ok = MESH_ImportFromFile(serial_mesh,infname,"gmv",opts,serial_comm);
 	  break;
 	}
 	case X3D: {
 	  fprintf(stderr,"Importing mesh from X3D format...");
 	  serial_mesh = MESH_New(F1);
-	  ok = MESH_ImportFromFile(serial_mesh,infname,"x3d",opts,comm);
+	  ok = MESH_ImportFromFile(serial_mesh,infname,"x3d",opts,serial_comm);
 	  break;
 	}
 	case CGNS: case VTK: case AVSUCD: 
-- 
2.43.0


From 469a14102fd9eb6a6c3f1df09424b4752ad29345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:10 +0000
Subject: [PATCH 087/101] fix: meshconvert: all processes use the same input
 files

---
 utils/meshconvert/src/meshconvert.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/meshconvert/src/meshconvert.c b/utils/meshconvert/src/meshconvert.c
index a25d39f..e95eba6 100644
--- a/utils/meshconvert/src/meshconvert.c
+++ b/utils/meshconvert/src/meshconvert.c
@@ -260,6 +260,9 @@ int main(int argc, char *argv[]) {
     }
     parallel_file = (filecount == numprocs) ? 1 : 0;
 
+    /* All processors must use the same files */
+    MPI_Bcast(&serial_file,1,MPI_INT,0,comm);
+    MPI_Bcast(&parallel_file,1,MPI_INT,0,comm);
 
     if (serial_file && parallel_file) {
       /* If both serial and parallel files are present, warn the user
-- 
2.43.0


From 2d334cdbe6e7824fb7ae6ea369fafcee88a1ae1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:07 +0000
Subject: [PATCH 088/101] fix: values of attributes on edges and faces that a
 reduced native file does not have

---
 src/base/MESH_WriteToFile.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/base/MESH_WriteToFile.c b/src/base/MESH_WriteToFile.c
index 86bfe49..8ffcd80 100644
--- a/src/base/MESH_WriteToFile.c
+++ b/src/base/MESH_WriteToFile.c
@@ -349,6 +349,13 @@ extern "C" {
 
   if ((natt = MESH_Num_Attribs(mesh)) > 4) {
 
+    /* Reduced representations have no edges (and R1 and R2 no faces if
+       there are regions) in the file, so there is nothing that the
+       values of an attribute on them could refer to */
+
+    int has_edges = (reptype <= F4);
+    int has_faces = (reptype <= F4 || reptype > R2 || nr == 0);
+
     fprintf(fp,"attributes\n");
 
     for (i = 0; i < natt; i++) {
@@ -381,12 +388,12 @@ extern "C" {
 	break;
       case MEDGE:
 	idx = 0;
-	while ((me = MESH_Next_Edge(mesh,&idx)))
+	while (has_edges && (me = MESH_Next_Edge(mesh,&idx)))
 	  if (MEnt_Get_AttVal(me,attrib,&ival,&rval,&pval)) nent++;
 	break;
       case MFACE:
 	idx = 0;
-	while ((mf = MESH_Next_Face(mesh,&idx)))
+	while (has_faces && (mf = MESH_Next_Face(mesh,&idx)))
 	  if (MEnt_Get_AttVal(mf,attrib,&ival,&rval,&pval)) nent++;	    
 	break;
       case MREGION: 
@@ -399,10 +406,10 @@ extern "C" {
 	while ((mv = MESH_Next_Vertex(mesh,&idx)))
 	  if (MEnt_Get_AttVal(mv,attrib,&ival,&rval,&pval)) nent++;
 	idx = 0;
-	while ((me = MESH_Next_Edge(mesh,&idx)))
+	while (has_edges && (me = MESH_Next_Edge(mesh,&idx)))
 	  if (MEnt_Get_AttVal(me,attrib,&ival,&rval,&pval)) nent++;
 	idx = 0;
-	while ((mf = MESH_Next_Face(mesh,&idx)))
+	while (has_faces && (mf = MESH_Next_Face(mesh,&idx)))
 	  if (MEnt_Get_AttVal(mf,attrib,&ival,&rval,&pval)) nent++;	    
 	idx = 0;
 	while ((mr = MESH_Next_Region(mesh,&idx)))
@@ -494,7 +501,7 @@ extern "C" {
 	break;
       case MEDGE:
 	idx = 0;
-	while ((me = MESH_Next_Edge(mesh,&idx))) {
+	while (has_edges && (me = MESH_Next_Edge(mesh,&idx))) {
 	  if (MEnt_Get_AttVal(me,attrib,&ival,&rval,&pval)) {
 	    MEnt_Get_AttVal(me,eidatt,&meid,&rdummy,&pdummy);
 	    fprintf(fp,"1 %-d ",meid);
@@ -519,7 +526,7 @@ extern "C" {
 	break;
       case MFACE:
 	idx = 0;
-	while ((mf = MESH_Next_Face(mesh,&idx))) {
+	while (has_faces && (mf = MESH_Next_Face(mesh,&idx))) {
 	  if (MEnt_Get_AttVal(mf,attrib,&ival,&rval,&pval)) {
 	    MEnt_Get_AttVal(mf,fidatt,&mfid,&rdummy,&pdummy);
 	    fprintf(fp,"2 %-d ",mfid);
@@ -594,7 +601,7 @@ extern "C" {
 	  }
 	}
 	idx = 0;
-	while ((me = MESH_Next_Edge(mesh,&idx))) {
+	while (has_edges && (me = MESH_Next_Edge(mesh,&idx))) {
 	  if (MEnt_Get_AttVal(me,attrib,&ival,&rval,&pval)) {
 	    MEnt_Get_AttVal(me,eidatt,&meid,&rdummy,&pdummy);
 	    fprintf(fp,"1 %-d ",meid);
@@ -617,7 +624,7 @@ extern "C" {
 	  }
 	}
 	idx = 0;
-	while ((mf = MESH_Next_Face(mesh,&idx))) {
+	while (has_faces && (mf = MESH_Next_Face(mesh,&idx))) {
 	  if (MEnt_Get_AttVal(mf,attrib,&ival,&rval,&pval)) {
 	    MEnt_Get_AttVal(mf,fidatt,&mfid,&rdummy,&pdummy);
 	    fprintf(fp,"2 %-d ",mfid);
-- 
2.43.0


From 790988245233cb8f66c8e374d3f11002aa85d155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:57 +0000
Subject: [PATCH 089/101] fix: Exodus II export cuts off long names of
 attributes another processor has

---
 src/io/MESH_ExportToExodusII.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index 8180095..2b2ac37 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -718,6 +718,14 @@ extern "C" {
       int len = strlen(attname) + (MAttrib_Get_Type(nameatt) == DOUBLE ? 0 : 16);
       if (len > maxnamelen) maxnamelen = len;
     }
+#ifdef MSTK_HAVE_MPI
+    if (comm) {
+      /* the files of all processors list the variables of all processors */
+
+      int maxnamelen_loc = maxnamelen;
+      MPI_Allreduce(&maxnamelen_loc,&maxnamelen,1,MPI_INT,MPI_MAX,comm);
+    }
+#endif
     if (maxnamelen > 255) maxnamelen = 255;
     ex_set_max_name_length(exoid,maxnamelen);
 
-- 
2.43.0


From 844460a3f139e13ca39410a953cf25af0e8287bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:12 +0000
Subject: [PATCH 090/101] fix: mkstruc reports success when the mesh could not
 be written

---
 utils/mkstruc/src/mkstruc.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/utils/mkstruc/src/mkstruc.c b/utils/mkstruc/src/mkstruc.c
index 35a11c3..3102740 100644
--- a/utils/mkstruc/src/mkstruc.c
+++ b/utils/mkstruc/src/mkstruc.c
@@ -556,8 +556,13 @@ int main(int argc, char *argv[]) {
     MV_Set_Coords(mv,xyz);
   }
 
-  MESH_WriteToFile(mesh,outfile,F1,NULL);
+  if (!MESH_WriteToFile(mesh,outfile,F1,NULL)) {
+    fprintf(stderr,"Cannot write mesh to file %s\n",outfile);
+    exit(-1);
+  }
 
   MESH_Delete(mesh);
+
+  return 0;
 }
 
-- 
2.43.0


From 289f45a0c35236effd5bd805c0d66d95642c8545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:12 +0000
Subject: [PATCH 091/101] fix: tri2quad and tet2hex report success without
 reading or writing a mesh

---
 utils/tet2hex/src/tet2hex.c   | 11 ++++++++++-
 utils/tri2quad/src/tri2quad.c | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/utils/tet2hex/src/tet2hex.c b/utils/tet2hex/src/tet2hex.c
index 4286cac..1126987 100644
--- a/utils/tet2hex/src/tet2hex.c
+++ b/utils/tet2hex/src/tet2hex.c
@@ -120,6 +120,10 @@ int main(int argc, char *argv[]) {
       fprintf(stderr,"Reading file in MSTK format...");
 
       ok = MESH_InitFromFile(mesh,infname,comm);
+      if (!ok) {
+        fprintf(stderr,"Failed\n");
+        exit(-1);
+      }
 
       fprintf(stderr,"Done\n");
     }
@@ -202,7 +206,11 @@ int main(int argc, char *argv[]) {
   if (outmeshformat == MSTK) {
     if (rank == 0)
       fprintf(stderr,"Writing mesh to MSTK file...");
-    MESH_WriteToFile(hexmesh, outfname, MESH_RepType(mesh), comm);
+    ok = MESH_WriteToFile(hexmesh, outfname, MESH_RepType(mesh), comm);
+    if (!ok) {
+      fprintf(stderr,"Failed\n");
+      exit(-1);
+    }
     fprintf(stderr,"Done\n");
   }
   else {
@@ -224,6 +232,7 @@ int main(int argc, char *argv[]) {
       ok = MESH_ExportToFile(hexmesh, outfname, "x3d", -1, NULL, NULL, comm);
       break;
     default:
+      ok = 0;
       if (rank == 0)
         fprintf(stderr,"Cannot export mesh to unrecognized format. \n");      
     }
diff --git a/utils/tri2quad/src/tri2quad.c b/utils/tri2quad/src/tri2quad.c
index 2e5f2f5..944068d 100644
--- a/utils/tri2quad/src/tri2quad.c
+++ b/utils/tri2quad/src/tri2quad.c
@@ -120,6 +120,10 @@ int main(int argc, char *argv[]) {
       fprintf(stderr,"Reading file in MSTK format...");
 
       ok = MESH_InitFromFile(mesh,infname,comm);
+      if (!ok) {
+        fprintf(stderr,"Failed\n");
+        exit(-1);
+      }
 
       fprintf(stderr,"Done\n");
     }
@@ -197,7 +201,11 @@ int main(int argc, char *argv[]) {
   if (outmeshformat == MSTK) {
     if (rank == 0)
       fprintf(stderr,"Writing mesh to MSTK file...");
-    MESH_WriteToFile(quadmesh, outfname, MESH_RepType(mesh), comm);
+    ok = MESH_WriteToFile(quadmesh, outfname, MESH_RepType(mesh), comm);
+    if (!ok) {
+      fprintf(stderr,"Failed\n");
+      exit(-1);
+    }
     fprintf(stderr,"Done\n");
   }
   else {
@@ -219,6 +227,7 @@ int main(int argc, char *argv[]) {
       ok = MESH_ExportToFile(quadmesh, outfname, "x3d", -1, NULL, NULL, comm);
       break;
     default:
+      ok = 0;
       if (rank == 0)
         fprintf(stderr,"Cannot export mesh to unrecognized format. \n");      
     }
-- 
2.43.0


From 7357fce5909b37e409bf5f3e5a649ea376ae0b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:22 +0000
Subject: [PATCH 092/101] fix: exoatt ends with a failure status when it
 succeeded

---
 utils/exoatt/src/exoatt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/exoatt/src/exoatt.c b/utils/exoatt/src/exoatt.c
index c2c7e67..2fb62c1 100644
--- a/utils/exoatt/src/exoatt.c
+++ b/utils/exoatt/src/exoatt.c
@@ -224,7 +224,7 @@ int main(int argc, char *argv[]) {
   MPI_Finalize();
 #endif
 
-  return 1;
+  return 0;
 }
 
 
-- 
2.43.0


From dab8816284c84dcc897e22d6a695aa2a7898ac41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:22 +0000
Subject: [PATCH 093/101] fix: exoatt does not write the attributes it is told
 to add

---
 utils/exoatt/src/exoatt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/exoatt/src/exoatt.c b/utils/exoatt/src/exoatt.c
index 2fb62c1..6a0fec8 100644
--- a/utils/exoatt/src/exoatt.c
+++ b/utils/exoatt/src/exoatt.c
@@ -206,7 +206,7 @@ int main(int argc, char *argv[]) {
 #endif
 
   fprintf(stderr,"\nExporting mesh to ExodusII format...");
-  ok = MESH_ExportToFile(mesh,outfname,"exodusii",-1,NULL,NULL,comm);
+  ok = MESH_ExportToFile(mesh,outfname,"exodusii",0,NULL,NULL,comm);
 
   if (ok)
     fprintf(stderr,"Done\n");
-- 
2.43.0


From 5cce9a42648a7d89d46066232e76e0aff5e838c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:14 +0000
Subject: [PATCH 094/101] fix: exoatt accepts files of attributes and sets that
 end within an entry

---
 utils/exoatt/src/exoatt.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/utils/exoatt/src/exoatt.c b/utils/exoatt/src/exoatt.c
index 6a0fec8..5654e0f 100644
--- a/utils/exoatt/src/exoatt.c
+++ b/utils/exoatt/src/exoatt.c
@@ -302,7 +302,7 @@ void import_attributes(Mesh_ptr mesh, char *attfname) {
       else {
         for (j = 0; j < nent; ++j) {
           status = fscanf(fp,"%d %lf",&entid,&attval);
-          if (status == EOF)
+          if (status != 2)
             MSTK_Report(progname,"Attributes file ended prematurely",MSTK_FATAL);
           
           mv = (nprocs > 1) ? MESH_VertexFromGlobalID(mesh,entid) : MESH_VertexFromID(mesh,entid);
@@ -334,7 +334,7 @@ void import_attributes(Mesh_ptr mesh, char *attfname) {
 	} else {
           for (j = 0; j < nent; ++j) {
             status = fscanf(fp,"%d %lf",&entid,&attval);
-            if (status == EOF)
+            if (status != 2)
               MSTK_Report(progname,"Attributes file ended prematurely",MSTK_FATAL);
 
             mr = (nprocs > 1) ? MESH_RegionFromGlobalID(mesh,entid) :
@@ -365,7 +365,7 @@ void import_attributes(Mesh_ptr mesh, char *attfname) {
         } else {
           for (j = 0; j < nent; ++j) {
             status = fscanf(fp,"%d %lf",&entid,&attval);
-            if (status == EOF)
+            if (status != 2)
               MSTK_Report(progname,"Attributes file ended prematurely",MSTK_FATAL);
             
             mf = (nprocs > 1) ? MESH_FaceFromGlobalID(mesh,entid) :
@@ -492,8 +492,11 @@ void import_sets(Mesh_ptr mesh, char *setfname) {
           if (status == EOF)
             MSTK_Report(progname,"Entity sets file ended prematurely",MSTK_FATAL);
 
-          for (k = 0; k < num_face_verts; k++) 
+          for (k = 0; k < num_face_verts; k++) {
             status = fscanf(fp,"%d",&(face_verts[k]));
+            if (status == EOF)
+              MSTK_Report(progname,"Entity sets file ended prematurely",MSTK_FATAL);
+          }
           
           MVertex_ptr fverts[MAXPV2];
           for (k = 0; k < num_face_verts; k++) {
@@ -522,7 +525,7 @@ void import_sets(Mesh_ptr mesh, char *setfname) {
         int edge_verts[2];
         for (j = 0; j < nent; ++j) {
           status = fscanf(fp,"%d %d",&(edge_verts[0]),&(edge_verts[1]));
-          if (status == EOF)
+          if (status != 2)
             MSTK_Report(progname,"Entity sets file ended prematurely",MSTK_FATAL);
 
           MVertex_ptr ev[2];
-- 
2.43.0


From b6d677e5136f8cc4bad7cccf803f135fc1a87043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:14 +0000
Subject: [PATCH 095/101] fix: element variables defined on some blocks only
 end the import of an Exodus II file

A results file need not define each variable on each element block, which
its truth table tells. The readers tried to read every variable on every
block and ended the program.
---
 src/io/MESH_ReadExodusII_Partial.c | 21 +++++++++++++++++++++
 src/io/MESH_ReadExodusII_Serial.c  | 26 ++++++++++++++++++++++++++
 2 files changed, 47 insertions(+)

diff --git a/src/io/MESH_ReadExodusII_Partial.c b/src/io/MESH_ReadExodusII_Partial.c
index b2af942..849181c 100644
--- a/src/io/MESH_ReadExodusII_Partial.c
+++ b/src/io/MESH_ReadExodusII_Partial.c
@@ -1744,6 +1744,18 @@ extern "C" {
         MSTK_Report(funcname,mesg,MSTK_FATAL);
       }
 
+      /* A variable need not be defined on all element blocks */
+
+      int *vartab = (int *) malloc(nelblock_total*nelemvars*sizeof(int));
+      status = ex_get_truth_table(exoid, EX_ELEM_BLOCK, nelblock_total,
+				  nelemvars, vartab);
+      if (status < 0) {
+        snprintf(mesg,sizeof(mesg),
+		"Error reading element variable table in Exodus II file %s\n",
+		filename);
+        MSTK_Report(funcname,mesg,MSTK_FATAL);
+      }
+
       /* Work through all the variables */
   
       int varindex;
@@ -1820,6 +1832,11 @@ extern "C" {
 		  }
 		  int nelems_cur = endel - begel + 1;
 
+		  int ndefined = 0;
+		  for (int k = 0; k < ncomp; k++)
+		    if (vartab[b*nelemvars+varindex+k]) ndefined++;
+		  if (ndefined < ncomp) break;  /* not defined on this block */
+
 		  for (int k = 0; k < ncomp; k++) {
 		    varindex2 = varindex + k;
 		    /* ex_get_partial_var is using indices starting from 1 */
@@ -1886,6 +1903,9 @@ extern "C" {
 		}
 		int nelems_cur = endel - begel + 1;
 		
+		if (!vartab[b*nelemvars+varindex])
+		  break;  /* not defined on this block */
+
 		/* ex_get_partial_var is using indices starting from 1 */
 		status = ex_get_partial_var(exoid, time_step, EX_ELEM_BLOCK,
 					    varindex+1, elblock_ids[b], jbeg+1,
@@ -1916,6 +1936,7 @@ extern "C" {
 	
       } /* for each element variable */
 
+      free(vartab);
       for (int i = 0; i < nelemvars; i++)
         free(elvarnames[i]);
       free(elvarnames);
diff --git a/src/io/MESH_ReadExodusII_Serial.c b/src/io/MESH_ReadExodusII_Serial.c
index c429639..00a341f 100644
--- a/src/io/MESH_ReadExodusII_Serial.c
+++ b/src/io/MESH_ReadExodusII_Serial.c
@@ -1959,6 +1959,18 @@ extern "C" {
         MSTK_Report(funcname,mesg,MSTK_FATAL);
       }
 
+      /* A variable need not be defined on all element blocks */
+
+      int *vartab = (int *) malloc(nelblock*nelemvars*sizeof(int));
+      status = ex_get_truth_table(exoid, EX_ELEM_BLOCK, nelblock, nelemvars,
+                                  vartab);
+      if (status < 0) {
+        snprintf(mesg,sizeof(mesg),
+                "Error while reading element variable table in Exodus II file %s\n",
+                filename);
+        MSTK_Report(funcname,mesg,MSTK_FATAL);
+      }
+
       /* Work through all the variables */
   
       int varindex;
@@ -2028,6 +2040,13 @@ extern "C" {
 
             for (i = 0; i < nelblock; i++) {
 
+              for (j = 0; j < ncomp; j++)
+                if (!vartab[i*nelemvars+varindex+j]) break;
+              if (j < ncomp) {  /* not defined on this block */
+                elid += nel_in_blk[i];
+                continue;
+              }
+
               for (j = 0; j < ncomp; j++) {
                 varindex2 = varindex + j;
 #ifdef EXODUS_6_DEPRECATED
@@ -2085,6 +2104,12 @@ extern "C" {
           double *elem_var_vals = (double *) malloc(max_el_in_blk*sizeof(double));
 
           for (i = 0; i < nelblock; i++) {
+
+            if (!vartab[i*nelemvars+varindex]) {  /* not defined on this block */
+              elid += nel_in_blk[i];
+              continue;
+            }
+
 #ifdef EXODUS_6_DEPRECATED
             status = ex_get_elem_var(exoid, time_step, varindex+1,
                                      elem_blk_ids[i], 
@@ -2115,6 +2140,7 @@ extern "C" {
         } /* If its a scalar variable */
       } /* for each element variable */
 
+      free(vartab);
       for (i = 0; i < nelemvars; i++)
         free(elvarnames[i]);
       free(elvarnames);
-- 
2.43.0


From 69b42a89cfa9d54e730ed229d219cde63ec0cdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:25 +0000
Subject: [PATCH 096/101] fix: variables without time steps end the import of
 an Exodus II file

A file may declare variables without having a time step yet. The readers
tried to read the first one and ended the program.
---
 src/io/MESH_ReadExodusII_Partial.c | 5 +++--
 src/io/MESH_ReadExodusII_Serial.c  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/io/MESH_ReadExodusII_Partial.c b/src/io/MESH_ReadExodusII_Partial.c
index 849181c..19c6318 100644
--- a/src/io/MESH_ReadExodusII_Partial.c
+++ b/src/io/MESH_ReadExodusII_Partial.c
@@ -1714,6 +1714,7 @@ extern "C" {
     /* Read in fields on elements and nodes */
     int nelemvars=0, nnodevars=0;
     int time_step = 1;
+    int ntime_steps = ex_inquire_int(exoid, EX_INQ_TIME); /* may be 0 */
     char veckey[16] = "_veccomp";
     int keylen = strlen(veckey);
 
@@ -1727,7 +1728,7 @@ extern "C" {
       MSTK_Report(funcname,mesg,MSTK_FATAL);
     }
 
-    if (nelemvars) {
+    if (nelemvars && ntime_steps > 0) {
 
       /* What are their names */
 
@@ -1954,7 +1955,7 @@ extern "C" {
       MSTK_Report(funcname,mesg,MSTK_FATAL);
     }
 
-    if (nnodevars) {
+    if (nnodevars && ntime_steps > 0) {
       /* What are their names */
 
       char **nodevarnames = (char **) malloc(nnodevars*sizeof(char *));
diff --git a/src/io/MESH_ReadExodusII_Serial.c b/src/io/MESH_ReadExodusII_Serial.c
index 00a341f..127a432 100644
--- a/src/io/MESH_ReadExodusII_Serial.c
+++ b/src/io/MESH_ReadExodusII_Serial.c
@@ -1920,6 +1920,7 @@ extern "C" {
     /* Read in fields on elements and nodes */
     int nelemvars=0, nnodevars=0;
     int time_step = 1;
+    int ntime_steps = ex_inquire_int(exoid, EX_INQ_TIME); /* may be 0 */
     char veckey[16] = "_veccomp";
     int keylen = strlen(veckey);
 
@@ -1938,7 +1939,7 @@ extern "C" {
       MSTK_Report(funcname,mesg,MSTK_FATAL);
     }
 
-    if (nelemvars) {
+    if (nelemvars && ntime_steps > 0) {
 
       /* What are their names */
 
@@ -2162,7 +2163,7 @@ extern "C" {
       MSTK_Report(funcname,mesg,MSTK_FATAL);
     }
 
-    if (nnodevars) {
+    if (nnodevars && ntime_steps > 0) {
       /* What are their names */
 
       char **nodevarnames = (char **) malloc(nnodevars*sizeof(char *));
-- 
2.43.0


From b2af89e69ab4700a37ab1cdace9350d44cad8d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:51 +0000
Subject: [PATCH 097/101] fix: Exodus II element blocks of type SHELL are left
 out of the mesh

The reader takes blocks whose type begins with SHELL for surface elements,
but then read only those of type SHELL3 and SHELL4.
---
 src/io/ExodusII_GetElementGraph.c | 6 ++----
 src/io/MESH_ReadExodusII_Serial.c | 3 +--
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/io/ExodusII_GetElementGraph.c b/src/io/ExodusII_GetElementGraph.c
index f870277..5168b82 100644
--- a/src/io/ExodusII_GetElementGraph.c
+++ b/src/io/ExodusII_GetElementGraph.c
@@ -361,8 +361,7 @@ extern "C" {
       }
       else if (strncasecmp(elem_type,"TRI",3) == 0 ||
 	       strncasecmp(elem_type,"QUAD",4) == 0 ||
-	       strncasecmp(elem_type,"SHELL3",6) == 0 ||
-	       strncasecmp(elem_type,"SHELL4",6) == 0) {
+	       strncasecmp(elem_type,"SHELL",5) == 0) {
 	
 	max_faces += 4*nel_in_blk;  /* overestimate to num faces of quad */
 
@@ -835,8 +834,7 @@ extern "C" {
       }
       else if (strncasecmp(elem_type,"TRI",3) == 0 ||
 	       strncasecmp(elem_type,"QUAD",4) == 0 ||
-	       strncasecmp(elem_type,"SHELL3",6) == 0 ||
-	       strncasecmp(elem_type,"SHELL4",6) == 0) {
+	       strncasecmp(elem_type,"SHELL",5) == 0) {
 	
 	/* Get the connectivity of all elements in this block */
 	
diff --git a/src/io/MESH_ReadExodusII_Serial.c b/src/io/MESH_ReadExodusII_Serial.c
index 127a432..08a0179 100644
--- a/src/io/MESH_ReadExodusII_Serial.c
+++ b/src/io/MESH_ReadExodusII_Serial.c
@@ -1138,8 +1138,7 @@ extern "C" {
         }
         else if (strncasecmp(elem_type,"TRI",3) == 0 ||
                  strncasecmp(elem_type,"QUAD",4) == 0 ||
-                 strncasecmp(elem_type,"SHELL3",6) == 0 ||
-                 strncasecmp(elem_type,"SHELL4",6) == 0) {
+                 strncasecmp(elem_type,"SHELL",5) == 0) {
 	
           /* Get the connectivity of all elements in this block */
 	
-- 
2.43.0


From db92593ca49102c0866d97e654d9b8172a37e5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:01 +0000
Subject: [PATCH 098/101] fix: side sets on shells in Exodus II files are read
 with wrong edges

Sides 1 and 2 of a shell element are the element itself, its edges begin
with side 3. The readers took the number of the side for that of the edge.
---
 src/io/MESH_ReadExodusII_Partial.c | 15 ++++++++++++++-
 src/io/MESH_ReadExodusII_Serial.c  | 20 ++++++++++++++++++++
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/io/MESH_ReadExodusII_Partial.c b/src/io/MESH_ReadExodusII_Partial.c
index 19c6318..72f9b5d 100644
--- a/src/io/MESH_ReadExodusII_Partial.c
+++ b/src/io/MESH_ReadExodusII_Partial.c
@@ -1576,8 +1576,21 @@ extern "C" {
 	  if (mstk_elem_type == MFACE) {
 	    MFace_ptr mf = MESH_FaceFromID(mesh,local_elem_id);
 	      
+	    /* Sides 1 and 2 of a shell are the element itself, its edges
+	       come after them */
+	    int iedge = ss_side_list[j]-1;
+	    if (strncasecmp(elblock_type[elem_blockidx[local_elem_id-1]],
+			    "SHELL",5) == 0) {
+	      iedge -= 2;
+	      if (iedge < 0) {
+		MSTK_Report(funcname,"Ignoring face of shell in sideset",
+			    MSTK_WARN);
+		continue;
+	      }
+	    }
+
 	    List_ptr fedges = MF_Edges(mf,1,0);
-	    MEdge_ptr me = List_Entry(fedges,ss_side_list[j]-1);
+	    MEdge_ptr me = List_Entry(fedges,iedge);
 	    List_Delete(fedges);
 	      
 	    /* Set attribute value for this edge */	      
diff --git a/src/io/MESH_ReadExodusII_Serial.c b/src/io/MESH_ReadExodusII_Serial.c
index 08a0179..5eedbfa 100644
--- a/src/io/MESH_ReadExodusII_Serial.c
+++ b/src/io/MESH_ReadExodusII_Serial.c
@@ -782,6 +782,8 @@ extern "C" {
       MAttrib_ptr dirflagatt = MAttrib_New(mesh, "dirflag", INT, MREGION);
 #endif
 
+      int *shell_blk = (int *) malloc(nelblock*sizeof(int));
+
       for (i = 0; i < nelblock; i++) {
       
         status = ex_get_block(exoid, EX_ELEM_BLOCK, elem_blk_ids[i], 
@@ -793,6 +795,7 @@ extern "C" {
                   elem_blknames[i],filename);
           MSTK_Report(funcname,mesg,MSTK_FATAL);
         }
+        shell_blk[i] = (strncasecmp(elem_type,"SHELL",5) == 0);
       
         sprintf(matsetname,"matset_%-d",elem_blk_ids[i]);
         if (mesh_type == 1)
@@ -1693,6 +1696,22 @@ extern "C" {
               fedges = MF_Edges(mf,1,0);
             
               int lfnum = ss_side_list[j]-1;
+
+              /* Sides 1 and 2 of a shell are the element itself, its
+                 edges come after them */
+
+              int blk = 0, elbeg = 0;
+              while (ss_elem_list[j] > elbeg + nel_in_blk[blk])
+                elbeg += nel_in_blk[blk++];
+              if (shell_blk[blk]) {
+                lfnum -= 2;
+                if (lfnum < 0) {
+                  MSTK_Report(funcname,"Ignoring face of shell in sideset",
+                              MSTK_WARN);
+                  List_Delete(fedges);
+                  continue;
+                }
+              }
               
               /* Since we made the faces of the region according the
                  convention that Exodus II uses, the local face number
@@ -1912,6 +1931,7 @@ extern "C" {
       }
 
       free(elem_map);
+      free(shell_blk);
     } /* ndim = 3 */
 
 
-- 
2.43.0


From d6e5fd84eb629619f466b147f55446f4fb97a0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:35 +0000
Subject: [PATCH 099/101] fix: quadratic elements in Exodus II files are left
 out or read as wrong cells

Blocks of higher order solid elements were skipped with a warning (or, by
the partial reader, read nevertheless) and the import reported success;
higher order surface elements were taken for polygons with their nodes in
the wrong order. Such files are refused now.
---
 src/io/ExodusII_GetElementGraph.c  |  9 +++------
 src/io/MESH_ReadExodusII_Partial.c | 15 ++++++++++++---
 src/io/MESH_ReadExodusII_Serial.c  | 26 +++++++++++++++++---------
 3 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/io/ExodusII_GetElementGraph.c b/src/io/ExodusII_GetElementGraph.c
index 5168b82..90d15a3 100644
--- a/src/io/ExodusII_GetElementGraph.c
+++ b/src/io/ExodusII_GetElementGraph.c
@@ -604,24 +604,21 @@ extern "C" {
 	  eltype = 0;
 	  nrf = 4;
 	  if (nelnodes > 4) {
-	    MSTK_Report(funcname,"Higher order tets not supported",MSTK_WARN);
-	    continue;
+	    MSTK_Report(funcname,"Higher order tets not supported",MSTK_FATAL);
 	  }
 	}
 	else if (strncasecmp(elem_type,"WEDGE",5) == 0) {
 	  eltype = 1;
 	  nrf = 5;
 	  if (nelnodes > 6) {
-	    MSTK_Report(funcname,"Higher order prisms/wedges not supported",MSTK_WARN);
-	    continue;
+	    MSTK_Report(funcname,"Higher order prisms/wedges not supported",MSTK_FATAL);
 	  }
 	}
 	else if (strncasecmp(elem_type,"HEX",3) == 0) {
 	  eltype = 2;
 	  nrf = 6;
 	  if (nelnodes > 8) {
-	    MSTK_Report(funcname,"Higher order hexes not supported",MSTK_WARN);
-	    continue;
+	    MSTK_Report(funcname,"Higher order hexes not supported",MSTK_FATAL);
 	  }
 	}
 	else {
diff --git a/src/io/MESH_ReadExodusII_Partial.c b/src/io/MESH_ReadExodusII_Partial.c
index 72f9b5d..b0327c6 100644
--- a/src/io/MESH_ReadExodusII_Partial.c
+++ b/src/io/MESH_ReadExodusII_Partial.c
@@ -205,6 +205,15 @@ extern "C" {
       elstart += elblock_nelems[b];
 
       elblock_itype[b] = -1;  /* need this only for tets, prisms and hexes */
+      if (elblock_nelems[b] &&
+	  ((strncasecmp(elblock_type[b],"TRI",3) == 0 &&
+	    elblock_nelnodes[b] > 3) ||
+	   ((strncasecmp(elblock_type[b],"QUAD",4) == 0 ||
+	     strncasecmp(elblock_type[b],"SHELL",5) == 0) &&
+	    elblock_nelnodes[b] > 4)))
+	MSTK_Report(funcname,"Higher order surface elements not supported",
+		    MSTK_FATAL);
+
       if (ndim == 3) {
 	if (strncasecmp(elblock_type[b],"NSIDED",6) == 0 ||
 	    strncasecmp(elblock_type[b],"TRI",3) == 0 ||
@@ -218,17 +227,17 @@ extern "C" {
 	      elblock_itype[b] = 0;
 	      if (elblock_nelnodes[b] > 4)
 		MSTK_Report(funcname,"Higher order tets not supported",
-			    MSTK_WARN);
+			    MSTK_FATAL);
 	  } else if (strncasecmp(elblock_type[b],"WEDGE",5) == 0) {
 	    elblock_itype[b] = 1;
 	    if (elblock_nelnodes[b] > 6)
 	      MSTK_Report(funcname,"Higher order prisms/wedges not supported",
-			  MSTK_WARN);
+			  MSTK_FATAL);
 	  } else if (strncasecmp(elblock_type[b],"HEX",3) == 0) {
 	    elblock_itype[b] = 2;
 	    if (elblock_nelnodes[b] > 8)
 	      MSTK_Report(funcname,"Higher order hexes not supported",
-			  MSTK_WARN);
+			  MSTK_FATAL);
 	  } else {
             if (strncasecmp(elblock_type[b],"NFACED",6) != 0) {
               snprintf(mesg,sizeof(mesg),"Unrecognized or unsupported solid element type: %s",
diff --git a/src/io/MESH_ReadExodusII_Serial.c b/src/io/MESH_ReadExodusII_Serial.c
index 5eedbfa..a5626f3 100644
--- a/src/io/MESH_ReadExodusII_Serial.c
+++ b/src/io/MESH_ReadExodusII_Serial.c
@@ -488,7 +488,13 @@ extern "C" {
 
         }
         else {
-	
+
+          if (nel_in_blk[i] &&
+              ((strncasecmp(elem_type,"TRI",3) == 0 && nelnodes > 3) ||
+               (strncasecmp(elem_type,"QUAD",4) == 0 && nelnodes > 4)))
+            MSTK_Report(funcname,"Higher order surface elements not supported",
+                        MSTK_FATAL);
+
           /* Get the connectivity of all elements in this block */
 
           connect = (int *) calloc(nelnodes*nel_in_blk[i],sizeof(int));
@@ -914,32 +920,28 @@ extern "C" {
             eltype = 0;
             nrf = 4;
             if (nelnodes > 4) {
-              MSTK_Report(funcname,"Higher order tets not supported",MSTK_WARN);
-              continue;
+              MSTK_Report(funcname,"Higher order tets not supported",MSTK_FATAL);
             }
           }
           else if (strncasecmp(elem_type,"WEDGE",5) == 0) {
             eltype = 1;
             nrf = 5;
             if (nelnodes > 6) {
-              MSTK_Report(funcname,"Higher order prisms/wedges not supported",MSTK_WARN);
-              continue;
+              MSTK_Report(funcname,"Higher order prisms/wedges not supported",MSTK_FATAL);
             }
           }
           else if (strncasecmp(elem_type,"PYRAMID",7) == 0) {
             eltype = 2;
             nrf = 5;
             if (nelnodes > 5) {
-              MSTK_Report(funcname,"Higher order pyramids not supported",MSTK_WARN);
-              continue;
+              MSTK_Report(funcname,"Higher order pyramids not supported",MSTK_FATAL);
             }
           }
           else if (strncasecmp(elem_type,"HEX",3) == 0) {
             eltype = 3;
             nrf = 6;
             if (nelnodes > 8) {
-              MSTK_Report(funcname,"Higher order hexes not supported",MSTK_WARN);
-              continue;
+              MSTK_Report(funcname,"Higher order hexes not supported",MSTK_FATAL);
             }
           }
           else {
@@ -1142,6 +1144,12 @@ extern "C" {
         else if (strncasecmp(elem_type,"TRI",3) == 0 ||
                  strncasecmp(elem_type,"QUAD",4) == 0 ||
                  strncasecmp(elem_type,"SHELL",5) == 0) {
+
+          if (nel_in_blk[i] &&
+              ((strncasecmp(elem_type,"TRI",3) == 0 && nelnodes > 3) ||
+               nelnodes > 4))
+            MSTK_Report(funcname,"Higher order surface elements not supported",
+                        MSTK_FATAL);
 	
           /* Get the connectivity of all elements in this block */
 	
-- 
2.43.0


From fd0867900d5f35c1abe18c4f894fc0e14cfc5c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:31 +0000
Subject: [PATCH 100/101] fix: several processes cannot import an Exodus II
 file with an empty element block

A block without elements has no type that could be recognised.
---
 src/io/MESH_ReadExodusII_Partial.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/MESH_ReadExodusII_Partial.c b/src/io/MESH_ReadExodusII_Partial.c
index b0327c6..c9ce731 100644
--- a/src/io/MESH_ReadExodusII_Partial.c
+++ b/src/io/MESH_ReadExodusII_Partial.c
@@ -214,7 +214,7 @@ extern "C" {
 	MSTK_Report(funcname,"Higher order surface elements not supported",
 		    MSTK_FATAL);
 
-      if (ndim == 3) {
+      if (ndim == 3 && elblock_nelems[b]) { /* empty blocks have no type */
 	if (strncasecmp(elblock_type[b],"NSIDED",6) == 0 ||
 	    strncasecmp(elblock_type[b],"TRI",3) == 0 ||
 	    strncasecmp(elblock_type[b],"QUAD",4) == 0 ||
-- 
2.43.0


From d0eab138eb8722cd7495db4442125c3c7da81986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:57 +0000
Subject: [PATCH 101/101] fix: exoatt accepts files of attributes and sets that
 end within a heading

---
 utils/exoatt/src/exoatt.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/utils/exoatt/src/exoatt.c b/utils/exoatt/src/exoatt.c
index 5654e0f..9160ba5 100644
--- a/utils/exoatt/src/exoatt.c
+++ b/utils/exoatt/src/exoatt.c
@@ -277,12 +277,14 @@ void import_attributes(Mesh_ptr mesh, char *attfname) {
   }
 
   status = fscanf(fp,"%d",&natt);
-  if (status == EOF)
+  if (status != 1)
     MSTK_Report(progname,"Attributes file ended prematurely",MSTK_FATAL);
 
   for (i = 0; i < natt; ++i) {
 
     status = fscanf(fp,"%s %s %d\n",attname,typestr,&nent);
+    if (status != 3)
+      MSTK_Report(progname,"Attributes file ended prematurely",MSTK_FATAL);
 
     fprintf(stderr,"\nCreating %s attribute %s\n",typestr,attname);
 
@@ -292,7 +294,7 @@ void import_attributes(Mesh_ptr mesh, char *attfname) {
       if (nent == -1) { /* data specified on the whole mesh */
 	for (j = 0; j < nvertglobal; j++) {
           status = fscanf(fp,"%lf",&attval);
-          if (status == EOF)
+          if (status != 1)
             MSTK_Report(progname,"Attributes file ended prematurely",MSTK_FATAL);
 	  mv = (nprocs > 1) ? MESH_VertexFromGlobalID(mesh,j+1) : MESH_Vertex(mesh,j);
 	  if (mv)
@@ -324,7 +326,7 @@ void import_attributes(Mesh_ptr mesh, char *attfname) {
         if (nent == -1) { /* data specified on the whole mesh */
 	  for (j = 0; j < ncellglobal; j++) {
             status = fscanf(fp,"%lf",&attval);
-            if (status == EOF)
+            if (status != 1)
               MSTK_Report(progname,"Attributes file ended prematurely",MSTK_FATAL);
 	    mr = (nprocs > 1) ? MESH_RegionFromGlobalID(mesh,j+1) :
                 MESH_Region(mesh,j);
@@ -356,7 +358,7 @@ void import_attributes(Mesh_ptr mesh, char *attfname) {
         if (nent == -1) { /* data specified on the whole mesh */
           for (j = 0; j < ncellglobal; j++) {
             status = fscanf(fp,"%lf",&attval);
-            if (status == EOF)
+            if (status != 1)
               MSTK_Report(progname,"Attributes file ended prematurely",MSTK_FATAL);
             mf = (nprocs > 1) ? MESH_FaceFromGlobalID(mesh,j+1) : MESH_Face(mesh,j);
             if (mf)
@@ -437,7 +439,7 @@ void import_sets(Mesh_ptr mesh, char *setfname) {
   }
 
   status = fscanf(fp,"%d",&nset);
-  if (status == EOF)
+  if (status != 1)
     MSTK_Report(progname,"Entity sets file ended prematurely",MSTK_FATAL);
 
   celldim = MESH_Num_Regions(mesh) ? 3 : 2;
@@ -445,6 +447,8 @@ void import_sets(Mesh_ptr mesh, char *setfname) {
   for (i = 0; i < nset; ++i) {
 
     status = fscanf(fp,"%d %s %d\n",&setid,typestr,&nent);
+    if (status != 3)
+      MSTK_Report(progname,"Entity sets file ended prematurely",MSTK_FATAL);
     
     if (strcasecmp(typestr,"NODE") == 0) {
 
@@ -457,7 +461,7 @@ void import_sets(Mesh_ptr mesh, char *setfname) {
         MSTK_Report(progname,"Number of entities in set must be greater than zero",MSTK_FATAL);
       for (j = 0; j < nent; ++j) {
         status = fscanf(fp,"%d",&entid);
-        if (status == EOF)
+        if (status != 1)
           MSTK_Report(progname,"Entity sets file ended prematurely",MSTK_FATAL);
         
         mv = (nprocs > 1) ? MESH_VertexFromGlobalID(mesh,entid) : MESH_VertexFromID(mesh,entid);
@@ -489,12 +493,12 @@ void import_sets(Mesh_ptr mesh, char *setfname) {
           int face_verts[MAXPV2];
 
           status = fscanf(fp,"%d",&num_face_verts);
-          if (status == EOF)
+          if (status != 1)
             MSTK_Report(progname,"Entity sets file ended prematurely",MSTK_FATAL);
 
           for (k = 0; k < num_face_verts; k++) {
             status = fscanf(fp,"%d",&(face_verts[k]));
-            if (status == EOF)
+            if (status != 1)
               MSTK_Report(progname,"Entity sets file ended prematurely",MSTK_FATAL);
           }
           
@@ -555,7 +559,7 @@ void import_sets(Mesh_ptr mesh, char *setfname) {
           MSTK_Report(progname,"Number of entities in set must be non-zero",MSTK_FATAL);
         for (j = 0; j < nent; ++j) {
           status = fscanf(fp,"%d",&entid);
-          if (status == EOF)
+          if (status != 1)
             MSTK_Report(progname,"Entity sets file ended prematurely",MSTK_FATAL);
           
           mr = (nprocs > 1) ? MESH_RegionFromGlobalID(mesh,entid) :
@@ -577,7 +581,7 @@ void import_sets(Mesh_ptr mesh, char *setfname) {
           MSTK_Report(progname,"Number of entities in set must be non-zero",MSTK_FATAL);
         for (j = 0; j < nent; ++j) {
           status = fscanf(fp,"%d",&entid);
-          if (status == EOF)
+          if (status != 1)
             MSTK_Report(progname,"Entity sets file ended prematurely",MSTK_FATAL);
           
           mf = (nprocs > 1) ? MESH_FaceFromGlobalID(mesh,entid) :
-- 
2.43.0

