From f25b65000b0851c68244152a1b17f50e0f61eac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:15 +0000
Subject: [PATCH 01/76] fix: block partitioner must not abort if parts at the
 end stay empty

---
 src/partitioner.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/partitioner.c b/src/partitioner.c
index a285f7c..1474a71 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -616,7 +616,8 @@ void runBlockPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
         }
         if ((task+1 == count) && (cycle+1 == cycles)) break;
     }
-    assert((task+1 == count) && (cycle+1 == cycles));
+    // the remaining indexes go to the current task. With fewer indexes than
+    // parts or small weights at the end, further parts stay empty
     range.to.i[pdim] = s->range.to.i[pdim];
     laik_append_range(r, task, &range, 0, 0);
 }
-- 
2.43.0


From dd5342effe1948437d3224861794b8078f6b5ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:15 +0000
Subject: [PATCH 02/76] fix: bisection partitioner must not create empty ranges

---
 src/partitioner.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/partitioner.c b/src/partitioner.c
index 1474a71..a1eac9d 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -407,6 +407,7 @@ static void doBisection(Laik_RangeReceiver* r, Laik_PartitionerParams* p,
     // split set of tasks and width into two parts, do recursion
     int midTask = (fromTask + toTask)/2;
     w = width * (midTask-fromTask) / (toTask - fromTask);
+    if (w == 0) w = 1; // never create empty ranges
     Laik_Range s1 = *s, s2 = *s;
     s1.to.i[splitDim] = s->from.i[splitDim] + w;
     s2.from.i[splitDim] = s->from.i[splitDim] + w;
-- 
2.43.0


From bfde092fe61928f029bc19d68d5d1e81378c3e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:15 +0000
Subject: [PATCH 03/76] fix: grid partitioner must cover the space independent
 of rounding

---
 src/partitioner.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/partitioner.c b/src/partitioner.c
index a1eac9d..e0bd9ae 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -446,9 +446,9 @@ void runGridPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
     assert(p->group->size >= blocks);
 
     Laik_Range* ss = &(p->space->range);
-    double xStep = (ss->to.i[0] - ss->from.i[0]) / (double) data->xblocks;
-    double yStep = (ss->to.i[1] - ss->from.i[1]) / (double) data->yblocks;
-    double zStep = (ss->to.i[2] - ss->from.i[2]) / (double) data->zblocks;
+    int64_t xSize = ss->to.i[0] - ss->from.i[0];
+    int64_t ySize = ss->to.i[1] - ss->from.i[1];
+    int64_t zSize = ss->to.i[2] - ss->from.i[2];
 
     Laik_Range range;
     int64_t from, to;
@@ -456,24 +456,24 @@ void runGridPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
     range.space = p->space;
     int task = 0;
     for(int z = 0; z < data->zblocks; z++) {
-        from = ss->from.i[2] + z * zStep;
-        to   = ss->from.i[2] + (z+1) * zStep;
+        from = ss->from.i[2] + z * zSize / data->zblocks;
+        to   = ss->from.i[2] + (z+1) * zSize / data->zblocks;
         if (from == to) continue;
         if (to > ss->to.i[2]) to = ss->to.i[2];
         range.from.i[2] = from;
         range.to.i[2]   = to;
 
         for(int y = 0; y < data->yblocks; y++) {
-            from = ss->from.i[1] + y * yStep;
-            to   = ss->from.i[1] + (y+1) * yStep;
+            from = ss->from.i[1] + y * ySize / data->yblocks;
+            to   = ss->from.i[1] + (y+1) * ySize / data->yblocks;
             if (from == to) continue;
             if (to > ss->to.i[1]) to = ss->to.i[1];
             range.from.i[1] = from;
             range.to.i[1]   = to;
 
             for(int x = 0; x < data->xblocks; x++) {
-                from = ss->from.i[0] + x * xStep;
-                to   = ss->from.i[0] + (x+1) * xStep;
+                from = ss->from.i[0] + x * xSize / data->xblocks;
+                to   = ss->from.i[0] + (x+1) * xSize / data->xblocks;
                 if (from == to) continue;
                 if (to > ss->to.i[0]) to = ss->to.i[0];
                 range.from.i[0] = from;
-- 
2.43.0


From c4deca40c39001482f559973707151fcc1324573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:28 +0000
Subject: [PATCH 04/76] fix: halo partitioner must clip halos at the space
 border, not drop them

---
 src/partitioner.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/partitioner.c b/src/partitioner.c
index e0bd9ae..3eb3de9 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -312,43 +312,55 @@ void runHaloPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
         Laik_Range range = *s;
         laik_append_range(r, task, &range, tag, 0);
 
-        if (range.from.i[0] > sp.from.i[0] + depth) {
+        if (range.from.i[0] > sp.from.i[0]) {
             range.to.i[0] = range.from.i[0];
             range.from.i[0] -= depth;
+            if (range.from.i[0] < sp.from.i[0])
+                range.from.i[0] = sp.from.i[0];
             laik_append_range(r, task, &range, tag, 0);
         }
         range = *s;
-        if (range.to.i[0] < sp.to.i[0] - depth) {
+        if (range.to.i[0] < sp.to.i[0]) {
             range.from.i[0] = range.to.i[0];
             range.to.i[0] += depth;
+            if (range.to.i[0] > sp.to.i[0])
+                range.to.i[0] = sp.to.i[0];
             laik_append_range(r, task, &range, tag, 0);
         }
 
         if (dims > 1) {
             range = *s;
-            if (range.from.i[1] > sp.from.i[1] + depth) {
+            if (range.from.i[1] > sp.from.i[1]) {
                 range.to.i[1] = range.from.i[1];
                 range.from.i[1] -= depth;
+                if (range.from.i[1] < sp.from.i[1])
+                    range.from.i[1] = sp.from.i[1];
                 laik_append_range(r, task, &range, tag, 0);
             }
             range = *s;
-            if (range.to.i[1] < sp.to.i[1] - depth) {
+            if (range.to.i[1] < sp.to.i[1]) {
                 range.from.i[1] = range.to.i[1];
                 range.to.i[1] += depth;
+                if (range.to.i[1] > sp.to.i[1])
+                    range.to.i[1] = sp.to.i[1];
                 laik_append_range(r, task, &range, tag, 0);
             }
 
             if (dims > 2) {
                 range = *s;
-                if (range.from.i[2] > sp.from.i[2] + depth) {
+                if (range.from.i[2] > sp.from.i[2]) {
                     range.to.i[2] = range.from.i[2];
                     range.from.i[2] -= depth;
+                    if (range.from.i[2] < sp.from.i[2])
+                        range.from.i[2] = sp.from.i[2];
                     laik_append_range(r, task, &range, tag, 0);
                 }
                 range = *s;
-                if (range.to.i[2] < sp.to.i[2] - depth) {
+                if (range.to.i[2] < sp.to.i[2]) {
                     range.from.i[2] = range.to.i[2];
                     range.to.i[2] += depth;
+                    if (range.to.i[2] > sp.to.i[2])
+                        range.to.i[2] = sp.to.i[2];
                     laik_append_range(r, task, &range, tag, 0);
                 }
             }
-- 
2.43.0


From 4176e6b798cd94aa9cebbf9758560bd2a9c44a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 05/76] fix: laik_get_map_addr must use allocation start as
 base for layout offsets

---
 src/data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data.c b/src/data.c
index fb077bd..e857eec 100644
--- a/src/data.c
+++ b/src/data.c
@@ -1412,7 +1412,7 @@ char* laik_get_map_addr(Laik_Data* d, int n, Laik_Index* idx)
     if (!m) return 0;
 
     int64_t off = laik_offset(m->layout, m->layoutSection, idx);
-    return m->base + off * d->elemsize;
+    return m->start + off * d->elemsize;
 }
 
 
-- 
2.43.0


From c65b51a8f6a7430af40f55aaa0fc3366b418ca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 06/76] fix: copy/pack/unpack of lexicographical layout must
 use strides of the own section

---
 src/layout_lex.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/layout_lex.c b/src/layout_lex.c
index 6f7d429..0285dbc 100644
--- a/src/layout_lex.c
+++ b/src/layout_lex.c
@@ -180,8 +180,8 @@ void copy_lex(Laik_Range* range,
     Laik_Layout_Lex* toLayout = laik_is_layout_lex(to->layout);
     assert(fromLayout != 0);
     assert(toLayout != 0);
-    Lex_Entry* fromLayoutEntry = &(fromLayout->e[0]);
-    Lex_Entry* toLayoutEntry = &(toLayout->e[0]);
+    Lex_Entry* fromLayoutEntry = &(fromLayout->e[from->layoutSection]);
+    Lex_Entry* toLayoutEntry = &(toLayout->e[to->layoutSection]);
 
     unsigned int elemsize = from->data->elemsize;
     assert(elemsize == to->data->elemsize);
@@ -239,7 +239,7 @@ unsigned int pack_lex(Laik_Mapping* m, Laik_Range* s,
 {
     unsigned int elemsize = m->data->elemsize;
     Laik_Layout_Lex* layout = laik_is_layout_lex(m->layout);
-    Lex_Entry* layoutEntry = &(layout->e[0]);
+    Lex_Entry* layoutEntry = &(layout->e[m->layoutSection]);
     int dims = m->layout->dims;
 
     if (laik_index_isEqual(dims, idx, &(s->to))) {
@@ -362,7 +362,7 @@ unsigned int unpack_lex(Laik_Mapping* m, Laik_Range* s,
 {
     unsigned int elemsize = m->data->elemsize;
     Laik_Layout_Lex* layout = laik_is_layout_lex(m->layout);
-    Lex_Entry* layoutEntry = &(layout->e[0]);
+    Lex_Entry* layoutEntry = &(layout->e[m->layoutSection]);
     int dims = m->layout->dims;
 
     // there should be something to unpack
-- 
2.43.0


From b79fc8985b38a4ca83e6b13a688d837a8019bb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:44 +0000
Subject: [PATCH 07/76] fix: in 2d/3d, receive order of a transition must match
 send order of peer

---
 src/space.c | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/space.c b/src/space.c
index 9fc04e2..b5626a8 100644
--- a/src/space.c
+++ b/src/space.c
@@ -1481,25 +1481,27 @@ do_calc_transition(Laik_Space* space,
             else { // no reduction
 
                 // something to receive not coming from a reduction?
+                // (go over ranges in same order as sender does below, as
+                //  messages between two tasks have to match in order)
                 for(int task = 0; task < taskCount; task++) {
                     if (task == myid) continue;
-                    for(o1 = toRL->off[myid]; o1 < toRL->off[myid+1]; o1++) {
-
-                        // everything we have local will not have been sent
-                        // TODO: we only check for exact match to catch All
-                        // FIXME: should print out a Warning/Error as the App
-                        //        was requesting for overwriting of values!
-                        range = &(toRL->trange[o1].range);
-                        for(o2 = fromRL->off[myid]; o2 < fromRL->off[myid+1]; o2++) {
-                            if (laik_range_isEqual(range,
-                                                   &(fromRL->trange[o2].range))) {
-                                range = 0;
-                                break;
+                    for(o2 = fromRL->off[task]; o2 < fromRL->off[task+1]; o2++) {
+                        for(o1 = toRL->off[myid]; o1 < toRL->off[myid+1]; o1++) {
+
+                            // everything we have local will not have been sent
+                            // TODO: we only check for exact match to catch All
+                            // FIXME: should print out a Warning/Error as the App
+                            //        was requesting for overwriting of values!
+                            range = &(toRL->trange[o1].range);
+                            unsigned int o3;
+                            for(o3 = fromRL->off[myid]; o3 < fromRL->off[myid+1]; o3++) {
+                                if (laik_range_isEqual(range,
+                                                       &(fromRL->trange[o3].range))) {
+                                    range = 0;
+                                    break;
+                                }
                             }
-                        }
-                        if (range == 0) continue;
-
-                        for(o2 = fromRL->off[task]; o2 < fromRL->off[task+1]; o2++) {
+                            if (range == 0) continue;
 
                             range = laik_range_intersect(&(fromRL->trange[o2].range),
                                                        &(toRL->trange[o1].range));
-- 
2.43.0


From eaf44ffcb4965ca4444c03647d40505d1abeabed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:17 +0000
Subject: [PATCH 08/76] fix: order of range borders must be correct for
 distances larger than 2^31

---
 src/space.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/space.c b/src/space.c
index b5626a8..cd8a417 100644
--- a/src/space.c
+++ b/src/space.c
@@ -833,7 +833,8 @@ static int rb_cmp(const void *p1, const void *p2)
     if (sb1->b == sb2->b) {
         return sb1->isStart - sb2->isStart;
     }
-    return sb1->b - sb2->b;
+    // difference may not fit into int
+    return (sb1->b < sb2->b) ? -1 : 1;
 
 }
 
-- 
2.43.0


From fe3d194fba499f8d8f67026e1db1f22038a18e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:17 +0000
Subject: [PATCH 09/76] fix: description of layouts with many maps must not
 overflow its buffer

---
 src/layout_lex.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/layout_lex.c b/src/layout_lex.c
index 0285dbc..6d7acb1 100644
--- a/src/layout_lex.c
+++ b/src/layout_lex.c
@@ -123,6 +123,11 @@ char* describe_lex(Laik_Layout* l)
     o = sprintf(s, "lex (%dd, %d maps, strides ",
                 l->dims, l->map_count);
     for(int i = 0; i < l->map_count; i++) {
+        if (o > 120) {
+            // not enough space left in buffer for strides of further maps
+            o += sprintf(s+o, ", ...");
+            break;
+        }
         Lex_Entry* e = &(ll->e[i]);
         o += sprintf(s+o, "%s%llu/%llu/%llu",
              (i == 0) ? "":", ",
-- 
2.43.0


From 54ec8de720b3bb8ef176dc313f770bfb74d77b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:31 +0000
Subject: [PATCH 10/76] fix: neutral elements of min and max reductions were
 swapped

---
 src/type.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/type.c b/src/type.c
index d55f755..7027f97 100644
--- a/src/type.c
+++ b/src/type.c
@@ -63,8 +63,8 @@ void laik_char_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = ~0; break;
-    case LAIK_RO_Min:  v = INT8_MIN; break;
-    case LAIK_RO_Max:  v = INT8_MAX; break;
+    case LAIK_RO_Min:  v = INT8_MAX; break;
+    case LAIK_RO_Max:  v = INT8_MIN; break;
     default:
         assert(0);
     }
@@ -139,8 +139,8 @@ void laik_uchar_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = 255; break;
-    case LAIK_RO_Min:  v = 0; break;
-    case LAIK_RO_Max:  v = UINT8_MAX; break;
+    case LAIK_RO_Min:  v = UINT8_MAX; break;
+    case LAIK_RO_Max:  v = 0; break;
     default:
         assert(0);
     }
@@ -214,8 +214,8 @@ void laik_int32_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = ~0; break;
-    case LAIK_RO_Min:  v = INT32_MIN; break;
-    case LAIK_RO_Max:  v = INT32_MAX; break;
+    case LAIK_RO_Min:  v = INT32_MAX; break;
+    case LAIK_RO_Max:  v = INT32_MIN; break;
     default:
         assert(0);
     }
@@ -289,8 +289,8 @@ void laik_uint32_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = ~0; break;
-    case LAIK_RO_Min:  v = 0; break;
-    case LAIK_RO_Max:  v = UINT32_MAX; break;
+    case LAIK_RO_Min:  v = UINT32_MAX; break;
+    case LAIK_RO_Max:  v = 0; break;
     default:
         assert(0);
     }
@@ -364,8 +364,8 @@ void laik_int64_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0l; break;
     case LAIK_RO_Prod: v = 1l; break;
     case LAIK_RO_And:  v = ~0l; break;
-    case LAIK_RO_Min:  v = INT64_MIN; break;
-    case LAIK_RO_Max:  v = INT64_MAX; break;
+    case LAIK_RO_Min:  v = INT64_MAX; break;
+    case LAIK_RO_Max:  v = INT64_MIN; break;
     default:
         assert(0);
     }
@@ -439,8 +439,8 @@ void laik_uint64_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0l; break;
     case LAIK_RO_Prod: v = 1l; break;
     case LAIK_RO_And:  v = ~0l; break;
-    case LAIK_RO_Min:  v = 0; break;
-    case LAIK_RO_Max:  v = UINT64_MAX; break;
+    case LAIK_RO_Min:  v = UINT64_MAX; break;
+    case LAIK_RO_Max:  v = 0; break;
     default:
         assert(0);
     }
@@ -512,8 +512,8 @@ void laik_double_init(void* base, int count, Laik_ReductionOperation o)
     switch(o) {
     case LAIK_RO_Sum:  v = 0.0; break;
     case LAIK_RO_Prod: v = 1.0; break;
-    case LAIK_RO_Min:  v = -DBL_MAX; break;
-    case LAIK_RO_Max:  v = DBL_MAX; break;
+    case LAIK_RO_Min:  v = DBL_MAX; break;
+    case LAIK_RO_Max:  v = -DBL_MAX; break;
     default:
         assert(0);
     }
@@ -575,8 +575,8 @@ void laik_float_init(void* base, int count, Laik_ReductionOperation o)
     switch(o) {
     case LAIK_RO_Sum:  v = 0.0; break;
     case LAIK_RO_Prod: v = 1.0; break;
-    case LAIK_RO_Min:  v = -FLT_MAX; break;
-    case LAIK_RO_Max:  v = FLT_MAX; break;
+    case LAIK_RO_Min:  v = FLT_MAX; break;
+    case LAIK_RO_Max:  v = -FLT_MAX; break;
     default:
         assert(0);
     }
-- 
2.43.0


From 91ddad91fd68c89f8bfab14831746d95701f2021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:31 +0000
Subject: [PATCH 11/76] fix: reduction without input must initialise elements
 of its own type

---
 src/type.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/type.c b/src/type.c
index 7027f97..8775c24 100644
--- a/src/type.c
+++ b/src/type.c
@@ -159,7 +159,7 @@ void laik_uchar_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(unsigned char));
         else
-            laik_char_init(out, count, o);
+            laik_uchar_init(out, count, o);
         return;
     }
 
@@ -234,7 +234,7 @@ void laik_int32_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(int32_t));
         else
-            laik_char_init(out, count, o);
+            laik_int32_init(out, count, o);
         return;
     }
 
@@ -309,7 +309,7 @@ void laik_uint32_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(uint32_t));
         else
-            laik_char_init(out, count, o);
+            laik_uint32_init(out, count, o);
         return;
     }
 
@@ -384,7 +384,7 @@ void laik_int64_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(int64_t));
         else
-            laik_char_init(out, count, o);
+            laik_int64_init(out, count, o);
         return;
     }
 
@@ -459,7 +459,7 @@ void laik_uint64_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(uint64_t));
         else
-            laik_char_init(out, count, o);
+            laik_uint64_init(out, count, o);
         return;
     }
 
-- 
2.43.0


From 172be727a48847650a59e12a73d306f25f52c78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:31 +0000
Subject: [PATCH 12/76] fix: and/or reductions are bitwise, also if done by MPI

---
 src/backend-mpi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index b0e9cbb..34669af 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -462,8 +462,8 @@ MPI_Op getMPIOp(Laik_ReductionOperation redOp)
     case LAIK_RO_Prod: mpiRedOp = MPI_PROD; break;
     case LAIK_RO_Min:  mpiRedOp = MPI_MIN; break;
     case LAIK_RO_Max:  mpiRedOp = MPI_MAX; break;
-    case LAIK_RO_And:  mpiRedOp = MPI_LAND; break;
-    case LAIK_RO_Or:   mpiRedOp = MPI_LOR; break;
+    case LAIK_RO_And:  mpiRedOp = MPI_BAND; break;
+    case LAIK_RO_Or:   mpiRedOp = MPI_BOR; break;
     default: assert(0);
     }
     return mpiRedOp;
-- 
2.43.0


From 3e53ae1df75be82fb5a8aa91f0245563d4d750fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:00 +0000
Subject: [PATCH 13/76] fix: initialisation of mappings must use 64-bit indexes

---
 src/data.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/data.c b/src/data.c
index e857eec..190f095 100644
--- a/src/data.c
+++ b/src/data.c
@@ -715,9 +715,9 @@ void initMaps(Laik_Transition* t,
         assert(dims == 1); // only for 1d now
         Laik_Data* d = toMap->data;
         Laik_Range* s = &(op->range);
-        int from = s->from.i[0];
-        int to = s->to.i[0];
-        int elemCount = to - from;
+        int64_t from = s->from.i[0];
+        int64_t to = s->to.i[0];
+        int64_t elemCount = to - from;
 
         char* toBase = toMap->base;
         assert(from >= toMap->requiredRange.from.i[0]);
@@ -735,8 +735,9 @@ void initMaps(Laik_Transition* t,
             assert(0);
         }
 
-        laik_log(1, "init map for '%s' range/map %d/%d: %d entries in [%d;%d[ from %p\n",
-                 d->name, op->rangeNo, op->mapNo, elemCount, from, to, (void*) toBase);
+        laik_log(1, "init map for '%s' range/map %d/%d: %lld entries in [%lld;%lld[ from %p\n",
+                 d->name, op->rangeNo, op->mapNo, (long long) elemCount,
+                 (long long) from, (long long) to, (void*) toBase);
     }
 }
 
-- 
2.43.0


From f2cffb1ad1c2b99e3f30d7623317c5b1af5fbc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:37 +0000
Subject: [PATCH 14/76] fix: MPI backend must complete sends before data to
 send may be overwritten

---
 src/backend-mpi.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index 34669af..ad825e9 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -212,7 +212,7 @@ bool laik_mpi_log_action(Laik_Action* a)
 }
 
 // transformation: split send/recv actions into isend/irecv + wait
-// - replace send with isend and wait for completion at end
+// - replace send with isend and wait for completion at end of the round
 // - replace recv with irecv at begin and wait at original position
 bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
 {
@@ -220,19 +220,19 @@ bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
     assert(as->newActionCount == 0);
 
     unsigned int count = 0;
-    int maxround = 0;
     Laik_Action* a = as->action;
     for(unsigned int i = 0; i < as->actionCount; i++, a = nextAction(a)) {
-        if (a->round > maxround) maxround = a->round;
         if ((a->type == LAIK_AT_BufRecv) || (a->type == LAIK_AT_BufSend))
             count++;
     }
 
     if (count == 0) return false;
 
-    // add 2 new rounds: 0 and maxround+2
-    // - round 0 gets MpiReq and all MpiIrecv actions
-    // - round maxround+2 gets Waits from MpiISend actions
+    // add a new round 0 for MpiReq and all MpiIrecv actions
+    //
+    // Waits for MpiISend actions are added at the end of the round of the
+    // sends: actions of later rounds (eg. local reductions) may overwrite
+    // the data to send. There is no deadlock, as receives are already posted
 
     MPI_Request* buf = malloc(count * sizeof(MPI_Request));
     laik_mpi_addMpiReq(as, 0, count, buf);
@@ -245,7 +245,6 @@ bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
             Laik_A_BufSend* aa = (Laik_A_BufSend*) a;
             laik_mpi_addMpiIsend(as, a->round + 1,
                                  aa->buf, aa->count, aa->to_rank, req_id);
-            laik_mpi_addMpiWait(as, maxround + 2, req_id);
             req_id++;
             break;
         }
@@ -267,6 +266,16 @@ bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
     }
     assert(count == (unsigned) req_id);
 
+    // req_ids are given in order of send/recv actions
+    req_id = 0;
+    a = as->action;
+    for(unsigned int i = 0; i < as->actionCount; i++, a = nextAction(a)) {
+        if (a->type == LAIK_AT_BufSend)
+            laik_mpi_addMpiWait(as, a->round + 1, req_id);
+        if ((a->type == LAIK_AT_BufRecv) || (a->type == LAIK_AT_BufSend))
+            req_id++;
+    }
+
     laik_aseq_activateNewActions(as);
     return true;
 }
-- 
2.43.0


From e356b0a93d037ccadbba006f542e765ec835254e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:11 +0000
Subject: [PATCH 15/76] fix: switch within a reservation must copy data between
 different mappings

---
 src/data.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/data.c b/src/data.c
index 190f095..7626037 100644
--- a/src/data.c
+++ b/src/data.c
@@ -554,9 +554,6 @@ void copyMaps(Laik_Transition* t,
     assert(fromList != 0);
     assert(toList != 0);
 
-    // no copy required if we stay in same reservation
-    if ((fromList->res != 0) && (fromList->res == toList->res)) return;
-
     for(int i = 0; i < t->localCount; i++) {
         struct localTOp* op = &(t->local[i]);
         assert(op->fromMapNo < fromList->count);
@@ -581,6 +578,10 @@ void copyMaps(Laik_Transition* t,
                  d->name, op->fromRangeNo, op->fromMapNo,
                  op->toRangeNo, op->toMapNo);
 
+        // no copy needed if both are in the same mapping of a reservation
+        if ((fromMap->baseMapping != 0) &&
+            (fromMap->baseMapping == toMap->baseMapping)) continue;
+
         // no copy needed if mapping reused
         if (fromMap->reusedFor == op->toMapNo) {
             // check that start address of source and destination is same
-- 
2.43.0


From bc877ff42947580ac31368eb9ae12949b38d670c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:38 +0000
Subject: [PATCH 16/76] fix: freeing a reservation must release its memory

---
 src/data.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data.c b/src/data.c
index 7626037..0bef7df 100644
--- a/src/data.c
+++ b/src/data.c
@@ -1176,6 +1176,10 @@ void laik_reservation_alloc(Laik_Reservation* res)
 
             initEmbeddedMapping(m, m->baseMapping);
 
+            // base mapping stays owner of the memory (freed with reservation)
+            m->baseMapping->allocator = m->allocator;
+            m->allocator = 0;
+
             if (laik_log_begin(1)) {
                 laik_log_append("  [%d] ", m->mapNo);
                 laik_log_Range(&(m->requiredRange));
-- 
2.43.0


From 623e19dff09607c50cbc5256b89ef3c902c18060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:33 +0000
Subject: [PATCH 17/76] fix: switching to no partitioning must not crash

---
 src/data.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data.c b/src/data.c
index 0bef7df..4e27ae4 100644
--- a/src/data.c
+++ b/src/data.c
@@ -791,7 +791,7 @@ void doTransition(Laik_Data* d, Laik_Transition* t, Laik_ActionSeq* as,
         // no transition to exec, just free old mappings
 
         // only free mappings if not part of a reservation
-        if (fromList->res == 0)
+        if (fromList && (fromList->res == 0))
             freeMappingList(fromList, d->stat);
         return;
     }
@@ -806,7 +806,8 @@ void doTransition(Laik_Data* d, Laik_Transition* t, Laik_ActionSeq* as,
     checkMapReuse(toList, fromList);
 
     // allocate space for mappings for which reuse is not possible
-    allocateMappings(toList, d->stat);
+    if (toList)
+        allocateMappings(toList, d->stat);
 
     bool doASeqCleanup = false;
     if (as) {
-- 
2.43.0


From 4a413c58c019f599d28f54fffead823fe7e395c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:55 +0000
Subject: [PATCH 18/76] fix: data container must not use a freed reservation

---
 src/data.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/data.c b/src/data.c
index 4e27ae4..fa7832e 100644
--- a/src/data.c
+++ b/src/data.c
@@ -957,7 +957,11 @@ void laik_reservation_free(Laik_Reservation* r)
 
     laik_log(1, "reservation '%s' (data '%s'): freed %llu bytes\n",
                  r->name, r->data->name, (unsigned long long) bytesFreed);
-                
+
+    // reservation can not be used any longer
+    if (r->data->activeReservation == r)
+        r->data->activeReservation = 0;
+
     free(r);
 }
 
-- 
2.43.0


From f8c89390f33a6efd3733858a4a5b9ab55cdba0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:30 +0000
Subject: [PATCH 19/76] fix: laik_get_map returns 0 for container without
 partitioning

As documented. Before, this aborted with a failing assertion.
---
 src/data.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data.c b/src/data.c
index fa7832e..2db2dc8 100644
--- a/src/data.c
+++ b/src/data.c
@@ -1457,6 +1457,9 @@ void laik_data_provide_memory(Laik_Data* d, void* start, uint64_t size)
 // get mapping of own partition into local memory for direct access
 Laik_Mapping* laik_get_map(Laik_Data* d, int n)
 {
+    // not mapped yet?
+    if (d->activePartitioning == 0) return 0;
+
     checkOwnParticipation(d);
 
     if ((n<0) || (n >= d->activeMappings->count))
-- 
2.43.0


From 48a895e372300c59be4c12baaaaf628456c4db3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:38 +0000
Subject: [PATCH 20/76] fix: memory provided by application for a mapping

It was ignored if memory of the mapping before could be reused. On the
other hand, it was used for a new mapping also if the mapping before still
used it, with both mappings then overwriting each other.
---
 src/data.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/data.c b/src/data.c
index 2db2dc8..1976466 100644
--- a/src/data.c
+++ b/src/data.c
@@ -332,6 +332,17 @@ Laik_Range* coveringRanges(int n, Laik_RangeList* list, int myid)
 // forward decl
 static void laik_map_set_allocation(Laik_Mapping*, char*, uint64_t, Laik_Allocator*);
 
+// is memory provided by application used by a current mapping?
+static
+bool usesProvidedMemory(Laik_Data* d)
+{
+    if (!d->activeMappings) return false;
+
+    for(int i = 0; i < d->activeMappings->count; i++)
+        if (d->activeMappings->map[i].start == d->map0_base) return true;
+    return false;
+}
+
 static
 Laik_MappingList* prepareMaps(Laik_Data* d, Laik_Partitioning* p)
 {
@@ -383,7 +394,7 @@ Laik_MappingList* prepareMaps(Laik_Data* d, Laik_Partitioning* p)
         m->layout = layout;       // all maps use same layout
         m->layoutSection = mapNo; // but different sections of it
 
-        if ((mapNo == 0) && (d->map0_base != 0)) {
+        if ((mapNo == 0) && (d->map0_base != 0) && !usesProvidedMemory(d)) {
             laik_log(1, "  using provided memory (%lld bytes at %p with layout %s)",
                      (unsigned long long int) d->map0_size, d->map0_base,
                      layout->describe(m->layout));
@@ -651,6 +662,7 @@ void checkMapReuse(Laik_MappingList* toList, Laik_MappingList* fromList)
 
     for(int i = 0; i < toList->count; i++) {
         Laik_Mapping* toMap = &(toList->map[i]);
+        if (toMap->base) continue; // memory provided by application
 
         Laik_Mapping* fromMap = 0;
         int sNo;
-- 
2.43.0


From cd8fb43d7400b0e8542c682697f0c0cebb78ef82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:38 +0000
Subject: [PATCH 21/76] fix: laik_free returns memory and removes container
 from instance

The memory of mappings was never returned to the allocator, and
laik_finalize accessed freed containers when printing statistics.
---
 include/laik/core-internal.h |  1 +
 src/core.c                   | 11 +++++++++++
 src/data.c                   |  6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/include/laik/core-internal.h b/include/laik/core-internal.h
index 7b3d204..1ad9b70 100644
--- a/include/laik/core-internal.h
+++ b/include/laik/core-internal.h
@@ -117,6 +117,7 @@ void laik_addSpaceForInstance(Laik_Instance* inst, Laik_Space* s);
 void laik_removeSpaceFromInstance(Laik_Instance* inst, Laik_Space* s);
 
 void laik_addDataForInstance(Laik_Instance* inst, Laik_Data* d);
+void laik_removeDataFromInstance(Laik_Instance* inst, Laik_Data* d);
 
 // synchronize location strings via KVS among processes in current world
 void laik_sync_location(Laik_Instance *instance);
diff --git a/src/core.c b/src/core.c
index 4150c81..7c0e4cc 100644
--- a/src/core.c
+++ b/src/core.c
@@ -281,6 +281,17 @@ void laik_addDataForInstance(Laik_Instance* inst, Laik_Data* d)
     inst->data_count++;
 }
 
+void laik_removeDataFromInstance(Laik_Instance* inst, Laik_Data* d)
+{
+    int i = 0;
+    while((i < inst->data_count) && (inst->data[i] != d)) i++;
+    assert(i < inst->data_count); // not found, should not happen
+
+    inst->data_count--;
+    for(; i < inst->data_count; i++)
+        inst->data[i] = inst->data[i + 1];
+}
+
 
 // create a group to be used in this LAIK instance
 Laik_Group* laik_create_group(Laik_Instance* i, int maxsize)
diff --git a/src/data.c b/src/data.c
index 1976466..04b55a0 100644
--- a/src/data.c
+++ b/src/data.c
@@ -1644,6 +1644,12 @@ void laik_free(Laik_Data* d)
 {
     // TODO: free space, partitionings
 
+    // return memory of current mappings, if not owned by a reservation
+    if (d->activeMappings && (d->activeMappings->res == 0))
+        freeMappingList(d->activeMappings, d->stat);
+
+    laik_removeDataFromInstance(d->space->inst, d);
+    free(d->stat);
     free(d);
 }
 
-- 
2.43.0


From 262e004b8a674f434208ed0b9f90d29efbb375fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:35 +0000
Subject: [PATCH 22/76] fix: intersection with an empty range is empty

laik_range_intersect is documented to return 0 for an empty intersection,
but returned an empty range if an empty range lies within the other one.
---
 src/space.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/space.c b/src/space.c
index cd8a417..fecc522 100644
--- a/src/space.c
+++ b/src/space.c
@@ -170,7 +170,8 @@ bool intersectRange(int64_t from1, int64_t to1, int64_t from2, int64_t to2,
     if (from2 >= to1) return false;
     *resFrom = (from1 > from2) ? from1 : from2;
     *resTo = (to1 > to2) ? to2 : to1;
-    return true;
+    // still empty if one of the given ranges is empty
+    return *resFrom < *resTo;
 }
 
 // get the intersection of two ranges; return 0 if intersection is empty
-- 
2.43.0


From 4e50e335ec60392ddfc6b9316543af86e641e217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:48 +0000
Subject: [PATCH 23/76] fix: a range without indexes is contained in any range

For 2d/3d ranges empty in one dimension, laik_range_within_range still
required the other dimensions to be contained.
---
 src/space.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/space.c b/src/space.c
index fecc522..81bc99b 100644
--- a/src/space.c
+++ b/src/space.c
@@ -235,6 +235,11 @@ bool laik_range_within_range(const Laik_Range* r1, const Laik_Range* r2)
     assert(r1->space == r2->space);
 
     int dims = r1->space->dims;
+    // a range without indexes (empty in any dimension) is always contained
+    if ((r1->from.i[0] >= r1->to.i[0]) ||
+        ((dims > 1) && (r1->from.i[1] >= r1->to.i[1])) ||
+        ((dims > 2) && (r1->from.i[2] >= r1->to.i[2]))) return true;
+
     if (r1->from.i[0] < r1->to.i[0]) {
         // not empty
         if (r1->from.i[0] < r2->from.i[0]) return false;
-- 
2.43.0


From 10bff7d8e4695f309c241b06b45441fa006cb412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:00 +0000
Subject: [PATCH 24/76] fix: coverage check aborted with more than 100
 uncovered ranges

The list of ranges not covered yet had a fixed size, e.g. bisection of a
64x64x64 space among 343 processes stopped with an assertion.
---
 src/rangelist.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/rangelist.c b/src/rangelist.c
index 69de503..b598ec5 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -163,14 +163,22 @@ Laik_TaskRange* laik_rangelist_tidrange(Laik_RangeList* list, int tid, int n)
 // print verbose debug output?
 //#define DEBUG_COVERSPACE 1
 
-// TODO: use dynamic list
-#define COVERLIST_MAX 100
-static Laik_Range notcovered[COVERLIST_MAX];
+// dynamic list, never freed
+static Laik_Range* notcovered = 0;
+static int notcovered_capacity = 0;
 static int notcovered_count;
 
 static void appendToNotcovered(Laik_Range* s)
 {
-    assert(notcovered_count < COVERLIST_MAX);
+    if (notcovered_count == notcovered_capacity) {
+        notcovered_capacity = (notcovered_capacity + 50) * 2;
+        notcovered = realloc(notcovered,
+                             sizeof(Laik_Range) * (size_t) notcovered_capacity);
+        if (!notcovered) {
+            laik_panic("Out of memory allocating memory for coversSpace");
+            exit(1); // not actually needed, laik_panic never returns
+        }
+    }
     notcovered[notcovered_count] = *s;
     notcovered_count++;
 }
@@ -246,7 +254,9 @@ bool laik_rangelist_coversSpace(Laik_RangeList* list)
 
         int count = notcovered_count; // number of ranges to visit
         for(int j = 0; j < count; j++) {
-            Laik_Range* orig = &(notcovered[j]);
+            // use a copy, as appending may move the list
+            Laik_Range origCopy = notcovered[j];
+            Laik_Range* orig = &origCopy;
 
             if (laik_range_intersect(orig, toRemove) == 0) {
                 // range to remove does not overlap with orig: keep original
-- 
2.43.0


From 82703d2337b77e9db5317250c09417aac0e98b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:53 +0000
Subject: [PATCH 25/76] fix: freezing an empty range list with merging aborted

A partitioner with LAIK_PF_Merge adding no range (e.g. as all are filtered
out) stopped with an assertion.
---
 src/rangelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rangelist.c b/src/rangelist.c
index b598ec5..956e833 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -420,8 +420,8 @@ static void sortRanges(Laik_RangeList* list)
 
 static void mergeSortedRanges(Laik_RangeList* list)
 {
-    assert(list->trange); // this is for generic ranges
     if (list->count == 0) return;
+    assert(list->trange); // this is for generic ranges
 
     assert(list->space->dims == 1); // current algorithm only works for 1d
 
-- 
2.43.0


From ed68ccc41cb27282cd3d10e347864461f357fcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:59 +0000
Subject: [PATCH 26/76] fix: map offsets of a range list are recalculated for
 another task

laik_rangelist_tidmaprange() only worked for one task per list (assertion),
and used stale offsets after migration to another process group.
---
 src/rangelist.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rangelist.c b/src/rangelist.c
index 956e833..7914d90 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -577,7 +577,9 @@ void laik_updateMapOffsets(Laik_RangeList* list, int tid)
 {
     // already calculated?
     if (list->map_tid == tid) return;
-    assert(list->map_tid < 0);
+    // forget offsets calculated for another task
+    free(list->map_off);
+    list->map_off = 0;
     list->map_tid = tid;
 
     assert((tid >= 0) && (tid < (int) list->tid_count));
@@ -711,4 +713,9 @@ void laik_rangelist_migrate(Laik_RangeList* list, int* idmap, unsigned int new_c
     list->tid_count = new_count;
     sortRanges(list);
     updateOffsets(list);
+
+    // offsets into mappings need to be calculated again
+    free(list->map_off);
+    list->map_off = 0;
+    list->map_tid = -1;
 }
-- 
2.43.0


From f6370bef4d5956a4284b38d0f243bfaaaa45a195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:16 +0000
Subject: [PATCH 27/76] fix: intersection range filter with no or unordered own
 ranges

Without own ranges, no filter function was set, and running the partitioner
crashed. The binary search expects disjoint ranges sorted by start index,
but own ranges are sorted by tag first and may overlap: needed ranges got
dropped or the search did not terminate.
---
 src/partitioning.c | 48 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/src/partitioning.c b/src/partitioning.c
index ef0af90..f6a7eec 100644
--- a/src/partitioning.c
+++ b/src/partitioning.c
@@ -59,6 +59,8 @@ Laik_RangeFilter* laik_rangefilter_new()
 
 void laik_rangefilter_free(Laik_RangeFilter* sf)
 {
+    if (sf->pfilter1) free(sf->pfilter1->ts);
+    if (sf->pfilter2) free(sf->pfilter2->ts);
     free(sf->pfilter1);
     free(sf->pfilter2);
     free(sf);
@@ -153,6 +155,16 @@ bool idxfilter(Laik_RangeFilter* sf, int task, const Laik_Range* s)
     return false;
 }
 
+// helper for laik_rangefilter_add_idxfilter: sort by start index
+static int idxfilter_cmp(const void* p1, const void* p2)
+{
+    const Laik_TaskRange_Gen* ts1 = (const Laik_TaskRange_Gen*) p1;
+    const Laik_TaskRange_Gen* ts2 = (const Laik_TaskRange_Gen*) p2;
+    if (ts1->range.from.i[0] > ts2->range.from.i[0]) return 1;
+    if (ts1->range.from.i[0] < ts2->range.from.i[0]) return -1;
+    return 0;
+}
+
 // add filter to only keep ranges intersecting with ranges in <list> for task <tid>
 void laik_rangefilter_add_idxfilter(Laik_RangeFilter* sf, Laik_RangeList* list, int tid)
 {
@@ -161,18 +173,37 @@ void laik_rangefilter_add_idxfilter(Laik_RangeFilter* sf, Laik_RangeList* list,
     assert(list->space->dims == 1); // TODO: only for 1d for now
 
     assert((tid >= 0) && (tid < (int) list->tid_count));
+
+    // install filter function (without own ranges, nothing intersects)
+    sf->filter_func = idxfilter;
+
     // no own ranges?
     unsigned mycount = list->off[tid+1] - list->off[tid];
     if (mycount == 0) return;
 
-    Laik_TaskRange_Gen* ts1 = list->trange + list->off[tid];
-    Laik_TaskRange_Gen* ts2 = list->trange + list->off[tid+1]-1;
-
+    // own ranges are sorted by tag first and may overlap: the binary search
+    // needs a copy sorted by start index, with overlapping ranges merged
     PFilterPar* par = malloc(sizeof(PFilterPar));
-    par->len = mycount;
-    par->from = ts1->range.from.i[0];
-    par->to   = ts2->range.to.i[0];
-    par->ts = ts1;
+    Laik_TaskRange_Gen* ts = malloc(mycount * sizeof(Laik_TaskRange_Gen));
+    if (!par || !ts) {
+        laik_panic("Out of memory allocating range filter");
+        exit(1); // not actually needed, laik_panic never returns
+    }
+    memcpy(ts, list->trange + list->off[tid],
+           mycount * sizeof(Laik_TaskRange_Gen));
+    qsort(ts, mycount, sizeof(Laik_TaskRange_Gen), idxfilter_cmp);
+    unsigned last = 0;
+    for(unsigned i = 1; i < mycount; i++) {
+        if (ts[i].range.from.i[0] > ts[last].range.to.i[0])
+            ts[++last] = ts[i];
+        else if (ts[i].range.to.i[0] > ts[last].range.to.i[0])
+            ts[last].range.to.i[0] = ts[i].range.to.i[0];
+    }
+
+    par->len = last + 1;
+    par->from = ts[0].range.from.i[0];
+    par->to   = ts[last].range.to.i[0];
+    par->ts = ts;
 
     if      (sf->pfilter1 == 0) sf->pfilter1 = par;
     else if (sf->pfilter2 == 0) sf->pfilter2 = par;
@@ -180,9 +211,6 @@ void laik_rangefilter_add_idxfilter(Laik_RangeFilter* sf, Laik_RangeList* list,
 
     laik_log(1,"Set pfilter to intersection with %d ranges between [%lld;%lld[",
              par->len, (long long) par->from, (long long) par->to);
-
-    // install filter function
-    sf->filter_func = idxfilter;
 }
 
 
-- 
2.43.0


From 774305287d3288d7d2a2125dc270ca95d57824ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:48 +0000
Subject: [PATCH 28/76] fix: track cloned groups in the backend

Switching containers on a group created by laik_clone_group aborted with
backends keeping own data per group (MPI, TCP).
---
 src/core.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/core.c b/src/core.c
index 7c0e4cc..a1a1d1b 100644
--- a/src/core.c
+++ b/src/core.c
@@ -369,8 +369,10 @@ void laik_set_world(Laik_Instance* i, Laik_Group* newworld)
 }
 
 // create a clone of <g>, derived from <g>
-// helper for laik_new_shrinked_group, does not call into backend to track new group
-Laik_Group* laik_clone_group(Laik_Group* g)
+// helper for laik_clone_group/laik_new_shrinked_group,
+// does not call into backend to track new group
+static
+Laik_Group* clone_group(Laik_Group* g)
 {
     Laik_Group* g2 = laik_create_group(g->inst, g->size);
     g2->parent = g;
@@ -386,6 +388,18 @@ Laik_Group* laik_clone_group(Laik_Group* g)
     return g2;
 }
 
+// create a clone of <g>, derived from <g>
+Laik_Group* laik_clone_group(Laik_Group* g)
+{
+    Laik_Group* g2 = clone_group(g);
+
+    // allow the backend to track the new created group g2
+    if (g->inst->backend->updateGroup)
+        (g->inst->backend->updateGroup)(g2);
+
+    return g2;
+}
+
 // helpers for laik_new_union_group
 
 struct lididx
@@ -503,7 +517,7 @@ Laik_Group* laik_new_union_group(Laik_Group* g1, Laik_Group* g2)
 // Shrinking (collective)
 Laik_Group* laik_new_shrinked_group(Laik_Group* g, int len, int* list)
 {
-    Laik_Group* g2 = laik_clone_group(g);
+    Laik_Group* g2 = clone_group(g);
 
     for(int i = 0; i < g->size; i++)
         g2->fromParent[i] = 0; // init
-- 
2.43.0


From cf4621ad83b020d91dbdb86993c248a99756ccc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:15 +0000
Subject: [PATCH 29/76] fix: keep mapping numbers on migration of a
 partitioning

With the single index format, all ranges of a process are in one mapping.
After migration, each range was assigned to its own mapping, which does
not match mappings already existing.
---
 src/rangelist.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/rangelist.c b/src/rangelist.c
index 7914d90..d0c51fb 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -453,8 +453,8 @@ static void mergeSortedRanges(Laik_RangeList* list)
 }
 
 // (1) update offset array from ranges,
-// (2) calculate map numbers from tags
-static void updateOffsets(Laik_RangeList* list)
+// (2) if requested, calculate map numbers from tags
+static void updateOffsets(Laik_RangeList* list, bool updateMapNo)
 {
     if (list->count > 0)
         assert(list->trange);
@@ -475,7 +475,8 @@ static void updateOffsets(Laik_RangeList* list)
                 mapNo++;
                 lastTag = ts->tag;
             }
-            ts->mapNo = mapNo;
+            if (updateMapNo)
+                ts->mapNo = mapNo;
             off++;
         }
     }
@@ -676,7 +677,7 @@ void laik_rangelist_freeze(Laik_RangeList* list, bool doMerge)
         if (doMerge)
             mergeSortedRanges(list);
 
-        updateOffsets(list);
+        updateOffsets(list, true);
     }
 }
 
@@ -711,8 +712,9 @@ void laik_rangelist_migrate(Laik_RangeList* list, int* idmap, unsigned int new_c
         }
     }
     list->tid_count = new_count;
+    // map numbers do not change (with single index format, all are 0)
     sortRanges(list);
-    updateOffsets(list);
+    updateOffsets(list, false);
 
     // offsets into mappings need to be calculated again
     free(list->map_off);
-- 
2.43.0


From d762b0147b3cf32ccac23b4fed47c94a8e023455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:42 +0000
Subject: [PATCH 30/76] fix: compare full value when setting a KVS entry

The size of the existing value was ignored: setting a prefix of the current
value had no effect, and memory behind a shorter value was accessed.
Merging of changes stopped comparing binary values at a zero byte.
---
 src/kvs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kvs.c b/src/kvs.c
index d42061c..14b01cc 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -243,7 +243,7 @@ void laik_kvs_changes_merge(Laik_KVS_Changes* dst,
             off2++;
         }
         else {
-            if ((e1->vlen != e2->vlen) || (strncmp(e1->value, e2->value, e1->vlen) != 0)) {
+            if ((e1->vlen != e2->vlen) || (memcmp(e1->value, e2->value, e1->vlen) != 0)) {
                 laik_log(LAIK_LL_Panic,
                          "Merging KV changes at key '%s': update inconsistency\n",
                          e1->key);
@@ -371,7 +371,7 @@ Laik_KVS_Entry* laik_kvs_set(Laik_KVStore* kvs, char* key, unsigned int size, ch
     bool created;
     if (e) {
         if (e->value) {
-            if (memcmp(e->value, value, (size_t) size) == 0) {
+            if ((e->vlen == size) && (memcmp(e->value, value, (size_t) size) == 0)) {
                 laik_log(1, "KVS '%s': entry '%s' (size %d, '%.20s') already existing",
                          kvs->name, key, size, value);
                 return e;
-- 
2.43.0


From 530fd0db31f4c98aac9a0a9799e28292454f8d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:21 +0000
Subject: [PATCH 31/76] fix: allow KVS sync without changes or with short ones

MPI and TCP backend: the assertion of at least as many data bytes as offsets
does not hold without any change, and for a one-byte key and value.
---
 src/backend-mpi.c              | 2 +-
 src/backends/tcp/backend-tcp.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index ad825e9..46b22d3 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -1180,7 +1180,7 @@ static void laik_mpi_sync(Laik_KVStore* kvs)
     // send merged changes to all others: may be 0 entries
     count[0] = dst->offUsed;
     count[1] = dst->dataUsed;
-    assert(count[1] > count[0]); // more byte than offsets
+    assert((count[0] == 0) == (count[1] == 0)); // both or none
     for(int i = 1; i < world->size; i++) {
         laik_log(1, "MPI sync: sending %d changes (total %d chars) to T%d",
                  count[0] / 2, count[1], i);
diff --git a/src/backends/tcp/backend-tcp.c b/src/backends/tcp/backend-tcp.c
index c740880..9d64f55 100644
--- a/src/backends/tcp/backend-tcp.c
+++ b/src/backends/tcp/backend-tcp.c
@@ -902,7 +902,7 @@ static void laik_tcp_sync(Laik_KVStore* kvs)
     // send merged changes to all others: may be 0 entries
     count[0] = dst->offUsed;
     count[1] = dst->dataUsed;
-    assert(count[1] > count[0]); // more byte than offsets
+    assert((count[0] == 0) == (count[1] == 0)); // both or none
     for(int i = 1; i < world->size; i++) {
         laik_log(1, "MPI sync: sending %d changes (total %d chars) to T%d",
                  count[0] / 2, count[1], i);
-- 
2.43.0


From 0082fb6699c79228074ec7d44c3d98da336be3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:21 +0000
Subject: [PATCH 32/76] fix: sync KVS among processes of current world

MPI and TCP backend used the communicator of the initial world with process
numbers of the current world: after shrinking, messages were exchanged with
wrong (removed) processes.
---
 src/backend-mpi.c              | 3 ++-
 src/backends/tcp/backend-tcp.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index 46b22d3..94c8c7a 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -1089,8 +1089,9 @@ static void laik_mpi_cleanup(Laik_ActionSeq* as)
 static void laik_mpi_sync(Laik_KVStore* kvs)
 {
     assert(kvs->inst == mpi_instance);
-    MPI_Comm comm = mpiData(mpi_instance)->comm;
     Laik_Group* world = kvs->inst->world;
+    // use communicator of current world, as this may be a shrunken group
+    MPI_Comm comm = ((MPIGroupData*) world->backend_data)->comm;
     int myid = world->myid;
     MPI_Status status;
     int count[2] = {0,0};
diff --git a/src/backends/tcp/backend-tcp.c b/src/backends/tcp/backend-tcp.c
index 9d64f55..22b9eb2 100644
--- a/src/backends/tcp/backend-tcp.c
+++ b/src/backends/tcp/backend-tcp.c
@@ -811,8 +811,9 @@ static void laik_tcp_cleanup(Laik_ActionSeq* as)
 static void laik_tcp_sync(Laik_KVStore* kvs)
 {
     assert(kvs->inst == tcp_instance);
-    MPI_Comm comm = tcpData(tcp_instance)->comm;
     Laik_Group* world = kvs->inst->world;
+    // use communicator of current world, as this may be a shrunken group
+    MPI_Comm comm = ((TCPGroupData*) world->backend_data)->comm;
     int myid = world->myid;
     MPI_Status status;
     int count[2] = {0,0};
-- 
2.43.0


From 466d0404bedaeea86bea10ef2c2ee614d26dc437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:38 +0000
Subject: [PATCH 33/76] fix: allow to set a KVS entry more than once between
 syncs

The change journal got multiple changes for the same key, and the next sync
stopped with an update inconsistency or failed assertion.
---
 src/kvs.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/kvs.c b/src/kvs.c
index 14b01cc..13426cc 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -177,6 +177,27 @@ void laik_kvs_changes_add(Laik_KVS_Changes* c,
     e->updated = false;
 }
 
+// remove the change for <key> from (not yet sorted) journal <c>, if existing
+static void laik_kvs_changes_remove(Laik_KVS_Changes* c, char* key)
+{
+    assert(c->entryUsed == 0);
+
+    for(int i = 0; i + 2 < c->offUsed; i += 2) {
+        if (strcmp(c->data + c->off[i], key) != 0) continue;
+
+        // move data of following changes and adjust offsets
+        int len = c->off[i + 2] - c->off[i];
+        memmove(c->data + c->off[i], c->data + c->off[i + 2],
+                (size_t) (c->dataUsed - c->off[i + 2]));
+        for(int j = i; j + 2 < c->offUsed; j++)
+            c->off[j] = c->off[j + 2] - len;
+        c->dataUsed -= len;
+        c->offUsed -= 2;
+        if (c->offUsed == 1) c->offUsed = 0; // no changes left
+        return;
+    }
+}
+
 // for qsort in laik_kvs_changes_sort and laik_kvs_sort
 static int entrycmp(const void * v1, const void * v2)
 {
@@ -427,6 +448,9 @@ Laik_KVS_Entry* laik_kvs_set(Laik_KVStore* kvs, char* key, unsigned int size, ch
     }
 
     if (kvs->in_sync) return e;
+
+    // only propagate last change of a key
+    if (e->updated) laik_kvs_changes_remove(&(kvs->changes), key);
     e->updated = true;
 
     laik_kvs_changes_add(&(kvs->changes), key, size, value, true, false);
-- 
2.43.0


From 403ea812fbd766ce89ca3d164d133af2bba3dcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:46 +0000
Subject: [PATCH 34/76] fix: synchronize removal of KVS entries

Removing an entry made the next sync stop with a failed assertion, as changes
without value were not allowed in the change journal. Removing an already
removed entry again is not a change.
---
 src/kvs.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/kvs.c b/src/kvs.c
index 13426cc..a1edbe0 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -223,7 +223,7 @@ void laik_kvs_changes_sort(Laik_KVS_Changes* c)
         c->entryUsed++;
 
         assert(c->off[off] < c->off[off + 1]); // key range
-        assert(c->off[off + 1] < c->off[off + 2]); // value range
+        assert(c->off[off + 1] <= c->off[off + 2]); // value range, empty: removed
         assert(c->off[off + 2] <= c->dataUsed);
         // key must be terminated by 0
         assert(c->data[c->off[off + 1] - 1] == 0);
@@ -297,7 +297,12 @@ void laik_kvs_changes_apply(Laik_KVS_Changes* c, Laik_KVStore *kvs)
     assert(c->data != 0);
     for(int i = 0; i + 1 < c->offUsed; i += 2) {
         assert(c->off[i+1] > c->off[i]);
-        assert(c->off[i+2] > c->off[i+1]);
+        assert(c->off[i+2] >= c->off[i+1]);
+        if (c->off[i+2] == c->off[i+1]) {
+            // no value: entry was removed
+            laik_kvs_remove(kvs, c->data + c->off[i]);
+            continue;
+        }
         laik_kvs_set(kvs,
                      c->data + c->off[i],
                      (unsigned)(c->off[i+2] - c->off[i+1]), // data size
@@ -354,8 +359,13 @@ static void remove_entry(Laik_KVStore* kvs, Laik_KVS_Entry* e)
     e->vlen = 0;
     e->data = 0;
 
-    if (!kvs->in_sync)
-        laik_kvs_changes_add(&(kvs->changes), e->key, 0, 0, true, false);
+    if (kvs->in_sync) return;
+
+    // only propagate last change of a key
+    if (e->updated) laik_kvs_changes_remove(&(kvs->changes), e->key);
+    e->updated = true;
+
+    laik_kvs_changes_add(&(kvs->changes), e->key, 0, 0, true, false);
 }
 
 // remove all entries
@@ -372,7 +382,7 @@ void laik_kvs_clean(Laik_KVStore* kvs)
 bool laik_kvs_remove(Laik_KVStore* kvs, char* key)
 {
     Laik_KVS_Entry* e = laik_kvs_entry(kvs, key);
-    if (!e) return false;
+    if (!e || (e->value == 0)) return false; // not existing or already removed
     remove_entry(kvs, e);
     return true;
 }
-- 
2.43.0


From 263a90db72bc79205a5cf2d3d83cd4f6a6fec25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:22 +0000
Subject: [PATCH 35/76] fix: sync KVS entries with long, empty or
 space-starting values in TCP2

Parsing of 'kvs data' commands truncated values after 100 characters,
dropped leading spaces and ignored empty values (resulting in a hang).
Sending wrote into a buffer of fixed size.
---
 src/backend-tcp2.c | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 7eef485..5b811e8 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1349,11 +1349,16 @@ void got_kvs_changes(InstData* d, int lid, char* msg)
 
 void got_kvs_data(InstData* d, int lid, char* msg)
 {
-    char cmd[21], key[31], value[101];
-    if (sscanf(msg, "%20s %30s %100[^\n]", cmd, key, value) < 3) {
+    // data <key> <value>: value is rest of command after one space
+    char* key = strchr(msg, ' ');
+    while(key && (*key == ' ')) key++;
+    char* value = key ? strchr(key, ' ') : 0;
+    if (!value || (value == key)) {
         laik_log(LAIK_LL_Warning, "cannot parse kvs data command '%s'; ignoring", msg);
         return;
     }
+    *value = 0; // terminate key
+    value++;
 
     laik_log(1, "TCP2 got KVS data from LID %d for key '%s': '%s'", lid, key, value);
     assert(d->kvs != 0);
@@ -2382,6 +2387,20 @@ void tcp2_exec(Laik_ActionSeq* as)
     }
 }
 
+// allocate command for sending the entry <e> of a KVS to other processes
+static
+char* kvs_data_cmd(Laik_KVS_Entry* e)
+{
+    int len = strlen("kvs data  ") + strlen(e->key) + e->vlen + 1;
+    char* msg = malloc(len);
+    if (!msg) {
+        laik_panic("Out of memory allocating KVS data command");
+        exit(1); // not actually needed, laik_panic never returns
+    }
+    snprintf(msg, len, "kvs data %s %.*s", e->key, (int) e->vlen, e->value);
+    return msg;
+}
+
 void tcp2_sync(Laik_KVStore* kvs)
 {
     char msg[100];
@@ -2412,9 +2431,9 @@ void tcp2_sync(Laik_KVStore* kvs)
         send_cmd(d, 0, msg);
         for(unsigned int i = 0; i < kvs->used; i++) {
             if (!kvs->entry[i].updated) continue;
-            sprintf(msg, "kvs data %s %s",
-                    kvs->entry[i].key, kvs->entry[i].value);
-            send_cmd(d, 0, msg);
+            char* dmsg = kvs_data_cmd(&(kvs->entry[i]));
+            send_cmd(d, 0, dmsg);
+            free(dmsg);
         }
         // all changes sent, remove own permission
         // (needs to be done here, as we may receive next allowance
@@ -2457,10 +2476,10 @@ void tcp2_sync(Laik_KVStore* kvs)
         send_cmd(d, lid, msg);
     for(unsigned int i = 0; i < kvs->used; i++) {
         if (!kvs->entry[i].updated) continue;
-        sprintf(msg, "kvs data %s %s",
-                kvs->entry[i].key, kvs->entry[i].value);
+        char* dmsg = kvs_data_cmd(&(kvs->entry[i]));
         for(int lid = 1; lid <= d->maxid; lid++)
-            send_cmd(d, lid, msg);
+            send_cmd(d, lid, dmsg);
+        free(dmsg);
     }
     laik_log(1, "TCP2 synced %d changes for KVS %s",
             count, kvs->name);
-- 
2.43.0


From b54e4bc823df263e48ab7baccbb057dacb24ded8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:57 +0000
Subject: [PATCH 36/76] fix: synchronize removal of KVS entries in TCP2

The value of removed entries was sent even though there is none. Add
a command for removals, and detect conflicts of removals with changes.
---
 src/backend-tcp2.c | 39 +++++++++++++++++++++++++++++++++++----
 src/kvs.c          |  8 ++++++++
 2 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 5b811e8..32d2def 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1042,6 +1042,7 @@ void got_help(InstData* d, int fd, int lid)
     send_cmd(d, lid, "#  kvs allow <name>             : allow to send changes for KVS");
     send_cmd(d, lid, "#  kvs changes <count>          : announce number of changes for KVS");
     send_cmd(d, lid, "#  kvs data <key> <value>       : send changed KVS entry");
+    send_cmd(d, lid, "#  kvs remove <key>             : send removed KVS entry");
     send_cmd(d, lid, "#  myid <id>                    : identify your location id");
     send_cmd(d, lid, "#  ok                           : positive response to a request");
     send_cmd(d, lid, "#  phase <phase> <epoch>        : announce current phase/epoch");
@@ -1376,6 +1377,31 @@ void got_kvs_data(InstData* d, int lid, char* msg)
 }
 
 
+void got_kvs_remove(InstData* d, int lid, char* msg)
+{
+    // remove <key>
+    char* key = strchr(msg, ' ');
+    while(key && (*key == ' ')) key++;
+    if (!key || (*key == 0)) {
+        laik_log(LAIK_LL_Warning, "cannot parse kvs remove command '%s'; ignoring", msg);
+        return;
+    }
+
+    laik_log(1, "TCP2 got KVS removal from LID %d for key '%s'", lid, key);
+    assert(d->kvs != 0);
+    assert(d->kvs_changes > 0);
+    assert(d->kvs_received < d->kvs_changes);
+
+    // mark entry as updated, to get removal forwarded (see got_kvs_data)
+    laik_kvs_remove(d->kvs, key);
+    Laik_KVS_Entry* e = laik_kvs_entry(d->kvs, key);
+    if (e) e->updated = true;
+
+    d->kvs_received++;
+    if (d->kvs_received == d->kvs_changes)
+        d->exit = 1;
+}
+
 void got_kvs(InstData* d, int lid, char* msg)
 {
     // kvs ...
@@ -1388,6 +1414,7 @@ void got_kvs(InstData* d, int lid, char* msg)
     case 'a': got_kvs_allow(d, lid, msg); break;
     case 'c': got_kvs_changes(d, lid, msg); break;
     case 'd': got_kvs_data(d, lid, msg); break;
+    case 'r': got_kvs_remove(d, lid, msg); break;
     default:
         laik_log(LAIK_LL_Warning, "cannot parse kvs command '%s'; ignoring", msg);
         break;
@@ -2391,13 +2418,16 @@ void tcp2_exec(Laik_ActionSeq* as)
 static
 char* kvs_data_cmd(Laik_KVS_Entry* e)
 {
-    int len = strlen("kvs data  ") + strlen(e->key) + e->vlen + 1;
+    int len = strlen("kvs remove ") + strlen(e->key) + e->vlen + 1;
     char* msg = malloc(len);
     if (!msg) {
         laik_panic("Out of memory allocating KVS data command");
         exit(1); // not actually needed, laik_panic never returns
     }
-    snprintf(msg, len, "kvs data %s %.*s", e->key, (int) e->vlen, e->value);
+    if (e->value)
+        snprintf(msg, len, "kvs data %s %.*s", e->key, (int) e->vlen, e->value);
+    else
+        snprintf(msg, len, "kvs remove %s", e->key);
     return msg;
 }
 
@@ -2477,8 +2507,9 @@ void tcp2_sync(Laik_KVStore* kvs)
     for(unsigned int i = 0; i < kvs->used; i++) {
         if (!kvs->entry[i].updated) continue;
         char* dmsg = kvs_data_cmd(&(kvs->entry[i]));
-        for(int lid = 1; lid <= d->maxid; lid++)
-            send_cmd(d, lid, dmsg);
+        for(int lid = 1; lid <= d->maxid; lid++) {
+                send_cmd(d, lid, dmsg);
+        }
         free(dmsg);
     }
     laik_log(1, "TCP2 synced %d changes for KVS %s",
diff --git a/src/kvs.c b/src/kvs.c
index a1edbe0..72eda7e 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -350,6 +350,14 @@ void laik_kvs_free(Laik_KVStore* kvs)
 static void remove_entry(Laik_KVStore* kvs, Laik_KVS_Entry* e)
 {
     assert(e);
+    if (e->updated && kvs->in_sync) {
+        // removed by other process and updated ourself
+        laik_log(LAIK_LL_Panic,
+                 "KVS '%s' at key '%s': update inconsistency\n",
+                 kvs->name, e->key);
+        exit(1);
+    }
+
     if (kvs->in_sync && kvs->removed_func)
         (kvs->removed_func)(kvs, e->key);
 
-- 
2.43.0


From 148d51c2b8134894ee3fcffd0b022b15593eee64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:57 +0000
Subject: [PATCH 37/76] fix: skip removed processes on KVS sync in TCP2

Otherwise, the master waits forever for changes from processes which
left on a resize.
---
 src/backend-tcp2.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 32d2def..a3f72f5 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -2484,6 +2484,7 @@ void tcp2_sync(Laik_KVStore* kvs)
     // master
 
     for(int lid = 1; lid <= d->maxid; lid++) {
+        if (d->peer[lid].state == PS_Dead) continue;
         sprintf(msg, "kvs allow %s", kvs->name);
         send_cmd(d, lid, msg);
 
@@ -2502,13 +2503,16 @@ void tcp2_sync(Laik_KVStore* kvs)
     }
     laik_log(1, "TCP2 with %d merged changes", count);
     sprintf(msg, "kvs changes %d", count);
-    for(int lid = 1; lid <= d->maxid; lid++)
+    for(int lid = 1; lid <= d->maxid; lid++) {
+        if (d->peer[lid].state == PS_Dead) continue;
         send_cmd(d, lid, msg);
+    }
     for(unsigned int i = 0; i < kvs->used; i++) {
         if (!kvs->entry[i].updated) continue;
         char* dmsg = kvs_data_cmd(&(kvs->entry[i]));
         for(int lid = 1; lid <= d->maxid; lid++) {
-                send_cmd(d, lid, dmsg);
+            if (d->peer[lid].state == PS_Dead) continue;
+            send_cmd(d, lid, dmsg);
         }
         free(dmsg);
     }
-- 
2.43.0


From 7f4da9c3236a07d57de110391725121791b18ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:12 +0000
Subject: [PATCH 38/76] fix: buffer overflow on publishing space with large
 borders

---
 src/space.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/space.c b/src/space.c
index 81bc99b..14e9bf2 100644
--- a/src/space.c
+++ b/src/space.c
@@ -422,7 +422,8 @@ void laik_set_space_name(Laik_Space* s, char* n)
 
 char* laik_space_serialize(Laik_Space* s, unsigned* psize)
 {
-    static char buf[100];
+    // large enough for 6 numbers with up to 20 chars
+    static char buf[150];
 
     int off = -1;
     if (s->dims == 1)
-- 
2.43.0


From 95f132724de1f83bbf6d1cf59f489085adaec769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:12 +0000
Subject: [PATCH 39/76] fix: set space of range in spaces received from other
 processes

---
 src/space.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/space.c b/src/space.c
index 14e9bf2..e9594cd 100644
--- a/src/space.c
+++ b/src/space.c
@@ -347,6 +347,7 @@ Laik_Space* laik_new_space(Laik_Instance* inst)
 
     space->inst = inst;
     space->dims = 0; // invalid
+    space->range.space = space;
     space->nextSpaceForInstance = 0;
 
     space->kvs = 0;
-- 
2.43.0


From bd90c9be2b993f8ce78f1f3d8aaa9376e74908ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:42 +0000
Subject: [PATCH 40/76] fix: TCP2 reduction without any process requesting the
 result

---
 src/backend-tcp2.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index a3f72f5..7700cc1 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -2278,6 +2278,9 @@ void exec_reduce(Laik_TransitionContext* tc,
     assert(a->h.type == LAIK_AT_MapGroupReduce);
     Laik_Transition* t = tc->transition;
 
+    // nothing to do if no process is interested in the result
+    if (laik_trans_groupCount(t, a->outputGroup) == 0) return;
+
     // do the manual reduction on smallest rank of output group
     int reduceTask = laik_trans_taskInGroup(t, a->outputGroup, 0);
     int reduceLID = laik_group_locationid(t->group, reduceTask);
-- 
2.43.0


From 3db31030b14e93be2720560641c3737390443648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:12 +0000
Subject: [PATCH 41/76] fix: text buffer sizes in TCP2 for negative indexes and
 larger elements

---
 src/backend-tcp2.c | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 7700cc1..9215755 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -335,19 +335,20 @@ bool next_lex(Laik_Range* range, Laik_Index* idx)
 static
 char* istr(int dims, Laik_Index* idx)
 {
-    static char str[50];
+    // 3 signed 64-bit numbers with separators
+    static char str[70];
 
     if (dims == 1)
-        sprintf(str, "%llu", (unsigned long long) idx->i[0]);
+        sprintf(str, "%lld", (long long) idx->i[0]);
     if (dims == 2)
-        sprintf(str, "%llu/%llu",
-                (unsigned long long) idx->i[0],
-                (unsigned long long) idx->i[1]);
+        sprintf(str, "%lld/%lld",
+                (long long) idx->i[0],
+                (long long) idx->i[1]);
     if (dims == 3)
-        sprintf(str, "%llu/%llu/%llu",
-                (unsigned long long) idx->i[0],
-                (unsigned long long) idx->i[1],
-                (unsigned long long) idx->i[2]);
+        sprintf(str, "%lld/%lld/%lld",
+                (long long) idx->i[0],
+                (long long) idx->i[1],
+                (long long) idx->i[2]);
     return str;
 }
 
@@ -720,7 +721,7 @@ int got_binary_data(InstData* d, int lid, char* buf, int len)
             (t->reduce)(idxPtr, idxPtr, buf, 1, p->rro);
         }
         if ((esize == 8) && laik_log_begin(1)) {
-            char pstr[70];
+            char pstr[90];
             int dims = p->rcv_range->space->dims;
             sprintf(pstr, "(%d:%s)", p->roff, istr(dims, &(p->rcv_idx)));
             laik_log(1, " pos %s: in %f res %f\n", pstr, *((double*)buf), *((double*)idxPtr));
@@ -767,7 +768,7 @@ void got_data(InstData* d, int lid, char* msg)
     char* idxPtr = m->start + off * p->relemsize;
 
     // position string for check
-    char pstr[70];
+    char pstr[90];
     int dims = p->rcv_range->space->dims;
     int s = sprintf(pstr, "(%d:%s)", p->roff, istr(dims, &(p->rcv_idx)));
 
@@ -777,8 +778,7 @@ void got_data(InstData* d, int lid, char* msg)
         while(msg[i] && (msg[i] == ' ')) i++;
     }
 
-    char data_in[100];
-    assert(len < 100);
+    char data_in[len];
     int l = 0;
 
     // parse hex bytes
@@ -2120,7 +2120,8 @@ Laik_Instance* laik_init_tcp2(int* argc, char*** argv)
 static
 void send_data(int n, int dims, Laik_Index* idx, int toLID, void* p, int s)
 {
-    char str[100];
+    // command, size, position (see istr), and 3 chars per byte
+    char str[120 + 3 * s];
     int o = 0;
     o += sprintf(str, "data %d (%d:%s)", s, n, istr(dims, idx));
     for(int i = 0; i < s; i++) {
-- 
2.43.0


From 53cf255c99de4bb39f20238d0db5528ff0fb811f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:00 +0000
Subject: [PATCH 42/76] fix: do not abort in TCP2 if client without LID closed
 its connection

---
 src/backend-tcp2.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 9215755..0e91621 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -661,6 +661,12 @@ void send_cmd(InstData* d, int lid, char* cmd)
 
     if (res < 0) {
         int e = errno;
+        if (lid < 0) {
+            // receiver is not part of LAIK: may close its connection any time
+            laik_log(1, "TCP2 write error on FD %d without LID: %s\n",
+                     fd, strerror(e));
+            return;
+        }
         laik_log(LAIK_LL_Panic, "TCP2 write error on FD %d: %s\n",
                  fd, strerror(e));
     }
-- 
2.43.0


From f2b8ce494c7f503a95d2d3746deacdeb4ac560ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:00 +0000
Subject: [PATCH 43/76] fix: TCP2 ignore join requests of closed connections

---
 src/backend-tcp2.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 0e91621..908caa5 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -476,6 +476,8 @@ void rm_rfd(InstData* d, int fd)
         while(!FD_ISSET(d->maxfds, &d->rset)) d->maxfds--;
     d->fds[fd].cb = 0;
     d->fds[fd].state = PS_Invalid;
+    free(d->fds[fd].cmd); // drop queued command
+    d->fds[fd].cmd = 0;
     free(d->fds[fd].rbuf);
     d->fds[fd].rbuf = 0;
 }
@@ -2706,6 +2708,7 @@ Laik_Group* tcp2_resize(Laik_ResizeRequests* resizeReqs)
                 FDState* fds = (FDState*) req->backend_data;
                 int fd = fds - d->fds;
                 assert(&(d->fds[fd]) == fds);
+                if (fds->cmd == 0) continue; // connection was closed meanwhile
                 assert(fds->state == PS_RegReceived2);
                 assert(fds->lid < 0);
                 assert(fds->cmd);
-- 
2.43.0


From 6e82e3b11944bdbe2bb4978b6789464ce073932b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:00 +0000
Subject: [PATCH 44/76] fix: repeated, outdated and late requests to remove
 processes

---
 src/backend-tcp2.c | 4 ++--
 src/core.c         | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 908caa5..d681843 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -2722,8 +2722,8 @@ Laik_Group* tcp2_resize(Laik_ResizeRequests* resizeReqs)
             else {
                 Peer* peer = (Peer*) req->backend_data;
                 laik_log(1, "TCP2 resize: remove process '%s'", peer->location);
-                // expected to be active
-                assert(peer->state == PS_InResize);
+                // may already be marked for removal, or be gone meanwhile
+                if (peer->state != PS_InResize) continue;
                 peer->state = PS_InResizeRemove;
             }
         }
diff --git a/src/core.c b/src/core.c
index a1a1d1b..42b43fe 100644
--- a/src/core.c
+++ b/src/core.c
@@ -593,10 +593,8 @@ Laik_Group* laik_allow_world_resize(Laik_Instance* instance, int phase)
                        jcount, rcount);
     }
 
+    // backend resets queue when processed: requests arriving later are kept
     Laik_Group* g = (instance->backend->resize)(reqs);
-    if (reqs)
-        reqs->used = 0;
-
     if (g) {
         laik_set_world(instance, g);
         return g;
@@ -638,6 +636,9 @@ void laik_add_resize_req(Laik_Instance* instance, bool is_join_req, void* backen
     }
 
     Laik_ResizeRequests* reqs = instance->resizeRequests;
+    for(int i = 0; i < reqs->used; i++)
+        if ((reqs->req[i].is_join_req == is_join_req) &&
+            (reqs->req[i].backend_data == backend_data)) return; // already queued
     assert(reqs->used < reqs->size);
     reqs->req[reqs->used].is_join_req = is_join_req;
     reqs->req[reqs->used].backend_data = backend_data;
-- 
2.43.0


From ff3186c27237afd4f89cccab6803ff48b1ae7f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:08 +0000
Subject: [PATCH 45/76] fix: TCP2 size of world group in newcomers

---
 src/backend-tcp2.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index d681843..34b48b2 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -2059,7 +2059,8 @@ Laik_Instance* laik_init_tcp2(int* argc, char*** argv)
     world_size -= remove;
 
     // create initial world group
-    Laik_Group* world = laik_create_group(instance, world_size);
+    // (group object must provide space for mapping from processes in parent)
+    Laik_Group* world = laik_create_group(instance, old + added);
     world->size = world_size;
     if (old == 0) {
         // we are part of initial processes: no parent
-- 
2.43.0


From e9a1c651cb4fa801fe8fa03682d6fdbfc63dbbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:45 +0000
Subject: [PATCH 46/76] fix: TCP2 KVS sync only among processes in current
 world

---
 src/backend-tcp2.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 34b48b2..fd20f17 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -2444,6 +2444,15 @@ char* kvs_data_cmd(Laik_KVS_Entry* e)
     return msg;
 }
 
+// helper for KVS sync, done among processes in current world
+static
+bool not_in_world(InstData* d, int lid)
+{
+    // processes marked for removal may still be active, but left the world
+    return (d->peer[lid].state == PS_Dead) ||
+           (d->peer[lid].state == PS_ReadyRemove);
+}
+
 void tcp2_sync(Laik_KVStore* kvs)
 {
     char msg[100];
@@ -2497,7 +2506,7 @@ void tcp2_sync(Laik_KVStore* kvs)
     // master
 
     for(int lid = 1; lid <= d->maxid; lid++) {
-        if (d->peer[lid].state == PS_Dead) continue;
+        if (not_in_world(d, lid)) continue;
         sprintf(msg, "kvs allow %s", kvs->name);
         send_cmd(d, lid, msg);
 
@@ -2517,14 +2526,14 @@ void tcp2_sync(Laik_KVStore* kvs)
     laik_log(1, "TCP2 with %d merged changes", count);
     sprintf(msg, "kvs changes %d", count);
     for(int lid = 1; lid <= d->maxid; lid++) {
-        if (d->peer[lid].state == PS_Dead) continue;
+        if (not_in_world(d, lid)) continue;
         send_cmd(d, lid, msg);
     }
     for(unsigned int i = 0; i < kvs->used; i++) {
         if (!kvs->entry[i].updated) continue;
         char* dmsg = kvs_data_cmd(&(kvs->entry[i]));
         for(int lid = 1; lid <= d->maxid; lid++) {
-            if (d->peer[lid].state == PS_Dead) continue;
+            if (not_in_world(d, lid)) continue;
             send_cmd(d, lid, dmsg);
         }
         free(dmsg);
-- 
2.43.0


From b12449be5cdf83a8b81881167dc6fb3f95310953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:55 +0000
Subject: [PATCH 47/76] fix: synchronization of location strings after
 processes joined

---
 include/laik/core-internal.h |  1 +
 src/core.c                   | 11 +++++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/laik/core-internal.h b/include/laik/core-internal.h
index 1ad9b70..f64ff1b 100644
--- a/include/laik/core-internal.h
+++ b/include/laik/core-internal.h
@@ -77,6 +77,7 @@ struct _Laik_Instance {
     // direct access to synchronized location strings (array of size <size>)
     // null if not synced yet; for removed processes entries are null
     char** location;
+    int location_size; // number of entries in <location>
 
     // KV stores for LAIK objects
     Laik_KVStore* spaceStore;
diff --git a/src/core.c b/src/core.c
index 42b43fe..5eb8dae 100644
--- a/src/core.c
+++ b/src/core.c
@@ -694,7 +694,16 @@ static void remove_location(Laik_KVStore* s, char* key)
 // TODO: only sync new locations after growth of instance
 void laik_sync_location(Laik_Instance *instance)
 {
+    if (instance->locationStore && (instance->location_size < instance->locations)) {
+        // processes joined: these need to get all location strings.
+        // Start with new empty store in all processes of current world
+        laik_kvs_free(instance->locationStore);
+        free(instance->location);
+        instance->locationStore = NULL;
+    }
+
     if (instance->locationStore == NULL) {
+        instance->location_size = instance->locations;
         instance->locationStore = laik_kvs_new("location", instance);
         instance->location = (char**) malloc((unsigned)instance->locations * sizeof(char*));
         assert(instance->location != 0);
@@ -725,6 +734,8 @@ char* laik_group_location(Laik_Group *group, int id)
 
     int lid = laik_group_locationid(group, id);
     assert(lid >= 0 && lid < group->inst->locations);
+    if (lid >= group->inst->location_size)
+        return NULL; // joined after last sync
     return group->inst->location[lid];
 }
 
-- 
2.43.0


From 84c45ed9827b6f02a12da112498a7f5a63f4551a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:44 +0000
Subject: [PATCH 48/76] fix: use of freed receive buffer on quit command in
 TCP2

---
 src/backend-tcp2.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index fd20f17..d0ee161 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1611,7 +1611,7 @@ void process_rbuf(InstData* d, int fd)
 
         if (rbuf[pos2] == 4) { // Ctrl+D: same as "quit"
             got_cmd(d, fd, "quit", 5);
-            pos1 = pos2+1;
+            return; // connection closed, receive buffer is gone
         }
         if (rbuf[pos2] == 13) {
             // change CR to whitespace (sent by telnet)
@@ -1620,6 +1620,7 @@ void process_rbuf(InstData* d, int fd)
         if (rbuf[pos2] == '\n') {
             rbuf[pos2] = 0;
             got_cmd(d, fd, rbuf + pos1, pos2 - pos1);
+            if (fds->cb == 0) return; // quit: receive buffer is gone
             pos1 = pos2+1;
         }
         pos2++;
@@ -1661,6 +1662,7 @@ void got_bytes(InstData* d, int fd)
             rbuf[used] = '\n';
             d->fds[fd].rbuf_used++;
             process_rbuf(d, fd);
+            if (d->fds[fd].cb == 0) return; // closed by quit command
         }
 
         int lid = d->fds[fd].lid;
-- 
2.43.0


From 50dead7faee8798da7252e95b8540be17657432a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:44 +0000
Subject: [PATCH 49/76] fix: overlong commands and binary data from unknown
 sender in TCP2

---
 src/backend-tcp2.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index d0ee161..e301da1 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1593,8 +1593,8 @@ void process_rbuf(InstData* d, int fd)
             pos2 = pos1;
             continue;
         }
-        // start of bin mode?
-        if (rbuf[pos1] == 'B') {
+        // start of bin mode? (data only accepted from known peers)
+        if ((rbuf[pos1] == 'B') && (fds->lid >= 0)) {
             // 3 bytes header: 'B' + 2 bytes count (up to 64k of binary)
             if (pos1 + 2 >= used) {
                 // not enough bytes to cover header: stop
@@ -1641,6 +1641,13 @@ void got_bytes(InstData* d, int fd)
     int used = d->fds[fd].rbuf_used;
 
     if (used == RBUF_LEN) {
+        if (d->fds[fd].lid < 0) {
+            // sender is not part of LAIK
+            laik_log(LAIK_LL_Warning, "TCP2 command on FD %d too long; closing", fd);
+            close(fd);
+            rm_rfd(d, fd);
+            return;
+        }
         // buffer not large enough for even 1 command: should not happen
         laik_panic("TCP2 receive buffer too small for 1 command");
         exit(1);
-- 
2.43.0


From 7cd865937e76cf4405d3038d3d5e2587cf5dde36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:44 +0000
Subject: [PATCH 50/76] fix: ignore unknown IDs in myid command in TCP2

---
 src/backend-tcp2.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index e301da1..2c62662 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -948,15 +948,18 @@ void got_myid(InstData* d, int fd, int lid, char* msg)
         return;
     }
 
+    // must already be known, announced by master
+    if ((peerid < 0) || (peerid > d->maxid) || (d->peer[peerid].location == 0)) {
+        laik_log(LAIK_LL_Warning, "got unknown ID %d; ignoring", peerid);
+        return;
+    }
+
     lid = peerid;
     assert((lid >= 0) && (lid < MAX_PEERS));
-    assert(lid <= d->maxid);
     d->peer[lid].fd = fd;
     assert(fd >= 0);
     d->fds[fd].lid = lid;
 
-    // must already be known, announced by master
-    assert(d->peer[lid].location != 0);
     assert(d->peer[lid].host != 0);
     assert(d->peer[lid].port >= 0);
 
-- 
2.43.0


From 712b5a7e0e3fe20f5371d3a57eb5fd19576c4bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:44 +0000
Subject: [PATCH 51/76] fix: repeated register/cutoff commands on one
 connection in TCP2

---
 src/backend-tcp2.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 2c62662..aecb32d 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -851,7 +851,10 @@ void got_register(InstData* d, int fd, int lid, char* msg)
     if ((d->mystate != PS_InStartup) &&
         (d->mystate != PS_InResize1)) {
         // after startup: process later in resize()
-        assert(d->fds[fd].cmd == 0);
+        if (d->fds[fd].cmd) {
+            laik_log(LAIK_LL_Warning, "ignoring register command '%s', already queued", msg);
+            return;
+        }
 
         d->fds[fd].state = PS_RegReceived;
         d->fds[fd].cmd = strdup(msg);
@@ -975,7 +978,10 @@ void got_cutoff(InstData* d, int fd, char* msg)
 
     if (instance == 0) {
         // no instance yet to queue remove requests, need to replay
-        assert(d->fds[fd].cmd == 0);
+        if (d->fds[fd].cmd) {
+            laik_log(LAIK_LL_Warning, "ignoring cutoff command '%s', already one queued", msg);
+            return;
+        }
 
         d->fds[fd].state = PS_CutoffReceived;
         d->fds[fd].cmd = strdup(msg);
@@ -2576,6 +2582,7 @@ void tcp2_make_progress()
                 got_cutoff(d, fd, d->fds[fd].cmd);
                 free(d->fds[fd].cmd);
                 d->fds[fd].cmd = 0;
+                d->fds[fd].state = PS_Unknown; // replay only once
                 break;
             default:
                 break;
-- 
2.43.0


From 09c0ee38a9eaae8c0a8dcb4c127016be8e4adac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:44 +0000
Subject: [PATCH 52/76] fix: status command with long queued commands or
 unknown peers in TCP2

---
 src/backend-tcp2.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index aecb32d..5a56d11 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1101,6 +1101,7 @@ void got_status(InstData* d, int fd, int lid)
 
     send_cmd(d, lid, "# Known peers:");
     for(int i = 0; i <= d->maxid; i++) {
+        if (d->peer[i].state == PS_Invalid) continue; // not yet announced
         sprintf(msg, "#  LID%2d loc '%s' at host '%s' port %d flags %c", i,
                     d->peer[i].location, d->peer[i].host, d->peer[i].port,
                     d->peer[i].accepts_bin_data ? 'b':'-');
@@ -1126,7 +1127,8 @@ void got_status(InstData* d, int fd, int lid)
                 get_statestring(d->fds[i].state));
         send_cmd(d, lid, msg);
         if (d->fds[i].cmd) {
-            sprintf(msg, "#        queued for processing: '%s'", d->fds[i].cmd);
+            snprintf(msg, sizeof(msg),
+                     "#        queued for processing: '%s'", d->fds[i].cmd);
             send_cmd(d, lid, msg);
         }
     }
-- 
2.43.0


From 05eda99762c2eee9e3f81e80e9d511d11b20350a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:44 +0000
Subject: [PATCH 53/76] fix: do not abort in TCP2 on too many connections

---
 src/backend-tcp2.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 5a56d11..0101087 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1725,6 +1725,12 @@ void got_connect(InstData* d, int fd)
         exit(1);
     }
 
+    if (newfd >= MAX_FDS) {
+        laik_log(LAIK_LL_Warning, "TCP2 too many connections; closing");
+        close(newfd);
+        return;
+    }
+
     add_rfd(d, newfd, got_bytes);
     d->fds[newfd].state = PS_Unknown;
 
-- 
2.43.0


From 22a90c7b87c62a7001c7ab0637939a6bbc297fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:44 +0000
Subject: [PATCH 54/76] fix: do not block in TCP2 on clients not reading
 answers

---
 src/backend-tcp2.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 0101087..e9cbad0 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -654,12 +654,17 @@ void send_cmd(InstData* d, int lid, char* cmd)
     // write cmd (cope with partial writes and errors)
     int res, written = 0;
     while(written < len) {
-        res = write(fd, cmd + written, len - written);
+        // without LID: do not block if receiver does not read
+        if (lid < 0)
+            res = send(fd, cmd + written, len - written, MSG_DONTWAIT);
+        else
+            res = write(fd, cmd + written, len - written);
         if (res < 0) break;
         written += res;
     }
     // send NL if not last char of cmd
-    if ((res >= 0) && (nlptr == 0)) while((res = write(fd, "\n", 1)) == 0);
+    if ((res >= 0) && (nlptr == 0))
+        while((res = send(fd, "\n", 1, (lid < 0) ? MSG_DONTWAIT : 0)) == 0);
 
     if (res < 0) {
         int e = errno;
-- 
2.43.0


From e5aa271465f12b6372338059e049e181f6c5ad17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:29 +0000
Subject: [PATCH 55/76] fix: log lines longer than the line buffer overflowed
 it

---
 src/logging.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index 14e49a1..243eb4f 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -279,8 +279,8 @@ void log_flush()
     counter++;
 
 #define LINE_LEN 100
-    // enough for prefix plus one line of log message
-    static char buf2[150 + LINE_LEN];
+    // enough for prefix of a line, not including the log message
+    static char buf2[150];
     int off1 = 0, off, off2;
 
     char* buf1 = current_logBuffer;
@@ -303,7 +303,7 @@ void log_flush()
         line_counter++;
         off2 = sprintf(buf2, "%s ", (line_counter == 1) ? "==" : "..");
         if (laik_loginst == 0) {
-            off2 += sprintf(buf2+off2, "%-7s: ",
+            off2 += sprintf(buf2+off2, "%-7.100s: ",
                             laik_log_mylocation ? laik_log_mylocation : "");
 
         }
@@ -330,8 +330,7 @@ void log_flush()
         }
 
         // indent: add 4 spaces if this is continuation line
-        off2 += sprintf(buf2+off2, "%*s",
-                        at_newline ? spaces : spaces + 4, "");
+        int indent = at_newline ? spaces : spaces + 4;
 
         at_newline = false;
         off = off1;
@@ -354,13 +353,13 @@ void log_flush()
             off++;
         }
         if (buf1[off]) buf1[off++] = 0;
-        off2 += sprintf(buf2+off2, "%s\n", buf1 + off1);
-        off1 = off;
 
-        assert(off2 < 150 + LINE_LEN);
+        assert(off2 < 150);
 
+        // message line may be longer than LINE_LEN if it cannot be broken
         // TODO: allow to go to debug file
-        fprintf(stderr, "%s", buf2);
+        fprintf(stderr, "%s%*s%s\n", buf2, indent, "", buf1 + off1);
+        off1 = off;
     }
     current_logPos = 0;
 
-- 
2.43.0


From 515952d516d4d4221ebe2f5faba649b335265a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:40 +0000
Subject: [PATCH 56/76] fix: log buffer not enlarged enough when appending a
 large message part

---
 src/logging.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logging.c b/src/logging.c
index 243eb4f..e2adf42 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -223,7 +223,7 @@ void log_append(const char *format, va_list ap)
     // does it fit into buffer? (len is without terminating zero byte)
     if (len >= left) {
         int size = 2 * current_logSize;
-        if (size < len + 1) size = len + 1;
+        if (size < current_logPos + len + 1) size = current_logPos + len + 1;
         current_logBuffer = realloc(current_logBuffer, size);
         current_logSize = size;
         // printf("Enlarging log buffer to %d bytes ...\n", size);
-- 
2.43.0


From d07dd85b6899e47422775ff4e96276ff7ab0e3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:00 +0000
Subject: [PATCH 57/76] fix: crash if file given with LAIK_LOG_FILE cannot be
 opened

---
 src/logging.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index e2adf42..ee22f06 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -84,12 +84,19 @@ void laik_log_init_internal()
 
     str = getenv("LAIK_LOG_FILE");
     if(str){
-        laik_logfile = freopen(str, "a+", stdout);
+        // check first that file can be opened: freopen always closes stdout
+        FILE* f = fopen(str, "a+");
+        if (f) {
+            fclose(f);
+            laik_logfile = freopen(str, "a+", stdout);
+        }
         if(!laik_logfile){
             laik_log(LAIK_LL_Error, "Cannot Initialize File for print output.\n");
         }
-        stderr = laik_logfile;
-        stdout = laik_logfile;
+        else {
+            stderr = laik_logfile;
+            stdout = laik_logfile;
+        }
     }
 
 }
-- 
2.43.0


From b8f21da9af69cde9c66af3b616c225fcb1c8794b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:00 +0000
Subject: [PATCH 58/76] fix: with LAIK_LOG_FILE, stdout/stderr were closed by
 laik_finalize

---
 src/logging.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/logging.c b/src/logging.c
index ee22f06..e9b2d93 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -135,8 +135,9 @@ void laik_log_cleanup(Laik_Instance* i)
 
     laik_log_flush(0);
 
+    // the log file still is used as stdout/stderr of the program: do not close
     if (laik_logfile)
-        fclose(laik_logfile);
+        fflush(laik_logfile);
 }
 
 // reset start time for log output
-- 
2.43.0


From 4149216a692d371046915e92685342b81dfe8433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:00 +0000
Subject: [PATCH 59/76] fix: logging of KVS values read beyond value without
 zero-termination

---
 src/kvs.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/kvs.c b/src/kvs.c
index 72eda7e..96a54d0 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -406,13 +406,16 @@ Laik_KVS_Entry* laik_kvs_set(Laik_KVStore* kvs, char* key, unsigned int size, ch
         return 0;
     }
 
+    // show at most 20 chars of value in log (not necessarily zero-terminated)
+    int log_vlen = (size < 20) ? (int) size : 20;
+
     Laik_KVS_Entry* e = laik_kvs_entry(kvs, key);
     bool created;
     if (e) {
         if (e->value) {
             if ((e->vlen == size) && (memcmp(e->value, value, (size_t) size) == 0)) {
-                laik_log(1, "KVS '%s': entry '%s' (size %d, '%.20s') already existing",
-                         kvs->name, key, size, value);
+                laik_log(1, "KVS '%s': entry '%s' (size %d, '%.*s') already existing",
+                         kvs->name, key, size, log_vlen, value);
                 return e;
             }
             free(e->value);
@@ -453,14 +456,14 @@ Laik_KVS_Entry* laik_kvs_set(Laik_KVStore* kvs, char* key, unsigned int size, ch
     e->vlen = size;
 
     if (created) {
-        laik_log(1, "KVS '%s': set new entry '%s' (size %d) to '%.20s'",
-                 kvs->name, key, size, value);
+        laik_log(1, "KVS '%s': set new entry '%s' (size %d) to '%.*s'",
+                 kvs->name, key, size, log_vlen, value);
 
         if (kvs->in_sync && kvs->created_func) (kvs->created_func)(kvs, e);
     }
     else {
-        laik_log(1, "KVS '%s': changed entry '%s' (size %d) to '%.20s'",
-                 kvs->name, key, size, value);
+        laik_log(1, "KVS '%s': changed entry '%s' (size %d) to '%.*s'",
+                 kvs->name, key, size, log_vlen, value);
 
         if (kvs->in_sync && kvs->changed_func) (kvs->changed_func)(kvs, e);
     }
-- 
2.43.0


From f15cc2dc6a1287a6ac329d437da4f38fe35a28f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:00 +0000
Subject: [PATCH 60/76] fix: partitioning names may overflow their buffer

---
 src/partitioning.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/partitioning.c b/src/partitioning.c
index f6a7eec..85bef26 100644
--- a/src/partitioning.c
+++ b/src/partitioning.c
@@ -275,8 +275,9 @@ Laik_Partitioning* laik_partitioning_new(char* name,
     }
 
     p->id = partitioning_id++;
-    p->name = strdup("            ");
-    sprintf(p->name, "%.10s-%d", name ? name : "part", p->id);
+    char buf[30];
+    snprintf(buf, sizeof(buf), "%.10s-%d", name ? name : "part", p->id);
+    p->name = strdup(buf);
 
     p->group = g;
     p->space = s;
-- 
2.43.0


From f01e1b7f0296cf2349f3dbc68cc25d7d9992eb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:13 +0000
Subject: [PATCH 61/76] fix: logging a partitioning accessed intersecting
 partitioning as string

---
 src/debug.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/debug.c b/src/debug.c
index b10d07f..5ab8f5d 100644
--- a/src/debug.c
+++ b/src/debug.c
@@ -289,8 +289,8 @@ void laik_log_Partitioning(Laik_Partitioning* p)
             laik_log_append("(run filtered with task %d): ", e->filter_tid);
             break;
         case LAIK_RI_INTERSECT:
-            laik_log_append("(run filtered with intersection with part '%s'): ",
-                            e->other);
+            // do not access other partitioning, may be freed already
+            laik_log_append("(run filtered with intersection with other part): ");
             break;
         }
         laik_log_RangeList(e->ranges);
-- 
2.43.0


From 949e86b43e9a67795f968874d86758de5ee6f43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:19 +0000
Subject: [PATCH 62/76] fix: total time for switching containers was never
 measured

laik_get_total_time() always returned 0, and thus less than the backend time
---
 src/data.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/data.c b/src/data.c
index 04b55a0..d10d871 100644
--- a/src/data.c
+++ b/src/data.c
@@ -1208,6 +1208,19 @@ void laik_reservation_alloc(Laik_Reservation* res)
     }
 }
 
+// for profiling: measure time spent in LAIK for switching containers
+static void startTotalTimer(Laik_Instance* inst)
+{
+    if (inst->profiling->do_profiling)
+        inst->profiling->timer_total = laik_wtime();
+}
+
+static void stopTotalTimer(Laik_Instance* inst)
+{
+    if (inst->profiling->do_profiling)
+        inst->profiling->time_total += laik_wtime() - inst->profiling->timer_total;
+}
+
 // execute a previously calculated transition on a data container
 void laik_exec_transition(Laik_Data* d, Laik_Transition* t)
 {
@@ -1223,12 +1236,14 @@ void laik_exec_transition(Laik_Data* d, Laik_Transition* t)
         exit(1);
     }
 
+    startTotalTimer(d->space->inst);
     Laik_MappingList* toList = prepareMaps(d, t->toPartitioning);
     doTransition(d, t, 0, d->activeMappings, toList);
 
     // set new mapping/partitioning active
     d->activePartitioning = t->toPartitioning;
     d->activeMappings = toList;
+    stopTotalTimer(d->space->inst);
 }
 
 Laik_ActionSeq* laik_calc_actions(Laik_Data* d,
@@ -1290,6 +1305,7 @@ void laik_exec_actions(Laik_ActionSeq* as)
         exit(1);
     }
 
+    startTotalTimer(d->space->inst);
     Laik_MappingList* toList = prepareMaps(d, t->toPartitioning);
 
     if (tc->prepFromList && (tc->prepFromList != d->activeMappings)) {
@@ -1310,6 +1326,7 @@ void laik_exec_actions(Laik_ActionSeq* as)
     // set new mapping/partitioning active
     d->activePartitioning = t->toPartitioning;
     d->activeMappings = toList;
+    stopTotalTimer(d->space->inst);
 }
 
 
@@ -1319,6 +1336,7 @@ void laik_switchto_partitioning(Laik_Data* d,
                                 Laik_ReductionOperation redOp)
 {
     // calculate actions to be done for switching
+    startTotalTimer(d->space->inst);
 
     Laik_Group *toGroup = 0, *fromGroup = 0, *commonGroup = 0;
     if (d->activePartitioning) {
@@ -1354,6 +1372,7 @@ void laik_switchto_partitioning(Laik_Data* d,
     // set new mapping/partitioning active
     d->activePartitioning = toP;
     d->activeMappings = toList;
+    stopTotalTimer(d->space->inst);
 }
 
 
-- 
2.43.0


From 913b20696df612e4611e5d2abe6863be0a31965a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:19 +0000
Subject: [PATCH 63/76] fix: profiling functions accessed a finalized instance

---
 src/profiling.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/profiling.c b/src/profiling.c
index 48502c4..f1ef34f 100644
--- a/src/profiling.c
+++ b/src/profiling.c
@@ -106,6 +106,8 @@ double laik_wtime()
 // FIXME: should close any open file if output-to-file is enabled
 void laik_free_profiling(Laik_Instance* i)
 {
+    if (laik_profinst == i)
+        laik_profinst = 0;
     free(i->profiling);
 }
 
-- 
2.43.0


From 465f0df4ebc1616c1783f9cf7a50707c73ab02aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:19 +0000
Subject: [PATCH 64/76] fix: laik_profile_printf crashed without profiling
 being enabled

---
 src/profiling.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/profiling.c b/src/profiling.c
index f1ef34f..bc1a9d3 100644
--- a/src/profiling.c
+++ b/src/profiling.c
@@ -251,6 +251,7 @@ void laik_close_profiling_file(Laik_Instance* i)
 // print arbitrary text to file in output-to-file mode
 void laik_profile_printf(const char* msg, ...)
 {
+    if (!laik_profinst) return;
     if (laik_profinst->profiling->profile_file) {
         va_list args;
         va_start(args, msg);
-- 
2.43.0


From fda03da695ebc837378993507c2c3bcbcb5a4bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:19 +0000
Subject: [PATCH 65/76] fix: crash if file for profiling cannot be opened

---
 src/profiling.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/profiling.c b/src/profiling.c
index bc1a9d3..f007c53 100644
--- a/src/profiling.c
+++ b/src/profiling.c
@@ -191,6 +191,7 @@ void laik_enable_profiling_file(Laik_Instance* i, const char* filename)
     i->profiling->profile_file = fopen(filename, "a+");
     if (i->profiling->profile_file == NULL) {
         laik_log(LAIK_LL_Error, "Unable to start file based profiling");
+        return;
     }
 
     fprintf((FILE*)i->profiling->profile_file, "======MEASUREMENT START AT: %lu======\n", 
-- 
2.43.0


From fd12e76abb71be8800e2c962acf8bd124b549878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:19 +0000
Subject: [PATCH 66/76] fix: library handles of agents stored at wrong
 position, accepting too many agents

---
 src/external.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/external.c b/src/external.c
index e1f7645..e3e6b4a 100644
--- a/src/external.c
+++ b/src/external.c
@@ -120,7 +120,7 @@ void laik_ext_load_agent_from_file (
     ctrl = instance->repart_ctrl;
 
     //ensure less than MAX_AGENT
-    assert(ctrl->num_agents <= MAX_AGENTS);
+    assert(ctrl->num_agents < MAX_AGENTS);
 
     handle = dlopen(path, RTLD_LAZY);
     if(!handle){
@@ -135,8 +135,8 @@ void laik_ext_load_agent_from_file (
     assert(agent);
 
     ctrl->agents[ctrl->num_agents] = agent;
-    ctrl->num_agents++;
     ctrl->handles[ctrl->num_agents] = handle;
+    ctrl->num_agents++;
     laik_log(LAIK_LL_Debug, "laik_ext_load_agent done ! L:2 \n");
 }
 
@@ -169,15 +169,15 @@ void laik_ext_loadagent (
     ctrl = instance->repart_ctrl;
 
     //ensure less than MAX_AGENT
-    assert(ctrl->num_agents <= MAX_AGENTS);
+    assert(ctrl->num_agents < MAX_AGENTS);
 
     agent = init(argc, argv);
 
     assert(agent);
 
     ctrl->agents[ctrl->num_agents] = agent;
-    ctrl->num_agents++;
     ctrl->handles[ctrl->num_agents] = NULL;
+    ctrl->num_agents++;
 }
 
 /** 
-- 
2.43.0


From 0e70fe4671c0400363e8a7b8e50e3c543fc7c407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:34 +0000
Subject: [PATCH 67/76] fix: failed nodes of all but the last agent got lost,
 and could overflow the buffer given

---
 src/external.c | 47 ++++++++++++++++++-----------------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/src/external.c b/src/external.c
index e3e6b4a..8a358f2 100644
--- a/src/external.c
+++ b/src/external.c
@@ -225,15 +225,14 @@ void laik_get_failed (
     int max_failed
 ){
 
-    (void) max_failed;
     Laik_RepartitionControl* ctrl;
-    int i, n; //, count;
+    int i, n, count;
     assert(instance);    
     ctrl = instance->repart_ctrl;
     assert(ctrl);
     
 
-    //count = 0;
+    count = 0;
     for(i=0; i < ctrl -> num_agents; i++){
         Laik_Agent* agent = ctrl->agents[i];
 
@@ -248,35 +247,25 @@ void laik_get_failed (
                 continue;
             }
 
-            // Yes: (1) Get uids; (2) Map; (3) Create List
-            // (1) Get a list of node_uids
-
-
-            fta->getfail(num_failed, failed_ranks);
-
-            //printf("fta-> getfail: %d \n", *num_failed);
-            for(int k = 0 ; k < *num_failed; k++ )
-			{
-				laik_log(LAIK_LL_Debug, " Buf: %s   - % d \n",(failed_ranks + k)->uid, k);
-				fflush(stdout);
-			}
-
-            // (2) Map the failed nodes to ranks
-            //for(j=0;j<n;j++){
-                // Prevent Segmentation Fault
-                //assert(count < max_failed);
-
-                // Map node uid to laik id
-                //int id = laik_map_id(instance, &buffer[i]);
-                
-                // fill the whole list
-                //*failed_ranks[count] = id;
-             //   count++;
-           // }
+            // Get a list of node uids of this agent, append to result.
+            // Agents do not know the size of the given buffer
+            int nf = 0;
+            if (n < MAX_FAILED_BUFFER) n = MAX_FAILED_BUFFER;
+            node_uid_t* buf = calloc(n, sizeof(node_uid_t));
+            assert(buf);
+            fta->getfail(&nf, buf);
+
+            for(int k = 0 ; k < nf; k++ )
+            {
+                laik_log(LAIK_LL_Debug, " Buf: %s   - % d \n", buf[k].uid, k);
+                if (count < max_failed)
+                    failed_ranks[count++] = buf[k];
+            }
+            free(buf);
         }
     }
 
-
+    *num_failed = count;
 }
 
 /** 
-- 
2.43.0


From e6b864728d316316e46b43c542344b55dec99b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:02 +0000
Subject: [PATCH 68/76] fix: TCP backend mixed up messages of groups with the
 same parent

---
 src/backends/tcp/minimpi.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/backends/tcp/minimpi.c b/src/backends/tcp/minimpi.c
index f2eb846..cd07221 100644
--- a/src/backends/tcp/minimpi.c
+++ b/src/backends/tcp/minimpi.c
@@ -36,7 +36,8 @@
 struct Laik_Tcp_MiniMpiComm {
     GArray*  tasks;      // Mapping from per-communicator ranks to world ranks
     size_t   rank;       // Our own rank in this communicator
-    size_t   generation; // The number of generations to the world communicator
+    size_t   generation; // Identifier of this communicator, derived from its ancestors
+    size_t   children;   // The number of communicators created from this one
 };
 
 typedef struct __attribute__ ((packed)) {
@@ -83,6 +84,22 @@ static Laik_Tcp_MiniMpiComm* laik_tcp_minimpi_new (GArray* tasks, size_t rank, s
     return this;
 }
 
+// Identifier for a new communicator created from the given one. As creation is
+// collective, all members get the same identifier. It must be different for
+// communicators with same parent: their messages may use the same ranks
+__attribute__ ((warn_unused_result))
+static size_t laik_tcp_minimpi_child (const Laik_Tcp_MiniMpiComm* comm) {
+    laik_tcp_always (comm);
+
+    const uint64_t child = ++((Laik_Tcp_MiniMpiComm*) comm)->children;
+    uint64_t       id    = comm->generation * 0x9e3779b97f4a7c15u + child;
+
+    // Mix all bits, to not collide with identifiers at other levels
+    id = (id ^ (id >> 30)) * 0xbf58476d1ce4e5b9u;
+    id = (id ^ (id >> 27)) * 0x94d049bb133111ebu;
+    return id ^ (id >> 31);
+}
+
 __attribute__ ((warn_unused_result))
 static size_t laik_tcp_minimpi_lookup (const Laik_Tcp_MiniMpiComm* comm, size_t rank) {
     laik_tcp_always (comm);
@@ -353,7 +370,7 @@ int laik_tcp_minimpi_bcast (void* buffer, const int elements, const Laik_Tcp_Min
 int laik_tcp_minimpi_comm_dup (const Laik_Tcp_MiniMpiComm* comm, Laik_Tcp_MiniMpiComm** new_communicator) {
     laik_tcp_always (comm);
 
-    *new_communicator = laik_tcp_minimpi_new (g_array_ref (comm->tasks), comm->rank, comm->generation + 1);
+    *new_communicator = laik_tcp_minimpi_new (g_array_ref (comm->tasks), comm->rank, laik_tcp_minimpi_child (comm));
 
     return LAIK_TCP_MINIMPI_SUCCESS;
 }
@@ -496,7 +513,7 @@ int laik_tcp_minimpi_comm_split (const Laik_Tcp_MiniMpiComm* comm, const int col
     laik_tcp_always (new_local_rank < tasks->len);
 
     // Construct the new communicator
-    *new_communicator = laik_tcp_minimpi_new (g_steal_pointer (&tasks), new_local_rank, comm->generation + 1);
+    *new_communicator = laik_tcp_minimpi_new (g_steal_pointer (&tasks), new_local_rank, laik_tcp_minimpi_child (comm));
 
     return LAIK_TCP_MINIMPI_SUCCESS;
 }
-- 
2.43.0


From c12e557f02a60ec9603d659e86616067262b16af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:43 +0000
Subject: [PATCH 69/76] fix: TCP backend: order of tasks with same or distant
 hint in split communicators differed

---
 src/backends/tcp/minimpi.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/backends/tcp/minimpi.c b/src/backends/tcp/minimpi.c
index cd07221..19963a1 100644
--- a/src/backends/tcp/minimpi.c
+++ b/src/backends/tcp/minimpi.c
@@ -156,7 +156,11 @@ static int laik_tcp_split_compare (const void* a, const void* b) {
     const Laik_Tcp_Split* x = a;
     const Laik_Tcp_Split* y = b;
 
-    return x->hint - y->hint;
+    // Same order in all tasks required: with same hint, order by old rank
+    if (x->hint != y->hint) {
+        return x->hint < y->hint ? -1 : 1;
+    }
+    return (x->rank > y->rank) - (x->rank < y->rank);
 }
 
 static size_t laik_tcp_minimpi_sizeof (const Laik_Tcp_MiniMpiType datatype, Laik_Tcp_Errors* errors) {
-- 
2.43.0


From b98383470bf29c162430326cce316d5489049578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:38 +0000
Subject: [PATCH 70/76] fix: migration of own ranges by process not in old
 group read out of bounds

---
 src/partitioning.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/partitioning.c b/src/partitioning.c
index 85bef26..009e5ff 100644
--- a/src/partitioning.c
+++ b/src/partitioning.c
@@ -646,8 +646,9 @@ void laik_partitioning_migrate(Laik_Partitioning* p, Laik_Group* newg)
     RangeList_Entry* e = p->rangeList;
     while(e) {
         if (e->info == LAIK_RI_SINGLETASK) {
+            // own ranges: <fromOld> has no entry if not in old group
             assert(e->filter_tid < oldg->size);
-            e->filter_tid = fromOld[e->filter_tid];
+            e->filter_tid = newg->myid;
         }
         laik_rangelist_migrate(e->ranges, fromOld, (unsigned int) newg->size);
         e = e->next;
-- 
2.43.0


From 9bccefb7bce06eff0793444ab64d204f1f6b67dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:00 +0000
Subject: [PATCH 71/76] fix: 3-step group reduction without any process
 interested in the result

---
 src/action.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/action.c b/src/action.c
index 90b8892..c0a0469 100644
--- a/src/action.c
+++ b/src/action.c
@@ -2071,6 +2071,9 @@ void laik_aseq_addReduce3Rounds(Laik_ActionSeq* as,
     Laik_Transition* t = tc->transition;
     Laik_Data* data = tc->data;
 
+    // nothing to do if no process is interested in the result
+    if (laik_trans_groupCount(t, ba->outputGroup) == 0) return;
+
     // do the manual reduction on smallest rank of output group
     int reduceTask = laik_trans_taskInGroup(t, ba->outputGroup, 0);
     int myid = t->group->myid;
-- 
2.43.0


From 52cbfff6f53ecca9ce028a109c4e2beaa28c4565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:09 +0000
Subject: [PATCH 72/76] fix: MPI backend posts asynchronous receives not before
 their round

---
 src/backend-mpi.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index 94c8c7a..9fa9862 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -213,7 +213,7 @@ bool laik_mpi_log_action(Laik_Action* a)
 
 // transformation: split send/recv actions into isend/irecv + wait
 // - replace send with isend and wait for completion at end of the round
-// - replace recv with irecv at begin and wait at original position
+// - replace recv with irecv at begin of the round and wait at original position
 bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
 {
     // must not have new actions, we want to start a new build
@@ -228,7 +228,9 @@ bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
 
     if (count == 0) return false;
 
-    // add a new round 0 for MpiReq and all MpiIrecv actions
+    // add a new round before each round for the MpiIrecv actions of the round
+    // (MpiReq is in front). Receives must not be posted earlier: actions of
+    // previous rounds may still use the buffer to receive into
     //
     // Waits for MpiISend actions are added at the end of the round of the
     // sends: actions of later rounds (eg. local reductions) may overwrite
@@ -243,7 +245,7 @@ bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
         switch(a->type) {
         case LAIK_AT_BufSend: {
             Laik_A_BufSend* aa = (Laik_A_BufSend*) a;
-            laik_mpi_addMpiIsend(as, a->round + 1,
+            laik_mpi_addMpiIsend(as, 2 * a->round + 1,
                                  aa->buf, aa->count, aa->to_rank, req_id);
             req_id++;
             break;
@@ -251,16 +253,16 @@ bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
 
         case LAIK_AT_BufRecv: {
             Laik_A_BufRecv* aa = (Laik_A_BufRecv*) a;
-            laik_mpi_addMpiIrecv(as, 0,
+            laik_mpi_addMpiIrecv(as, 2 * a->round,
                                  aa->buf, aa->count, aa->from_rank, req_id);
-            laik_mpi_addMpiWait(as, a->round + 1, req_id);
+            laik_mpi_addMpiWait(as, 2 * a->round + 1, req_id);
             req_id++;
             break;
         }
 
         default:
-            // all rounds up by one due to new round 0
-            laik_aseq_add(a, as, a->round + 1);
+            // make space for new rounds
+            laik_aseq_add(a, as, 2 * a->round + 1);
             break;
         }
     }
@@ -271,7 +273,7 @@ bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
     a = as->action;
     for(unsigned int i = 0; i < as->actionCount; i++, a = nextAction(a)) {
         if (a->type == LAIK_AT_BufSend)
-            laik_mpi_addMpiWait(as, a->round + 1, req_id);
+            laik_mpi_addMpiWait(as, 2 * a->round + 1, req_id);
         if ((a->type == LAIK_AT_BufRecv) || (a->type == LAIK_AT_BufSend))
             req_id++;
     }
-- 
2.43.0


From 0edc303972b45c36c66c03c8b71dd6c0500a46ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:34 +0000
Subject: [PATCH 73/76] fix: simple agent writes failed node into the list
 given

laik_get_failed passes an array of node UIDs, but the agent took it as
array of pointers, crashing when reporting a failure
---
 external/simple/simple-agent.c | 7 +++----
 external/simple/simple-agent.h | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/external/simple/simple-agent.c b/external/simple/simple-agent.c
index 8fe8a8e..c3ea923 100644
--- a/external/simple/simple-agent.c
+++ b/external/simple/simple-agent.c
@@ -61,9 +61,9 @@ void sa_set_iter(
 
 void sa_getfailed(
     int* n_failed,
-    node_uid_t** l_failed
+    node_uid_t* l_failed
 ){
-    char* buf = (*l_failed[0]).uid;
+    char* buf = l_failed[0].uid;
 #ifdef __DEBUG__
     printf("Simple Agent: Get Failed, fail_iter = %d, aIter = %d\n", fail_iter, aIter);    
 #endif
@@ -114,8 +114,7 @@ Laik_Agent* agent_init(
     myBase->detach = sa_detach;
     myBase->reset = sa_reset;
 
-    // FIXME: the cast suppresses a warning: wrong types! (JW)
-    me->getfail = (laik_agent_get_failed) sa_getfailed;
+    me->getfail = sa_getfailed;
     me->peekfail = sa_peekfailed;
     me->setiter = sa_set_iter;
 #ifdef __DEBUG__
diff --git a/external/simple/simple-agent.h b/external/simple/simple-agent.h
index f11ab0b..ed07852 100644
--- a/external/simple/simple-agent.h
+++ b/external/simple/simple-agent.h
@@ -28,7 +28,7 @@ Laik_Agent* agent_init(
 
 void sa_getfailed(
     int* n_failed,
-    node_uid_t** l_failed
+    node_uid_t* l_failed
 );
 
 void sa_set_iter(
-- 
2.43.0


From fcbde28ad8b0b4b2abb4448f17afa553ac1fe17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:32 +0000
Subject: [PATCH 74/76] fix: sorting actions by digits of ranks fails with
 actions other than send/receive

---
 src/action.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/action.c b/src/action.c
index c0a0469..5ac4dc6 100644
--- a/src/action.c
+++ b/src/action.c
@@ -1724,8 +1724,8 @@ int cmp_rankdigits(const void* aptr1, const void* aptr2)
     bool a2isSend = laik_action_isSend(a2);
     bool a1isRecv = laik_action_isRecv(a1);
     bool a2isRecv = laik_action_isRecv(a2);
-    int a1peer = getActionPeer(a1);
-    int a2peer = getActionPeer(a2);
+    int a1peer = (a1isSend || a1isRecv) ? getActionPeer(a1) : 0;
+    int a2peer = (a2isSend || a2isRecv) ? getActionPeer(a2) : 0;
 
     // phase number is number of lower digits equal to my rank
     int a1phase = 0, a2phase = 0, mask = 0;
-- 
2.43.0


From c679050ceadc1313d07e2abc050727b04ee4467c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:39 +0000
Subject: [PATCH 75/76] fix: switching a container never releases the
 calculated transition

---
 src/data.c  | 3 +++
 src/space.c | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/data.c b/src/data.c
index d10d871..71d5e09 100644
--- a/src/data.c
+++ b/src/data.c
@@ -1369,6 +1369,9 @@ void laik_switchto_partitioning(Laik_Data* d,
         laik_partitioning_migrate(toP, toGroup);
     }
 
+    // transition was only needed for this switch
+    laik_free_transition(t);
+
     // set new mapping/partitioning active
     d->activePartitioning = toP;
     d->activeMappings = toList;
diff --git a/src/space.c b/src/space.c
index e9594cd..f681015 100644
--- a/src/space.c
+++ b/src/space.c
@@ -1676,6 +1676,7 @@ void laik_free_transition(Laik_Transition* t)
     if (!t) return;
 
     laik_log(1, "free transition '%s'", t->name);
+    free(t->name);
     free(t);
 }
 
-- 
2.43.0


From a0248a089c7eb79a7e336879fafad1432b4a6697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:55:09 +0000
Subject: [PATCH 76/76] fix: memory of released containers, partitionings,
 reservations and action sequences is not returned completely

---
 src/action.c       | 1 +
 src/data.c         | 7 ++++++-
 src/partitioning.c | 7 ++++++-
 src/rangelist.c    | 1 +
 4 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/action.c b/src/action.c
index 5ac4dc6..16294c0 100644
--- a/src/action.c
+++ b/src/action.c
@@ -112,6 +112,7 @@ void laik_aseq_free(Laik_ActionSeq* as)
     free(as->action);
     free(as->newAction);
 
+    free(as->name);
     free(as);
 }
 
diff --git a/src/data.c b/src/data.c
index 71d5e09..f694c95 100644
--- a/src/data.c
+++ b/src/data.c
@@ -214,7 +214,9 @@ void laik_data_set_name(Laik_Data* d, char* n)
 {
     laik_log(1, "data '%s' renamed to '%s'", d->name, n);
 
-    d->name = n;
+    char* old = d->name;
+    d->name = strdup(n);
+    free(old);
 }
 
 // get space used for data
@@ -974,6 +976,8 @@ void laik_reservation_free(Laik_Reservation* r)
     if (r->data->activeReservation == r)
         r->data->activeReservation = 0;
 
+    free(r->entry);
+    free(r->name);
     free(r);
 }
 
@@ -1672,6 +1676,7 @@ void laik_free(Laik_Data* d)
 
     laik_removeDataFromInstance(d->space->inst, d);
     free(d->stat);
+    free(d->name);
     free(d);
 }
 
diff --git a/src/partitioning.c b/src/partitioning.c
index 009e5ff..ca2548d 100644
--- a/src/partitioning.c
+++ b/src/partitioning.c
@@ -324,9 +324,12 @@ void laik_free_partitioning(Laik_Partitioning* p)
 {
     RangeList_Entry* e = p->rangeList;
     while(e) {
+        RangeList_Entry* next = e->next;
         laik_rangelist_free(e->ranges);
-        e = e->next;
+        free(e);
+        e = next;
     }
+    free(p->name);
     free(p);
 }
 
@@ -771,5 +774,7 @@ Laik_TaskRange* laik_my_range_3d(Laik_Partitioning* p, int n,
 // give an access phase a name, for debug output
 void laik_partitioning_set_name(Laik_Partitioning* p, char* n)
 {
+    char* old = p->name;
     p->name = strdup(n);
+    free(old);
 }
diff --git a/src/rangelist.c b/src/rangelist.c
index d0c51fb..d745421 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -57,6 +57,7 @@ void laik_rangelist_free(Laik_RangeList* list)
     free(list->tss1d);
     free(list->off);
     free(list->map_off);
+    free(list);
 }
 
 // does this cover the full space with one range for each process?
-- 
2.43.0

