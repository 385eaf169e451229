From 5e3cbd5464e332c19078f8ff648dc92697564f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 001/120] fix: SaPCollisionManager::empty() returned the
 opposite of what it says

---
 include/fcl/broadphase/broadphase_SaP-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/broadphase/broadphase_SaP-inl.h b/include/fcl/broadphase/broadphase_SaP-inl.h
index 7d201c7..6525750 100644
--- a/include/fcl/broadphase/broadphase_SaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SaP-inl.h
@@ -872,7 +872,7 @@ void SaPCollisionManager<S>::distance(BroadPhaseCollisionManager<S>* other_manag
 template <typename S>
 bool SaPCollisionManager<S>::empty() const
 {
-  return AABB_arr.size();
+  return AABB_arr.empty();
 }
 
 //==============================================================================
-- 
2.43.0


From 9e5a7eefe334dd10f529d3468e91ad04cc557ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 002/120] fix: SaPCollisionManager::unregisterObject used an
 erased list node and left freed endpoints in velist

---
 include/fcl/broadphase/broadphase_SaP-inl.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_SaP-inl.h b/include/fcl/broadphase/broadphase_SaP-inl.h
index 6525750..bc567bb 100644
--- a/include/fcl/broadphase/broadphase_SaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SaP-inl.h
@@ -58,14 +58,13 @@ void SaPCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
       break;
   }
 
-  AABB_arr.erase(it);
-  obj_aabb_map.erase(obj);
-
   if(it == AABB_arr.end())
     return;
 
   SaPAABB* curr = *it;
-  *it = nullptr;
+
+  AABB_arr.erase(it);
+  obj_aabb_map.erase(obj);
 
   for(int coord = 0; coord < 3; ++coord)
   {
@@ -92,8 +91,10 @@ void SaPCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
   delete curr;
 
   overlap_pairs.remove_if(isUnregistered(obj));
+
+  updateVelist();
 }
-\
+
 //==============================================================================
 template <typename S>
 SaPCollisionManager<S>::SaPCollisionManager()
-- 
2.43.0


From 6390b475fe42a31649b5fa9c65ee68dfeec86444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 003/120] fix: SaPCollisionManager missed pairs when an object
 was registered inside, or touching, another, and reported some twice

---
 include/fcl/broadphase/broadphase_SaP-inl.h | 39 ++++++++++-----------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_SaP-inl.h b/include/fcl/broadphase/broadphase_SaP-inl.h
index bc567bb..b05d51b 100644
--- a/include/fcl/broadphase/broadphase_SaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SaP-inl.h
@@ -146,10 +146,15 @@ void SaPCollisionManager<S>::registerObjects(const std::vector<CollisionObject<S
     S scale[3];
     for(size_t coord = 0; coord < 3; ++coord)
     {
+      // lo end points come first among equal values, so that touching intervals
+      // count as overlapping and a flat interval starts before it ends
       std::sort(endpoints.begin(), endpoints.end(),
-                std::bind(std::less<S>(),
-                            std::bind(static_cast<S (EndPoint::*)(size_t) const >(&EndPoint::getVal), std::placeholders::_1, coord),
-                            std::bind(static_cast<S (EndPoint::*)(size_t) const >(&EndPoint::getVal), std::placeholders::_2, coord)));
+                [coord](const EndPoint* a, const EndPoint* b)
+                {
+                  const S va = a->getVal(coord);
+                  const S vb = b->getVal(coord);
+                  return (va < vb) || (va == vb && a->minmax < b->minmax);
+                });
 
       endpoints[0]->prev[coord] = nullptr;
       endpoints[0]->next[coord] = endpoints[1];
@@ -259,24 +264,12 @@ void SaPCollisionManager<S>::registerObject(CollisionObject<S>* obj)
     EndPoint* curr_hi = curr->hi;
     S curr_hi_val = curr_hi->getVal()[coord];
 
-    if(coord == 0)
-    {
-      while((current->getVal()[coord] < curr_hi_val) && (current->next[coord] != nullptr))
-      {
-        if(current != curr->lo)
-          if(current->aabb->cached.overlap(curr->cached))
-            overlap_pairs.emplace_back(current->aabb->obj, obj);
-
-        current = current->next[coord];
-      }
-    }
-    else
-    {
-      while((current->getVal()[coord] < curr_hi_val) && (current->next[coord] != nullptr))
-        current = current->next[coord];
-    }
+    // the hi end point goes behind every end point of the same value, so that
+    // it follows its own lo end point and those of the objects it touches
+    while((current->getVal()[coord] <= curr_hi_val) && (current->next[coord] != nullptr))
+      current = current->next[coord];
 
-    if(current->getVal()[coord] >= curr_hi_val)
+    if(current->getVal()[coord] > curr_hi_val)
     {
       curr_hi->prev[coord] = current->prev[coord];
       curr_hi->next[coord] = current;
@@ -295,6 +288,12 @@ void SaPCollisionManager<S>::registerObject(CollisionObject<S>* obj)
     }
   }
 
+  for(auto it = AABB_arr.cbegin(), end = AABB_arr.cend(); it != end; ++it)
+  {
+    if((*it)->cached.overlap(curr->cached))
+      overlap_pairs.emplace_back((*it)->obj, obj);
+  }
+
   AABB_arr.push_back(curr);
 
   obj_aabb_map[obj] = curr;
-- 
2.43.0


From d4a7992cd12966cd707f7da55315f59bec75b679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 004/120] fix: SaPCollisionManager::update corrupted its lists
 when an AABB changes size and missed touching pairs

---
 include/fcl/broadphase/broadphase_SaP-inl.h | 172 ++++++++------------
 include/fcl/broadphase/broadphase_SaP.h     |   4 +
 2 files changed, 73 insertions(+), 103 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_SaP-inl.h b/include/fcl/broadphase/broadphase_SaP-inl.h
index b05d51b..756df1a 100644
--- a/include/fcl/broadphase/broadphase_SaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SaP-inl.h
@@ -334,133 +334,99 @@ void SaPCollisionManager<S>::update_(SaPAABB* updated_aabb)
 
   for(int coord = 0; coord < 3; ++coord)
   {
-    int direction; // -1 reverse, 0 nochange, 1 forward
+    EndPoint* const lo = current->lo;
+    EndPoint* const hi = current->hi;
     EndPoint* temp;
 
-    if(current->lo->getVal(coord) > new_min[coord])
-      direction = -1;
-    else if(current->lo->getVal(coord) < new_min[coord])
-      direction = 1;
-    else direction = 0;
-
-    if(direction == -1)
+    // The end points that extend the interval are moved before those that
+    // shrink it, so that lo never passes hi. Either may move on its own, as the
+    // size of the AABB can change. Among equal values lo end points come first.
+    if(lo->getVal(coord) > new_min[coord])
     {
-      //first update the "lo" endpoint of the interval
-      if(current->lo->prev[coord] != nullptr)
+      temp = lo->prev[coord];
+      while((temp != nullptr) && (temp->getVal(coord) >= new_min[coord]))
       {
-        temp = current->lo;
-        while((temp != nullptr) && (temp->getVal(coord) > new_min[coord]))
-        {
-          if(temp->minmax == 1)
-            if(temp->aabb->cached.overlap(dummy.cached))
-              addToOverlapPairs(SaPPair(temp->aabb->obj, current->obj));
-          temp = temp->prev[coord];
-        }
-
-        if(temp == nullptr)
-        {
-          current->lo->prev[coord]->next[coord] = current->lo->next[coord];
-          current->lo->next[coord]->prev[coord] = current->lo->prev[coord];
-          current->lo->prev[coord] = nullptr;
-          current->lo->next[coord] = elist[coord];
-          elist[coord]->prev[coord] = current->lo;
-          elist[coord] = current->lo;
-        }
-        else
-        {
-          current->lo->prev[coord]->next[coord] = current->lo->next[coord];
-          current->lo->next[coord]->prev[coord] = current->lo->prev[coord];
-          current->lo->prev[coord] = temp;
-          current->lo->next[coord] = temp->next[coord];
-          temp->next[coord]->prev[coord] = current->lo;
-          temp->next[coord] = current->lo;
-        }
+        if(temp->minmax == 1)
+          if(temp->aabb->cached.overlap(dummy.cached))
+            addToOverlapPairs(SaPPair(temp->aabb->obj, current->obj));
+        temp = temp->prev[coord];
       }
 
-      current->lo->getVal(coord) = new_min[coord];
+      moveBehind(lo, temp, coord);
+      lo->getVal(coord) = new_min[coord];
+    }
 
-      // update hi end point
-      temp = current->hi;
-      while(temp->getVal(coord) > new_max[coord])
+    if(hi->getVal(coord) < new_max[coord])
+    {
+      temp = hi;
+      while((temp->next[coord] != nullptr) && (temp->next[coord]->getVal(coord) <= new_max[coord]))
       {
-        if((temp->minmax == 0) && (temp->aabb->cached.overlap(current->cached)))
-          removeFromOverlapPairs(SaPPair(temp->aabb->obj, current->obj));
-        temp = temp->prev[coord];
+        temp = temp->next[coord];
+        if(temp->minmax == 0)
+          if(temp->aabb->cached.overlap(dummy.cached))
+            addToOverlapPairs(SaPPair(temp->aabb->obj, current->obj));
       }
 
-      current->hi->prev[coord]->next[coord] = current->hi->next[coord];
-      if(current->hi->next[coord] != nullptr)
-        current->hi->next[coord]->prev[coord] = current->hi->prev[coord];
-      current->hi->prev[coord] = temp;
-      current->hi->next[coord] = temp->next[coord];
-      if(temp->next[coord] != nullptr)
-        temp->next[coord]->prev[coord] = current->hi;
-      temp->next[coord] = current->hi;
-
-      current->hi->getVal(coord) = new_max[coord];
+      moveBehind(hi, temp, coord);
+      hi->getVal(coord) = new_max[coord];
     }
-    else if(direction == 1)
+
+    if(lo->getVal(coord) < new_min[coord])
     {
-      //here, we first update the "hi" endpoint.
-      if(current->hi->next[coord] != nullptr)
+      temp = lo;
+      while(temp->next[coord]->getVal(coord) < new_min[coord])
       {
-        temp = current->hi;
-        while((temp->next[coord] != nullptr) && (temp->getVal(coord) < new_max[coord]))
-        {
-          if(temp->minmax == 0)
-            if(temp->aabb->cached.overlap(dummy.cached))
-              addToOverlapPairs(SaPPair(temp->aabb->obj, current->obj));
-          temp = temp->next[coord];
-        }
-
-        if(temp->getVal(coord) < new_max[coord])
-        {
-          current->hi->prev[coord]->next[coord] = current->hi->next[coord];
-          current->hi->next[coord]->prev[coord] = current->hi->prev[coord];
-          current->hi->prev[coord] = temp;
-          current->hi->next[coord] = nullptr;
-          temp->next[coord] = current->hi;
-        }
-        else
-        {
-          current->hi->prev[coord]->next[coord] = current->hi->next[coord];
-          current->hi->next[coord]->prev[coord] = current->hi->prev[coord];
-          current->hi->prev[coord] = temp->prev[coord];
-          current->hi->next[coord] = temp;
-          temp->prev[coord]->next[coord] = current->hi;
-          temp->prev[coord] = current->hi;
-        }
+        temp = temp->next[coord];
+        if((temp->minmax == 1) && (temp->aabb->cached.overlap(current->cached)))
+          removeFromOverlapPairs(SaPPair(temp->aabb->obj, current->obj));
       }
 
-      current->hi->getVal(coord) = new_max[coord];
-
-      //then, update the "lo" endpoint of the interval.
-      temp = current->lo;
+      moveBehind(lo, temp, coord);
+      lo->getVal(coord) = new_min[coord];
+    }
 
-      while(temp->getVal(coord) < new_min[coord])
+    if(hi->getVal(coord) > new_max[coord])
+    {
+      temp = hi->prev[coord];
+      while(temp->getVal(coord) > new_max[coord])
       {
-        if((temp->minmax == 1) && (temp->aabb->cached.overlap(current->cached)))
+        if((temp->minmax == 0) && (temp->aabb->cached.overlap(current->cached)))
           removeFromOverlapPairs(SaPPair(temp->aabb->obj, current->obj));
-        temp = temp->next[coord];
+        temp = temp->prev[coord];
       }
 
-      if(current->lo->prev[coord] != nullptr)
-        current->lo->prev[coord]->next[coord] = current->lo->next[coord];
-      else
-        elist[coord] = current->lo->next[coord];
-      current->lo->next[coord]->prev[coord] = current->lo->prev[coord];
-      current->lo->prev[coord] = temp->prev[coord];
-      current->lo->next[coord] = temp;
-      if(temp->prev[coord] != nullptr)
-        temp->prev[coord]->next[coord] = current->lo;
-      else
-        elist[coord] = current->lo;
-      temp->prev[coord] = current->lo;
-      current->lo->getVal(coord) = new_min[coord];
+      moveBehind(hi, temp, coord);
+      hi->getVal(coord) = new_max[coord];
     }
   }
 }
 
+//==============================================================================
+template <typename S>
+void SaPCollisionManager<S>::moveBehind(EndPoint* endpoint, EndPoint* pos, int coord)
+{
+  if(pos == endpoint || pos == endpoint->prev[coord])
+    return;
+
+  // take it out
+  if(endpoint->prev[coord] != nullptr)
+    endpoint->prev[coord]->next[coord] = endpoint->next[coord];
+  else
+    elist[coord] = endpoint->next[coord];
+  if(endpoint->next[coord] != nullptr)
+    endpoint->next[coord]->prev[coord] = endpoint->prev[coord];
+
+  // and put it back behind pos, or first if there is none
+  endpoint->prev[coord] = pos;
+  endpoint->next[coord] = (pos != nullptr) ? pos->next[coord] : elist[coord];
+  if(endpoint->next[coord] != nullptr)
+    endpoint->next[coord]->prev[coord] = endpoint;
+  if(pos != nullptr)
+    pos->next[coord] = endpoint;
+  else
+    elist[coord] = endpoint;
+}
+
 //==============================================================================
 template <typename S>
 void SaPCollisionManager<S>::updateVelist()
diff --git a/include/fcl/broadphase/broadphase_SaP.h b/include/fcl/broadphase/broadphase_SaP.h
index 8a6b611..d73faf5 100644
--- a/include/fcl/broadphase/broadphase_SaP.h
+++ b/include/fcl/broadphase/broadphase_SaP.h
@@ -126,6 +126,10 @@ protected:
 
   void update_(SaPAABB* updated_aabb);
 
+  /// @brief move an end point behind another one (nullptr: to the front) in the
+  /// list of one axis
+  void moveBehind(EndPoint* endpoint, EndPoint* pos, int coord);
+
   void updateVelist();
 
   /// @brief End point list for x, y, z coordinates
-- 
2.43.0


From a2fd14b5660dab82f95f2c892ef8c4c6a9a91cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:14 +0000
Subject: [PATCH 005/120] fix: IntervalTreeCollisionManager update() lost high
 endpoints, setup() leaked and kept stale intervals, touching and
 manager-to-manager pairs were missed or repeated

---
 .../broadphase/broadphase_interval_tree-inl.h | 37 ++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/include/fcl/broadphase/broadphase_interval_tree-inl.h b/include/fcl/broadphase/broadphase_interval_tree-inl.h
index dcc4f6d..a38f0aa 100644
--- a/include/fcl/broadphase/broadphase_interval_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_interval_tree-inl.h
@@ -56,8 +56,10 @@ void IntervalTreeCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
 
   EndPoint p;
   p.value = obj->getAABB().min_[0];
+  p.minmax = 0;
   auto start1 = std::lower_bound(endpoints[0].begin(), endpoints[0].end(), p);
   p.value = obj->getAABB().max_[0];
+  p.minmax = 1;
   auto end1 = std::upper_bound(start1, endpoints[0].end(), p);
 
   if(start1 < end1)
@@ -82,8 +84,10 @@ void IntervalTreeCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
   }
 
   p.value = obj->getAABB().min_[1];
+  p.minmax = 0;
   auto start2 = std::lower_bound(endpoints[1].begin(), endpoints[1].end(), p);
   p.value = obj->getAABB().max_[1];
+  p.minmax = 1;
   auto end2 = std::upper_bound(start2, endpoints[1].end(), p);
 
   if(start2 < end2)
@@ -109,8 +113,10 @@ void IntervalTreeCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
 
 
   p.value = obj->getAABB().min_[2];
+  p.minmax = 0;
   auto start3 = std::lower_bound(endpoints[2].begin(), endpoints[2].end(), p);
   p.value = obj->getAABB().max_[2];
+  p.minmax = 1;
   auto end3 = std::upper_bound(start3, endpoints[2].end(), p);
 
   if(start3 < end3)
@@ -210,6 +216,16 @@ void IntervalTreeCollisionManager<S>::setup()
     for(int i = 0; i < 3; ++i)
       delete interval_trees[i];
 
+    for(int i = 0; i < 3; ++i)
+    {
+      for(auto it = obj_interval_maps[i].cbegin(), end = obj_interval_maps[i].cend();
+          it != end; ++it)
+      {
+        delete it->second;
+      }
+      obj_interval_maps[i].clear();
+    }
+
     for(int i = 0; i < 3; ++i)
       interval_trees[i] = new detail::IntervalTree<S>;
 
@@ -275,6 +291,13 @@ void IntervalTreeCollisionManager<S>::update()
 template <typename S>
 void IntervalTreeCollisionManager<S>::update(CollisionObject<S>* updated_obj)
 {
+  if(!setup_)
+  {
+    // the intervals of updated_obj may not be in the interval trees yet
+    update();
+    return;
+  }
+
   AABB<S> old_aabb;
   const AABB<S>& new_aabb = updated_obj->getAABB();
   for(int i = 0; i < 3; ++i)
@@ -293,6 +316,7 @@ void IntervalTreeCollisionManager<S>::update(CollisionObject<S>* updated_obj)
   for(int i = 0; i < 3; ++i)
   {
     dummy.value = old_aabb.min_[i];
+    dummy.minmax = 0;
     it = std::lower_bound(endpoints[i].begin(), endpoints[i].end(), dummy);
     for(; it != endpoints[i].end(); ++it)
     {
@@ -304,10 +328,11 @@ void IntervalTreeCollisionManager<S>::update(CollisionObject<S>* updated_obj)
     }
 
     dummy.value = old_aabb.max_[i];
+    dummy.minmax = 1;
     it = std::lower_bound(endpoints[i].begin(), endpoints[i].end(), dummy);
     for(; it != endpoints[i].end(); ++it)
     {
-      if(it->obj == updated_obj && it->minmax == 0)
+      if(it->obj == updated_obj && it->minmax == 1)
       {
         it->value = new_aabb.max_[i];
         break;
@@ -604,12 +629,18 @@ void IntervalTreeCollisionManager<S>::collide(BroadPhaseCollisionManager<S>* oth
   if(this->size() < other_manager->size())
   {
     for(size_t i = 0, size = endpoints[0].size(); i < size; ++i)
+    {
+      if(endpoints[0][i].minmax != 0) continue; // each object has two endpoints
       if(other_manager->collide_(endpoints[0][i].obj, cdata, callback)) return;
+    }
   }
   else
   {
     for(size_t i = 0, size = other_manager->endpoints[0].size(); i < size; ++i)
+    {
+      if(other_manager->endpoints[0][i].minmax != 0) continue; // each object has two endpoints
       if(collide_(other_manager->endpoints[0][i].obj, cdata, callback)) return;
+    }
   }
 }
 
@@ -731,6 +762,10 @@ template <typename S>
 bool IntervalTreeCollisionManager<S>::EndPoint::operator<(
     const typename IntervalTreeCollisionManager<S>::EndPoint& p) const
 {
+  // an interval that starts where another one ends touches it, so low endpoints
+  // come before high endpoints of the same value
+  if(value == p.value)
+    return minmax < p.minmax;
   return value < p.value;
 }
 
-- 
2.43.0


From 9723d3d30689f3481ef1b19550401237b7a81764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:14 +0000
Subject: [PATCH 006/120] fix: IntervalTree left red nodes with red parents on
 insertion and looped forever when deleting an absent interval

---
 include/fcl/broadphase/detail/interval_tree-inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/broadphase/detail/interval_tree-inl.h b/include/fcl/broadphase/detail/interval_tree-inl.h
index 5c93cc4..b1b1473 100644
--- a/include/fcl/broadphase/detail/interval_tree-inl.h
+++ b/include/fcl/broadphase/detail/interval_tree-inl.h
@@ -217,8 +217,8 @@ IntervalTreeNode<S>* IntervalTree<S>::insert(SimpleInterval<S>* new_interval)
       y = x->parent->parent->right;
       if(y->red)
       {
-        x->parent->red = true;
-        y->red = true;
+        x->parent->red = false;
+        y->red = false;
         x->parent->parent->red = true;
         x = x->parent->parent;
       }
@@ -410,7 +410,7 @@ template <typename S>
 void IntervalTree<S>::deleteNode(SimpleInterval<S>* ivl)
 {
   IntervalTreeNode<S>* node = recursiveSearch(root, ivl);
-  if(node)
+  if(node != nil)
     deleteNode(node);
 }
 
-- 
2.43.0


From b568d651c3c454726a43726ad497e81e069907aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:19 +0000
Subject: [PATCH 007/120] fix: IntervalTreeCollisionManager::unregisterObject
 dropped endpoints of other objects

---
 include/fcl/broadphase/broadphase_interval_tree-inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_interval_tree-inl.h b/include/fcl/broadphase/broadphase_interval_tree-inl.h
index a38f0aa..5b42667 100644
--- a/include/fcl/broadphase/broadphase_interval_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_interval_tree-inl.h
@@ -80,7 +80,7 @@ void IntervalTreeCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
       }
     }
     if(cur_id < end_id)
-      endpoints[0].resize(endpoints[0].size() - 2);
+      endpoints[0].erase(endpoints[0].begin() + cur_id, endpoints[0].begin() + end_id);
   }
 
   p.value = obj->getAABB().min_[1];
@@ -108,7 +108,7 @@ void IntervalTreeCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
       }
     }
     if(cur_id < end_id)
-      endpoints[1].resize(endpoints[1].size() - 2);
+      endpoints[1].erase(endpoints[1].begin() + cur_id, endpoints[1].begin() + end_id);
   }
 
 
@@ -137,7 +137,7 @@ void IntervalTreeCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
       }
     }
     if(cur_id < end_id)
-      endpoints[2].resize(endpoints[2].size() - 2);
+      endpoints[2].erase(endpoints[2].begin() + cur_id, endpoints[2].begin() + end_id);
   }
 
   // update the interval tree
-- 
2.43.0


From 5e5a5e9d7565cac7541447827c4506a2c26a62a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:35 +0000
Subject: [PATCH 008/120] fix: SSaP, SaP, interval tree and spatial hash
 managers looped forever in distance() when nothing is found or an AABB is
 flat

---
 include/fcl/broadphase/broadphase_SSaP-inl.h          | 10 +++++++++-
 include/fcl/broadphase/broadphase_SaP-inl.h           |  8 +++++++-
 include/fcl/broadphase/broadphase_interval_tree-inl.h | 10 +++++++++-
 include/fcl/broadphase/broadphase_spatialhash-inl.h   |  8 +++++++-
 4 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_SSaP-inl.h b/include/fcl/broadphase/broadphase_SSaP-inl.h
index ad859ea..df0a24c 100644
--- a/include/fcl/broadphase/broadphase_SSaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SSaP-inl.h
@@ -313,7 +313,9 @@ template <typename S>
 bool SSaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist) const
 {
   static const unsigned int CUTOFF = 100;
-  Vector3<S> delta = (obj->getAABB().max_ - obj->getAABB().min_) * 0.5;
+  // an AABB that is flat along some axis has to grow along that axis, too
+  S max_extent = (obj->getAABB().max_ - obj->getAABB().min_).maxCoeff();
+  Vector3<S> delta = Vector3<S>::Constant(max_extent > 0 ? max_extent * 0.5 : 1.0);
   Vector3<S> dummy_vector = obj->getAABB().max_;
   if(min_dist < std::numeric_limits<S>::max())
     dummy_vector += Vector3<S>(min_dist, min_dist, min_dist);
@@ -388,6 +390,12 @@ bool SSaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, Di
         }
         else // need more loop
         {
+          // stop if all the objects have been tested
+          if(dummy_vector[0] >= objs_x.back()->getAABB().min_[0] &&
+             dummy_vector[1] >= objs_y.back()->getAABB().min_[1] &&
+             dummy_vector[2] >= objs_z.back()->getAABB().min_[2])
+            break;
+
           if(dummy_vector.isApprox(obj->getAABB().max_, std::numeric_limits<S>::epsilon() * 100))
             dummy_vector = dummy_vector + delta;
           else
diff --git a/include/fcl/broadphase/broadphase_SaP-inl.h b/include/fcl/broadphase/broadphase_SaP-inl.h
index 756df1a..7e5535e 100644
--- a/include/fcl/broadphase/broadphase_SaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SaP-inl.h
@@ -616,7 +616,9 @@ void SaPCollisionManager<S>::collide(CollisionObject<S>* obj, void* cdata, Colli
 template <typename S>
 bool SaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist) const
 {
-  Vector3<S> delta = (obj->getAABB().max_ - obj->getAABB().min_) * 0.5;
+  // an AABB that is flat along some axis has to grow along that axis, too
+  S max_extent = (obj->getAABB().max_ - obj->getAABB().min_).maxCoeff();
+  Vector3<S> delta = Vector3<S>::Constant(max_extent > 0 ? max_extent * 0.5 : 1.0);
   AABB<S> aabb = obj->getAABB();
 
   if(min_dist < std::numeric_limits<S>::max())
@@ -706,6 +708,10 @@ bool SaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, Dis
         }
         else
         {
+          // stop if all the objects have been tested
+          if(end_pos == nullptr && min_val <= velist[axis].front()->getVal(axis))
+            break;
+
           if(aabb.equal(obj->getAABB()))
             aabb.expand(delta);
           else
diff --git a/include/fcl/broadphase/broadphase_interval_tree-inl.h b/include/fcl/broadphase/broadphase_interval_tree-inl.h
index 5b42667..7e64532 100644
--- a/include/fcl/broadphase/broadphase_interval_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_interval_tree-inl.h
@@ -454,7 +454,9 @@ bool IntervalTreeCollisionManager<S>::distance_(CollisionObject<S>* obj, void* c
 {
   static const unsigned int CUTOFF = 100;
 
-  Vector3<S> delta = (obj->getAABB().max_ - obj->getAABB().min_) * 0.5;
+  // an AABB that is flat along some axis has to grow along that axis, too
+  S max_extent = (obj->getAABB().max_ - obj->getAABB().min_).maxCoeff();
+  Vector3<S> delta = Vector3<S>::Constant(max_extent > 0 ? max_extent * 0.5 : 1.0);
   AABB<S> aabb = obj->getAABB();
   if(min_dist < std::numeric_limits<S>::max())
   {
@@ -522,6 +524,12 @@ bool IntervalTreeCollisionManager<S>::distance_(CollisionObject<S>* obj, void* c
         }
         else
         {
+          // stop if all the objects have been tested
+          if((aabb.min_[0] <= endpoints[0].front().value && aabb.max_[0] >= endpoints[0].back().value) &&
+             (aabb.min_[1] <= endpoints[1].front().value && aabb.max_[1] >= endpoints[1].back().value) &&
+             (aabb.min_[2] <= endpoints[2].front().value && aabb.max_[2] >= endpoints[2].back().value))
+            break;
+
           if(aabb.equal(obj->getAABB()))
             aabb.expand(delta);
           else
diff --git a/include/fcl/broadphase/broadphase_spatialhash-inl.h b/include/fcl/broadphase/broadphase_spatialhash-inl.h
index 12551ce..4cfa0bf 100644
--- a/include/fcl/broadphase/broadphase_spatialhash-inl.h
+++ b/include/fcl/broadphase/broadphase_spatialhash-inl.h
@@ -374,7 +374,9 @@ template<typename S, typename HashTable>
 bool SpatialHashingCollisionManager<S, HashTable>::distance_(
     CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist) const
 {
-  auto delta = (obj->getAABB().max_ - obj->getAABB().min_) * 0.5;
+  // an AABB that is flat along some axis has to grow along that axis, too
+  S max_extent = (obj->getAABB().max_ - obj->getAABB().min_).maxCoeff();
+  Vector3<S> delta = Vector3<S>::Constant(max_extent > 0 ? max_extent * 0.5 : 1.0);
   auto aabb = obj->getAABB();
   if(min_dist < std::numeric_limits<S>::max())
   {
@@ -439,6 +441,10 @@ bool SpatialHashingCollisionManager<S, HashTable>::distance_(
         }
         else
         {
+          // stop if all the objects have been tested
+          if(aabb.contain(scene_limit) && !scene_limit.contain(aabb))
+            break;
+
           if(aabb.equal(obj->getAABB()))
             aabb.expand(delta);
           else
-- 
2.43.0


From 3bd68cc56251321e1ffb189ce2202e70563baf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 009/120] fix: SpatialHashingCollisionManager::clear() kept
 objects that partially penetrate the scene limit

---
 include/fcl/broadphase/broadphase_spatialhash-inl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fcl/broadphase/broadphase_spatialhash-inl.h b/include/fcl/broadphase/broadphase_spatialhash-inl.h
index 4cfa0bf..8ebd65d 100644
--- a/include/fcl/broadphase/broadphase_spatialhash-inl.h
+++ b/include/fcl/broadphase/broadphase_spatialhash-inl.h
@@ -284,6 +284,7 @@ void SpatialHashingCollisionManager<S, HashTable>::clear()
 {
   objs.clear();
   hash_table->clear();
+  objs_partially_penetrating_scene_limit.clear();
   objs_outside_scene_limit.clear();
   obj_aabb_map.clear();
 }
-- 
2.43.0


From f6ef32eec264a82ee9593655fdd438b062d01719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 010/120] fix: SpatialHash gave no cell to flat AABBs on a cell
 boundary, so that overlapping objects were missed

---
 include/fcl/broadphase/detail/spatial_hash-inl.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/fcl/broadphase/detail/spatial_hash-inl.h b/include/fcl/broadphase/detail/spatial_hash-inl.h
index 1d4985f..0312aeb 100644
--- a/include/fcl/broadphase/detail/spatial_hash-inl.h
+++ b/include/fcl/broadphase/detail/spatial_hash-inl.h
@@ -61,12 +61,14 @@ SpatialHash<S>::SpatialHash(const AABB<S>& scene_limit_, S cell_size_)
 template <typename S>
 std::vector<unsigned int> SpatialHash<S>::operator()(const AABB<S>& aabb) const
 {
+  // AABBs are closed, so one that ends on a cell boundary reaches into the next
+  // cell, and one without extent still occupies a cell
   int min_x = std::floor((aabb.min_[0] - scene_limit.min_[0]) / cell_size);
-  int max_x = std::ceil((aabb.max_[0] - scene_limit.min_[0]) / cell_size);
+  int max_x = std::floor((aabb.max_[0] - scene_limit.min_[0]) / cell_size) + 1;
   int min_y = std::floor((aabb.min_[1] - scene_limit.min_[1]) / cell_size);
-  int max_y = std::ceil((aabb.max_[1] - scene_limit.min_[1]) / cell_size);
+  int max_y = std::floor((aabb.max_[1] - scene_limit.min_[1]) / cell_size) + 1;
   int min_z = std::floor((aabb.min_[2] - scene_limit.min_[2]) / cell_size);
-  int max_z = std::ceil((aabb.max_[2] - scene_limit.min_[2]) / cell_size);
+  int max_z = std::floor((aabb.max_[2] - scene_limit.min_[2]) / cell_size) + 1;
 
   std::vector<unsigned int> keys((max_x - min_x) * (max_y - min_y) * (max_z - min_z));
   int id = 0;
-- 
2.43.0


From 39fe7744a2f824bc4a4bb6f0975d4b306b5b132d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 011/120] fix: dynamic AABB tree managers paired objects with
 themselves when queried against themselves

---
 .../broadphase/broadphase_dynamic_AABB_tree-inl.h  | 14 ++++++++++++++
 .../broadphase_dynamic_AABB_tree_array-inl.h       | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h b/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
index 1a7341b..937347d 100644
--- a/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
@@ -969,6 +969,13 @@ void DynamicAABBTreeCollisionManager<S>::collide(BroadPhaseCollisionManager<S>*
 {
   DynamicAABBTreeCollisionManager* other_manager = static_cast<DynamicAABBTreeCollisionManager*>(other_manager_);
   if((size() == 0) || (other_manager->size() == 0)) return;
+
+  if(this == other_manager)
+  {
+    collide(cdata, callback);
+    return;
+  }
+
   detail::dynamic_AABB_tree::collisionRecurse(dtree.getRoot(), other_manager->dtree.getRoot(), cdata, callback);
 }
 
@@ -979,6 +986,13 @@ void DynamicAABBTreeCollisionManager<S>::distance(BroadPhaseCollisionManager<S>*
 {
   DynamicAABBTreeCollisionManager* other_manager = static_cast<DynamicAABBTreeCollisionManager*>(other_manager_);
   if((size() == 0) || (other_manager->size() == 0)) return;
+
+  if(this == other_manager)
+  {
+    distance(cdata, callback);
+    return;
+  }
+
   S min_dist = std::numeric_limits<S>::max();
   detail::dynamic_AABB_tree::distanceRecurse(dtree.getRoot(), other_manager->dtree.getRoot(), cdata, callback, min_dist);
 }
diff --git a/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h b/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
index 3cec23c..b2edfb0 100644
--- a/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
+++ b/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
@@ -973,6 +973,13 @@ void DynamicAABBTreeCollisionManager_Array<S>::collide(BroadPhaseCollisionManage
 {
   DynamicAABBTreeCollisionManager_Array* other_manager = static_cast<DynamicAABBTreeCollisionManager_Array*>(other_manager_);
   if((size() == 0) || (other_manager->size() == 0)) return;
+
+  if(this == other_manager)
+  {
+    collide(cdata, callback);
+    return;
+  }
+
   detail::dynamic_AABB_tree_array::collisionRecurse(dtree.getNodes(), dtree.getRoot(), other_manager->dtree.getNodes(), other_manager->dtree.getRoot(), cdata, callback);
 }
 
@@ -983,6 +990,13 @@ void DynamicAABBTreeCollisionManager_Array<S>::distance(BroadPhaseCollisionManag
 {
   DynamicAABBTreeCollisionManager_Array* other_manager = static_cast<DynamicAABBTreeCollisionManager_Array*>(other_manager_);
   if((size() == 0) || (other_manager->size() == 0)) return;
+
+  if(this == other_manager)
+  {
+    distance(cdata, callback);
+    return;
+  }
+
   S min_dist = std::numeric_limits<S>::max();
   detail::dynamic_AABB_tree_array::distanceRecurse(dtree.getNodes(), dtree.getRoot(), other_manager->dtree.getNodes(), other_manager->dtree.getRoot(), cdata, callback, min_dist);
 }
-- 
2.43.0


From 1e424fe4ed45707bbb7ff49387aea518dae55425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 012/120] fix: array HierarchyTree lost its only leaf when that
 leaf was updated

---
 include/fcl/broadphase/detail/hierarchy_tree_array-inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
index b4edc40..1ec6e8f 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
@@ -926,10 +926,10 @@ void HierarchyTree<BV>::update_(size_t leaf, const BV& bv)
       for(int i = 0; (i < max_lookahead_level) && (nodes[root].parent != NULL_NODE); ++i)
         root = nodes[root].parent;
     }
-
-    nodes[leaf].bv = bv;
-    insertLeaf(root, leaf);
   }
+
+  nodes[leaf].bv = bv;
+  insertLeaf(root, leaf);
 }
 
 //==============================================================================
-- 
2.43.0


From 126dd598ddf6cdf9ec7fb4b1dd3a20e6bd05aa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 013/120] fix: DynamicAABBTreeCollisionManager_Array kept stale
 leaf indices after rebalancing its tree

---
 .../broadphase/broadphase_dynamic_AABB_tree_array-inl.h    | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h b/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
index b2edfb0..74a0453 100644
--- a/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
+++ b/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
@@ -818,8 +818,15 @@ void DynamicAABBTreeCollisionManager_Array<S>::setup()
     if(height - std::log((S)num) / std::log(2.0) < max_tree_nonbalanced_level)
       dtree.balanceIncremental(tree_incremental_balance_pass);
     else
+    {
       dtree.balanceTopdown();
 
+      // balanceTopdown() moves the leaves to the front of the node array
+      const DynamicAABBNode* nodes = dtree.getNodes();
+      for(int i = 0; i < num; ++i)
+        table[static_cast<CollisionObject<S>*>(nodes[i].data)] = i;
+    }
+
     setup_ = true;
   }
 }
-- 
2.43.0


From e258a1f1e9e8f6babddee5fea98adfa3f6b5aae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 014/120] fix: array HierarchyTree leaked node arrays on
 initialisation and rebalancing

---
 .../fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h | 1 +
 include/fcl/broadphase/detail/hierarchy_tree_array-inl.h    | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h b/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
index 74a0453..b127b8a 100644
--- a/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
+++ b/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
@@ -774,6 +774,7 @@ void DynamicAABBTreeCollisionManager_Array<S>::registerObjects(
     int n_leaves = other_objs.size();
 
     dtree.init(leaves, n_leaves, tree_init_level);
+    delete [] leaves;
 
     setup_ = true;
   }
diff --git a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
index 1ec6e8f..d5363af 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
@@ -110,6 +110,7 @@ void HierarchyTree<BV>::init_0(NodeType* leaves, int n_leaves_)
 
   n_leaves = n_leaves_;
   root_node = NULL_NODE;
+  delete [] nodes;
   nodes = new NodeType[n_leaves * 2];
   std::copy(leaves, leaves + n_leaves, nodes);
   freelist = n_leaves;
@@ -138,6 +139,7 @@ void HierarchyTree<BV>::init_1(NodeType* leaves, int n_leaves_)
 
   n_leaves = n_leaves_;
   root_node = NULL_NODE;
+  delete [] nodes;
   nodes = new NodeType[n_leaves * 2];
   std::copy(leaves, leaves + n_leaves, nodes);
   freelist = n_leaves;
@@ -182,6 +184,7 @@ void HierarchyTree<BV>::init_2(NodeType* leaves, int n_leaves_)
 
   n_leaves = n_leaves_;
   root_node = NULL_NODE;
+  delete [] nodes;
   nodes = new NodeType[n_leaves * 2];
   std::copy(leaves, leaves + n_leaves, nodes);
   freelist = n_leaves;
@@ -226,6 +229,7 @@ void HierarchyTree<BV>::init_3(NodeType* leaves, int n_leaves_)
 
   n_leaves = n_leaves_;
   root_node = NULL_NODE;
+  delete [] nodes;
   nodes = new NodeType[n_leaves * 2];
   std::copy(leaves, leaves + n_leaves, nodes);
   freelist = n_leaves;
@@ -388,6 +392,7 @@ void HierarchyTree<BV>::balanceBottomup()
     extractLeaves(root_node, leaves_);
     root_node = NULL_NODE;
     std::copy(leaves, leaves + n_leaves, nodes);
+    delete [] leaves;
     freelist = n_leaves;
     n_nodes = n_leaves;
     for(size_t i = n_leaves; i < n_nodes_alloc; ++i)
@@ -417,6 +422,7 @@ void HierarchyTree<BV>::balanceTopdown()
     extractLeaves(root_node, leaves_);
     root_node = NULL_NODE;
     std::copy(leaves, leaves + n_leaves, nodes);
+    delete [] leaves;
     freelist = n_leaves;
     n_nodes = n_leaves;
     for(size_t i = n_leaves; i < n_nodes_alloc; ++i)
-- 
2.43.0


From b173ef610b42029b51133ae1a3eb338b7b9563de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 015/120] fix: HierarchyTree::topdown_1 recursed forever when
 the leaf centers cannot be split

---
 include/fcl/broadphase/detail/hierarchy_tree-inl.h       | 4 ++++
 include/fcl/broadphase/detail/hierarchy_tree_array-inl.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/fcl/broadphase/detail/hierarchy_tree-inl.h b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
index 1438eb9..0d923ff 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
@@ -514,6 +514,10 @@ typename HierarchyTree<BV>::NodeType* HierarchyTree<BV>::topdown_1(const NodeVec
         }
       }
 
+      // no proper split, e.g., because the centers coincide
+      if(lcenter == lbeg || lcenter == lend)
+        lcenter = lbeg + num_leaves / 2;
+
       NodeType* node = createNode(nullptr, vol, nullptr);
       node->children[0] = topdown_1(lbeg, lcenter);
       node->children[1] = topdown_1(lcenter, lend);
diff --git a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
index d5363af..cb54b23 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
@@ -696,6 +696,10 @@ size_t HierarchyTree<BV>::topdown_1(size_t* lbeg, size_t* lend)
         }
       }
 
+      // no proper split, e.g., because the centers coincide
+      if(lcenter == lbeg || lcenter == lend)
+        lcenter = lbeg + num_leaves / 2;
+
       size_t node = createNode(NULL_NODE, vol, nullptr);
       nodes[node].children[0] = topdown_1(lbeg, lcenter);
       nodes[node].children[1] = topdown_1(lcenter, lend);
-- 
2.43.0


From 1806d21d84911c1ace64deccfbd70fe10e45f26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 016/120] fix: HierarchyTree::bottomup used null iterators for
 leaves of infinite size such as half spaces

---
 include/fcl/broadphase/detail/hierarchy_tree-inl.h       | 3 ++-
 include/fcl/broadphase/detail/hierarchy_tree_array-inl.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fcl/broadphase/detail/hierarchy_tree-inl.h b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
index 0d923ff..8abef6c 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
@@ -346,7 +346,8 @@ void HierarchyTree<BV>::bottomup(const NodeVecIterator lbeg, const NodeVecIterat
   NodeVecIterator lcur_end = lend;
   while(lbeg < lcur_end - 1)
   {
-    NodeVecIterator min_it1, min_it2;
+    // stays this way if all the sizes are infinite
+    NodeVecIterator min_it1 = lbeg, min_it2 = lbeg + 1;
     S min_size = std::numeric_limits<S>::max();
     for(NodeVecIterator it1 = lbeg; it1 < lcur_end; ++it1)
     {
diff --git a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
index cb54b23..6caaa30 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
@@ -557,7 +557,8 @@ void HierarchyTree<BV>::bottomup(size_t* lbeg, size_t* lend)
   size_t* lcur_end = lend;
   while(lbeg < lcur_end - 1)
   {
-    size_t* min_it1 = nullptr, *min_it2 = nullptr;
+    // stays this way if all the sizes are infinite
+    size_t* min_it1 = lbeg, *min_it2 = lbeg + 1;
     S min_size = std::numeric_limits<S>::max();
     for(size_t* it1 = lbeg; it1 < lcur_end; ++it1)
     {
-- 
2.43.0


From 946a16a84e0a3c4e939c9a1ab7df852f44f00d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 017/120] fix: HierarchyTree::getMaxDepth() started from an
 uninitialised value and did not compile for the array version

---
 include/fcl/broadphase/detail/hierarchy_tree-inl.h       | 2 +-
 include/fcl/broadphase/detail/hierarchy_tree_array-inl.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/broadphase/detail/hierarchy_tree-inl.h b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
index 8abef6c..5ee1bcd 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
@@ -226,7 +226,7 @@ size_t HierarchyTree<BV>::getMaxDepth() const
 {
   if(!root_node) return 0;
 
-  size_t max_depth;
+  size_t max_depth = 0;
   getMaxDepth(root_node, 0, max_depth);
   return max_depth;
 }
diff --git a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
index 6caaa30..8f1988c 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
@@ -376,7 +376,7 @@ size_t HierarchyTree<BV>::getMaxDepth() const
 {
   if(root_node == NULL_NODE) return 0;
 
-  size_t max_depth;
+  size_t max_depth = 0;
   getMaxDepth(root_node, 0, max_depth);
   return max_depth;
 }
@@ -544,7 +544,7 @@ void HierarchyTree<BV>::getMaxDepth(size_t node, size_t depth, size_t& max_depth
   if(!nodes[node].isLeaf())
   {
     getMaxDepth(nodes[node].children[0], depth+1, max_depth);
-    getmaxDepth(nodes[node].children[1], depth+1, max_depth);
+    getMaxDepth(nodes[node].children[1], depth+1, max_depth);
   }
   else
     max_depth = std::max(max_depth, depth);
-- 
2.43.0


From d80918e160506ed9787cec3defc0dd888c68f054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 018/120] fix: AABB::equal() took any two AABBs with an
 unbounded side for equal, so that moved half spaces and planes were not
 updated

---
 include/fcl/math/bv/AABB-inl.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/fcl/math/bv/AABB-inl.h b/include/fcl/math/bv/AABB-inl.h
index 6738006..7882d4c 100644
--- a/include/fcl/math/bv/AABB-inl.h
+++ b/include/fcl/math/bv/AABB-inl.h
@@ -318,8 +318,7 @@ S AABB<S>::distance(const AABB<S>& other) const
 template <typename S>
 bool AABB<S>::equal(const AABB<S>& other) const
 {
-  return min_.isApprox(other.min_, std::numeric_limits<S>::epsilon() * 100)
-      && max_.isApprox(other.max_, std::numeric_limits<S>::epsilon() * 100);
+  return min_ == other.min_ && max_ == other.max_;
 }
 
 //==============================================================================
-- 
2.43.0


From fd6146e70e9ce59b5c39d8d09557fe1161d7f29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 019/120] fix: IntervalTree::query skipped right subtrees for
 intervals that are unbounded below

---
 include/fcl/broadphase/detail/interval_tree-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/broadphase/detail/interval_tree-inl.h b/include/fcl/broadphase/detail/interval_tree-inl.h
index b1b1473..22daa40 100644
--- a/include/fcl/broadphase/detail/interval_tree-inl.h
+++ b/include/fcl/broadphase/detail/interval_tree-inl.h
@@ -524,7 +524,7 @@ std::deque<SimpleInterval<S>*> IntervalTree<S>::query(S low, S high)
       result_stack.push_back(x->stored_interval);
       recursion_node_stack[current_parent].try_right_branch = true;
     }
-    if(x->left->max_high >= low)
+    if(x->left != nil && x->left->max_high >= low)
     {
       if(recursion_node_stack_top == recursion_node_stack_size)
       {
-- 
2.43.0


From dd62148e532bd0f32a292fc0198ae26498e18e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 020/120] fix: array HierarchyTree read bounding volumes from a
 freed node array when it grew

---
 include/fcl/broadphase/detail/hierarchy_tree_array-inl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
index 8f1988c..37d2497 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
@@ -984,10 +984,12 @@ size_t HierarchyTree<BV>::createNode(size_t parent,
                                      const BV& bv2,
                                      void* data)
 {
+  // bv1 and bv2 may refer to nodes that allocateNode() relocates
+  const BV bv = bv1 + bv2;
   size_t node = allocateNode();
   nodes[node].parent = parent;
   nodes[node].data = data;
-  nodes[node].bv = bv1 + bv2;
+  nodes[node].bv = bv;
   return node;
 }
 
-- 
2.43.0


From 90027425915938513a1321021b05a5d00f577266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 021/120] fix: coneHalfspaceIntersect treated every cone whose
 apex points into the half space as lying on its side

---
 .../detail/primitive_shape_algorithm/halfspace-inl.h            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
index 09a86f5..29cde8d 100644
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
@@ -441,7 +441,7 @@ bool coneHalfspaceIntersect(const Cone<S>& s1, const Transform3<S>& tf1,
   Vector3<S> dir_z = R.col(2);
   S cosa = dir_z.dot(new_s2.n);
 
-  if(cosa < halfspaceIntersectTolerance<S>())
+  if(std::abs(cosa) < halfspaceIntersectTolerance<S>())
   {
     S signed_dist = new_s2.signedDistance(T);
     S depth = s1.radius - signed_dist;
-- 
2.43.0


From ba5750b771ec66d8ee2a6d740881195b876e0359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 022/120] fix: cylinderPlaneIntersect without contacts used the
 full instead of the half length of the cylinder

---
 .../narrowphase/detail/primitive_shape_algorithm/plane-inl.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
index 1373dce..f9a601b 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
@@ -399,7 +399,7 @@ bool cylinderPlaneIntersect(const Cylinder<S>& s1, const Transform3<S>& tf1,
 
   Vector3<S> Q = R.transpose() * new_s2.n;
 
-  S term = std::abs(Q[2]) * s1.lz + s1.radius * std::sqrt(Q[0] * Q[0] + Q[1] * Q[1]);
+  S term = 0.5 * std::abs(Q[2]) * s1.lz + s1.radius * std::sqrt(Q[0] * Q[0] + Q[1] * Q[1]);
   S dist = new_s2.distance(T);
   S depth = term - dist;
 
-- 
2.43.0


From e58b0b8bcf92b9eebe29579bb67f3558242c8743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 023/120] fix: opposite half spaces, and a plane opposite to a
 half space, collided exactly when they do not

---
 .../detail/primitive_shape_algorithm/halfspace-inl.h      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
index 29cde8d..6cac0dc 100644
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
@@ -651,11 +651,11 @@ bool planeHalfspaceIntersect(const Plane<S>& s1, const Transform3<S>& tf1,
     }
     else
     {
-      if(new_s1.d + new_s2.d > 0)
+      if(new_s1.d + new_s2.d < 0)
         return false;
       else
       {
-        penetration_depth = -(new_s1.d + new_s2.d);
+        penetration_depth = new_s1.d + new_s2.d;
         ret = 2;
         pl = new_s1;
         return true;
@@ -722,12 +722,12 @@ bool halfspaceIntersect(const Halfspace<S>& s1, const Transform3<S>& tf1,
     }
     else
     {
-      if(new_s1.d + new_s2.d > 0) // not collision
+      if(new_s1.d + new_s2.d < 0) // not collision
         return false;
       else // in each other
       {
         ret = 3;
-        penetration_depth = -(new_s1.d + new_s2.d);
+        penetration_depth = new_s1.d + new_s2.d;
         return true;
       }
     }
-- 
2.43.0


From ca16916ae5650c73209327038812e52deacc77a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 024/120] fix: planes and half spaces that intersect were
 reported as not colliding when contacts are requested

---
 include/fcl/narrowphase/contact-inl.h                  | 10 ++++++++--
 .../collision/shape_collision_traversal_node-inl.h     |  5 +++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/fcl/narrowphase/contact-inl.h b/include/fcl/narrowphase/contact-inl.h
index 88d26e5..6071790 100644
--- a/include/fcl/narrowphase/contact-inl.h
+++ b/include/fcl/narrowphase/contact-inl.h
@@ -53,7 +53,10 @@ Contact<S>::Contact()
   : o1(nullptr),
     o2(nullptr),
     b1(NONE),
-    b2(NONE)
+    b2(NONE),
+    normal(Vector3<S>::Zero()),
+    pos(Vector3<S>::Zero()),
+    penetration_depth(0)
 {
   // Do nothing
 }
@@ -68,7 +71,10 @@ Contact<S>::Contact(
   : o1(o1_),
     o2(o2_),
     b1(b1_),
-    b2(b2_)
+    b2(b2_),
+    normal(Vector3<S>::Zero()),
+    pos(Vector3<S>::Zero()),
+    penetration_depth(0)
 {
   // Do nothing
 }
diff --git a/include/fcl/narrowphase/detail/traversal/collision/shape_collision_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/collision/shape_collision_traversal_node-inl.h
index 36a264d..1044999 100644
--- a/include/fcl/narrowphase/detail/traversal/collision/shape_collision_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/collision/shape_collision_traversal_node-inl.h
@@ -98,6 +98,11 @@ leafTesting(int, int) const
 
           for(size_t i = 0; i < num_adding_contacts; ++i)
             this->result->addContact(Contact<S>(model1, model2, Contact<S>::NONE, Contact<S>::NONE, contacts[i].pos, contacts[i].normal, contacts[i].penetration_depth));
+
+          // Some pairs (planes and half spaces) have no contact point to offer;
+          // they collide nevertheless.
+          if (contacts.empty())
+            this->result->addContact(Contact<S>(model1, model2, Contact<S>::NONE, Contact<S>::NONE));
         }
       }
     }
-- 
2.43.0


From b7770b72ebd8d43250b3b8d5dc4caf4dd87e8fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 025/120] fix: a convex shape against a plane crashed (libccd)
 or was undecided (built-in GJK)

---
 .../narrowphase/detail/gjk_solver_indep-inl.h |  1 +
 .../detail/gjk_solver_libccd-inl.h            |  1 +
 .../primitive_shape_algorithm/plane-inl.h     | 23 +++++++++++++++++++
 .../detail/primitive_shape_algorithm/plane.h  |  6 +++++
 .../primitive_shape_algorithm/plane.cpp       |  6 +++++
 5 files changed, 37 insertions(+)

diff --git a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
index fd78927..92e9f27 100755
--- a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
+++ b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
@@ -269,6 +269,7 @@ FCL_GJK_INDEP_SHAPE_SHAPE_INTERSECT(Box, Plane, detail::boxPlaneIntersect)
 FCL_GJK_INDEP_SHAPE_SHAPE_INTERSECT(Capsule, Plane, detail::capsulePlaneIntersect)
 FCL_GJK_INDEP_SHAPE_SHAPE_INTERSECT(Cylinder, Plane, detail::cylinderPlaneIntersect)
 FCL_GJK_INDEP_SHAPE_SHAPE_INTERSECT(Cone, Plane, detail::conePlaneIntersect)
+FCL_GJK_INDEP_SHAPE_SHAPE_INTERSECT(Convex, Plane, detail::convexPlaneIntersect)
 
 template <typename S>
 struct ShapeIntersectIndepImpl<S, Halfspace<S>, Halfspace<S>>
diff --git a/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h b/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
index 7207292..0a9e4f5 100755
--- a/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
+++ b/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
@@ -265,6 +265,7 @@ FCL_GJK_LIBCCD_SHAPE_SHAPE_INTERSECT(Box, Plane, detail::boxPlaneIntersect)
 FCL_GJK_LIBCCD_SHAPE_SHAPE_INTERSECT(Capsule, Plane, detail::capsulePlaneIntersect)
 FCL_GJK_LIBCCD_SHAPE_SHAPE_INTERSECT(Cylinder, Plane, detail::cylinderPlaneIntersect)
 FCL_GJK_LIBCCD_SHAPE_SHAPE_INTERSECT(Cone, Plane, detail::conePlaneIntersect)
+FCL_GJK_LIBCCD_SHAPE_SHAPE_INTERSECT(Convex, Plane, detail::convexPlaneIntersect)
 
 template <typename S>
 struct ShapeIntersectLibccdImpl<S, Halfspace<S>, Halfspace<S>>
diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
index f9a601b..f39aabc 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
@@ -98,6 +98,12 @@ bool convexPlaneIntersect(const Convex<double>& s1, const Transform3<double>& tf
                           const Plane<double>& s2, const Transform3<double>& tf2,
                           Vector3<double>* contact_points, double* penetration_depth, Vector3<double>* normal);
 
+//==============================================================================
+extern template
+bool convexPlaneIntersect(const Convex<double>& s1, const Transform3<double>& tf1,
+                          const Plane<double>& s2, const Transform3<double>& tf2,
+                          std::vector<ContactPoint<double>>* contacts);
+
 //==============================================================================
 extern template
 bool planeTriangleIntersect(const Plane<double>& s1, const Transform3<double>& tf1,
@@ -677,6 +683,23 @@ bool convexPlaneIntersect(const Convex<S>& s1, const Transform3<S>& tf1,
   }
 }
 
+//==============================================================================
+template <typename S>
+bool convexPlaneIntersect(const Convex<S>& s1, const Transform3<S>& tf1,
+                          const Plane<S>& s2, const Transform3<S>& tf2,
+                          std::vector<ContactPoint<S>>* contacts)
+{
+  Vector3<S> point, normal;
+  S penetration_depth;
+  if(!convexPlaneIntersect(s1, tf1, s2, tf2, &point, &penetration_depth, &normal))
+    return false;
+
+  if(contacts)
+    contacts->emplace_back(normal, point, penetration_depth);
+
+  return true;
+}
+
 //==============================================================================
 template <typename S>
 bool planeTriangleIntersect(const Plane<S>& s1, const Transform3<S>& tf1,
diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane.h
index 86b141f..05c98cb 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane.h
@@ -130,6 +130,12 @@ bool convexPlaneIntersect(const Convex<S>& s1, const Transform3<S>& tf1,
                           const Plane<S>& s2, const Transform3<S>& tf2,
                           Vector3<S>* contact_points, S* penetration_depth, Vector3<S>* normal);
 
+template <typename S>
+FCL_EXPORT
+bool convexPlaneIntersect(const Convex<S>& s1, const Transform3<S>& tf1,
+                          const Plane<S>& s2, const Transform3<S>& tf2,
+                          std::vector<ContactPoint<S>>* contacts);
+
 template <typename S>
 FCL_EXPORT
 bool planeTriangleIntersect(const Plane<S>& s1, const Transform3<S>& tf1,
diff --git a/src/narrowphase/detail/primitive_shape_algorithm/plane.cpp b/src/narrowphase/detail/primitive_shape_algorithm/plane.cpp
index 5cee207..7791363 100755
--- a/src/narrowphase/detail/primitive_shape_algorithm/plane.cpp
+++ b/src/narrowphase/detail/primitive_shape_algorithm/plane.cpp
@@ -109,6 +109,12 @@ bool convexPlaneIntersect(const Convex<double>& s1, const Transform3<double>& tf
                           const Plane<double>& s2, const Transform3<double>& tf2,
                           Vector3<double>* contact_points, double* penetration_depth, Vector3<double>* normal);
 
+//==============================================================================
+template
+bool convexPlaneIntersect(const Convex<double>& s1, const Transform3<double>& tf1,
+                          const Plane<double>& s2, const Transform3<double>& tf2,
+                          std::vector<ContactPoint<double>>* contacts);
+
 //==============================================================================
 template
 bool planeTriangleIntersect(const Plane<double>& s1, const Transform3<double>& tf1,
-- 
2.43.0


From 08cd92bfd4250c91f9be7c9d0ec81db52705f691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 026/120] fix: built-in GJK stopped too early when it needed a
 vertex again that it had dropped, and missed deep overlaps

---
 .../detail/convexity_based_algorithm/gjk-inl.h     | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h
index fa01dc3..613c6cb 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h
@@ -83,8 +83,6 @@ typename GJK<S>::Status GJK<S>::evaluate(const MinkowskiDiff<S>& shape_, const V
 {
   size_t iterations = 0;
   S alpha = 0;
-  Vector3<S> lastw[4];
-  size_t clastw = 0;
 
   free_v[0] = &store_v[0];
   free_v[1] = &store_v[1];
@@ -102,7 +100,6 @@ typename GJK<S>::Status GJK<S>::evaluate(const MinkowskiDiff<S>& shape_, const V
   appendVertex(simplices[0], (ray.squaredNorm() > 0) ? (-ray).eval() : Vector3<S>::UnitX());
   simplices[0].p[0] = 1;
   ray = simplices[0].c[0]->w;
-  lastw[0] = lastw[1] = lastw[2] = lastw[3] = ray; // cache previous support points, the new support point will compare with it to avoid too close support points
 
   do
   {
@@ -120,12 +117,13 @@ typename GJK<S>::Status GJK<S>::evaluate(const MinkowskiDiff<S>& shape_, const V
 
     appendVertex(curr_simplex, -ray); // see below, ray points away from origin
 
-    // check B: when the new support point is close to previous support points, stop (as the new simplex is degenerated)
+    // check B: when the new support point is close to a vertex of the existing simplex, stop (as the new simplex is degenerated).
+    // A vertex that was dropped from the simplex earlier may well be needed again.
     Vector3<S>& w = curr_simplex.c[curr_simplex.rank - 1]->w;
     bool found = false;
-    for(size_t i = 0; i < 4; ++i)
+    for(size_t i = 0; i + 1 < curr_simplex.rank; ++i)
     {
-      if((w - lastw[i]).squaredNorm() < tolerance)
+      if((w - curr_simplex.c[i]->w).squaredNorm() < tolerance)
       {
         found = true; break;
       }
@@ -136,10 +134,6 @@ typename GJK<S>::Status GJK<S>::evaluate(const MinkowskiDiff<S>& shape_, const V
       removeVertex(simplices[current]);
       break;
     }
-    else
-    {
-      lastw[clastw = (clastw+1)&3] = w;
-    }
 
     // check C: when the new support point is close to the sub-simplex where the ray point lies, stop (as the new simplex again is degenerated)
     S omega = ray.dot(w) / rl;
-- 
2.43.0


From f4e9d5bc7614994b630bcb07e3db89904ea05a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:32 +0000
Subject: [PATCH 027/120] fix: libccd distance stopped far from the minimum and
 read an uninitialised nearest point

---
 .../gjk_libccd-inl.h                          | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
index 3090fc7..2051be1 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
@@ -2070,11 +2070,12 @@ static inline ccd_real_t _ccdDist(const void *obj1, const void *obj2,
                                   ccd_vec3_t* p1, ccd_vec3_t* p2)
 {
   ccd_real_t last_dist = CCD_REAL_MAX;
+  ccd_vec3_t closest_p; // The point on the simplex that is closest to the
+                        // origin. It outlives the iteration because reducing
+                        // the simplex leaves it alone when nothing improves.
 
   for (unsigned long iterations = 0UL; iterations < ccd->max_iterations;
        ++iterations) {
-    ccd_vec3_t closest_p; // The point on the simplex that is closest to the
-                          // origin.
     ccd_real_t dist;
     // get a next direction vector
     // we are trying to find out a point on the minkowski difference
@@ -2108,8 +2109,8 @@ static inline ccd_real_t _ccdDist(const void *obj1, const void *obj2,
       dist = simplexReduceToTriangle(simplex, last_dist, &closest_p);
     }
 
-    // check whether we improved for at least a minimum tolerance
-    if ((last_dist - dist) < ccd->dist_tolerance)
+    // check whether we improved at all
+    if ((last_dist - dist) <= CCD_EPS * dist)
     {
       extractClosestPoints(simplex, p1, p2, &closest_p);
       return dist;
@@ -2126,14 +2127,20 @@ static inline ccd_real_t _ccdDist(const void *obj1, const void *obj2,
     __ccdSupport(obj1, obj2, &dir, ccd, &last);
 
     // record last distance
+    const ccd_real_t improvement = last_dist - dist;
     last_dist = dist;
 
-    // check whether we improved for at least a minimum tolerance
-    // this is here probably only for a degenerate cases when we got a
-    // point that is already in the simplex
-    dist = ccdVec3Len2(&last.v);
-    dist = CCD_SQRT(dist);
-    if (CCD_FABS(last_dist - dist) < ccd->dist_tolerance)
+    // The plane through the support point orthogonal to dir separates the
+    // origin from the minkowski difference, so that its distance is a lower
+    // bound of the distance we look for. (The length of the support point
+    // itself says nothing.) The distance is off by at most gap, the nearest
+    // point by at most sqrt(gap * last_dist). Where progress has become slow,
+    // an accurate distance has to do.
+    const ccd_real_t tol = ccd->dist_tolerance;
+    const ccd_real_t gap = last_dist + ccdVec3Dot(&dir, &last.v);
+    if ((gap < tol &&
+         (gap * last_dist < tol * tol || improvement < tol * tol)) ||
+        gap <= 100 * CCD_EPS * CCD_SQRT(ccdVec3Len2(&last.v)))
     {
       extractClosestPoints(simplex, p1, p2, &closest_p);
       return last_dist;
-- 
2.43.0


From 466b2d0fae557708251551293431a8e3e6677a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:04 +0000
Subject: [PATCH 028/120] fix: built-in solver reported contact normals in the
 frame of the first shape and negative depths

---
 include/fcl/narrowphase/detail/gjk_solver_indep-inl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
index 92e9f27..dfa1f95 100755
--- a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
+++ b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
@@ -147,9 +147,10 @@ struct ShapeIntersectIndepImpl
           }
           if(contacts)
           {
-            Vector3<S> normal = epa.normal;
+            // EPA works in the frame of the first shape.
+            Vector3<S> normal = tf1.linear() * epa.normal;
             Vector3<S> point = tf1 * (w0 - epa.normal*(epa.depth *0.5));
-            S depth = -epa.depth;
+            S depth = epa.depth;
             contacts->emplace_back(normal, point, depth);
           }
           return true;
-- 
2.43.0


From 539340c3941534b72c1335d5f45dc4b342064464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:32 +0000
Subject: [PATCH 029/120] fix: built-in EPA measured faces wrongly, kept
 dropped faces and stopped away from the minimal depth

---
 .../convexity_based_algorithm/epa-inl.h       | 79 ++++++++++---------
 1 file changed, 42 insertions(+), 37 deletions(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h
index e9c667d..1e376ff 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h
@@ -145,7 +145,7 @@ bool EPA<S>::getEdgeDist(SimplexF* face, SimplexV* a, SimplexV* b, S& dist)
     else
     {
       S a_dot_b = a->w.dot(b->w);
-      dist = std::sqrt(std::max(a->w.squaredNorm() * b->w.squaredNorm() - a_dot_b * a_dot_b, (S)0));
+      dist = std::sqrt(std::max((a->w.squaredNorm() * b->w.squaredNorm() - a_dot_b * a_dot_b) / ba.squaredNorm(), (S)0));
     }
 
     return true;
@@ -278,7 +278,7 @@ typename EPA<S>::Status EPA<S>::evaluate(GJK<S>& gjk, const Vector3<S>& guess)
           bool valid = true;
           best->pass = ++pass;
           gjk.getSupport(best->n, *w);
-          S wdist = best->n.dot(w->w) - best->d;
+          S wdist = best->n.dot(w->w - best->c[0]->w);
           if(wdist > tolerance)
           {
             for(size_t j = 0; (j < 3) && valid; ++j)
@@ -291,8 +291,17 @@ typename EPA<S>::Status EPA<S>::evaluate(GJK<S>& gjk, const Vector3<S>& guess)
             {
               // need to add the edge connectivity between first and last faces
               bind(horizon.ff, 2, horizon.cf, 1);
-              hull.remove(best);
-              stock.append(best);
+              // the faces that w sees have been replaced
+              for(SimplexF* f = hull.root; f;)
+              {
+                SimplexF* next = f->l[1];
+                if(f->pass == pass)
+                {
+                  hull.remove(f);
+                  stock.append(f);
+                }
+                f = next;
+              }
               best = findBest();
               outer = *best;
             }
@@ -351,44 +360,40 @@ bool EPA<S>::expand(size_t pass, SimplexV* w, SimplexF* f, size_t e, SimplexHori
   static const size_t nexti[] = {1, 2, 0};
   static const size_t previ[] = {2, 0, 1};
 
-  if(f->pass != pass)
-  {
-    const size_t e1 = nexti[e];
+  // w sees both faces of the edge, so that the edge is not part of the horizon
+  if(f->pass == pass)
+    return true;
 
-    // case 1: the new face is not degenerated, i.e., the new face is not coplanar with the old face f.
-    if(f->n.dot(w->w) - f->d < -tolerance)
-    {
-      SimplexF* nf = newFace(f->c[e1], f->c[e], w, false);
-      if(nf)
-      {
-        // add face-face connectivity
-        bind(nf, 0, f, e);
-
-        // if there is last face in the horizon, then need to add another connectivity, i.e. the edge connecting the current new add edge and the last new add edge.
-        // This does not finish all the connectivities because the final face need to connect with the first face, this will be handled in the evaluate function.
-        // Notice the face is anti-clockwise, so the edges are 0 (bottom), 1 (right), 2 (left)
-        if(horizon.cf)
-          bind(nf, 2, horizon.cf, 1);
-        else
-          horizon.ff = nf;
+  const size_t e1 = nexti[e];
 
-        horizon.cf = nf;
-        ++horizon.nf;
-        return true;
-      }
-    }
-    else // case 2: the new face is coplanar with the old face f. We need to add two faces and delete the old face
+  // case 1: the new face is not degenerated, i.e., the new face is not coplanar with the old face f.
+  if(f->n.dot(w->w - f->c[0]->w) < -tolerance)
+  {
+    SimplexF* nf = newFace(f->c[e1], f->c[e], w, false);
+    if(nf)
     {
-      const size_t e2 = previ[e];
-      f->pass = pass;
-      if(expand(pass, w, f->f[e1], f->e[e1], horizon) && expand(pass, w, f->f[e2], f->e[e2], horizon))
-      {
-        hull.remove(f);
-        stock.append(f);
-        return true;
-      }
+      // add face-face connectivity
+      bind(nf, 0, f, e);
+
+      // if there is last face in the horizon, then need to add another connectivity, i.e. the edge connecting the current new add edge and the last new add edge.
+      // This does not finish all the connectivities because the final face need to connect with the first face, this will be handled in the evaluate function.
+      // Notice the face is anti-clockwise, so the edges are 0 (bottom), 1 (right), 2 (left)
+      if(horizon.cf)
+        bind(nf, 2, horizon.cf, 1);
+      else
+        horizon.ff = nf;
+
+      horizon.cf = nf;
+      ++horizon.nf;
+      return true;
     }
   }
+  else // case 2: the new face is coplanar with the old face f. We need to add two faces; evaluate() deletes the old face
+  {
+    const size_t e2 = previ[e];
+    f->pass = pass;
+    return expand(pass, w, f->f[e1], f->e[e1], horizon) && expand(pass, w, f->f[e2], f->e[e2], horizon);
+  }
 
   return false;
 }
-- 
2.43.0


From 1d603ca5b89a234a72b6c9b17868cbc2ec410168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:32 +0000
Subject: [PATCH 030/120] fix: sphere-capsule contact position lay outside the
 capsule and had no normal on its axis

---
 .../sphere_capsule-inl.h                          | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h
index c85d569..c1cd70e 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h
@@ -101,17 +101,24 @@ bool sphereCapsuleIntersect(const Sphere<S>& s1, const Transform3<S>& tf1,
   lineSegmentPointClosestToPoint (s_c, pos1, pos2, segment_point);
   Vector3<S> diff = s_c - segment_point;
 
-  const S distance = diff.norm() - s1.radius - s2.radius;
+  const S length = diff.norm();
+  const S distance = length - s1.radius - s2.radius;
 
   if (distance > 0)
     return false;
 
-  const Vector3<S> local_normal = -diff.normalized();
-
   if (contacts)
   {
+    // If the center of the sphere lies on the segment, the sphere leaves the
+    // capsule sideways.
+    const bool centered = length <= 16 * std::numeric_limits<S>::epsilon()
+        * (tf1.translation().norm() + tf2.translation().norm() + s2.lz);
+    const Vector3<S> local_normal =
+        centered ? Vector3<S>(1, 0, 0) : (-diff / length).eval();
+
     const Vector3<S> normal = tf2.linear() * local_normal;
-    const Vector3<S> point = tf2 * (segment_point + local_normal * distance);
+    // the point of the sphere that is deepest in the capsule
+    const Vector3<S> point = tf2 * (s_c + local_normal * s1.radius);
     const S penetration_depth = -distance;
 
     contacts->emplace_back(normal, point, penetration_depth);
-- 
2.43.0


From f2c8af8799e15f9ac2e2cfa541b916098a6ae679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 031/120] fix: BVHModel wrote past its arrays when primitives
 were added, replaced or updated out of turn

---
 include/fcl/geometry/bvh/BVH_model-inl.h | 42 ++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index 906a593..5bc179c 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -287,7 +287,7 @@ int BVHModel<BV>::addVertex(const Vector3<S>& p)
 template <typename BV>
 int BVHModel<BV>::addTriangle(const Vector3<S>& p1, const Vector3<S>& p2, const Vector3<S>& p3)
 {
-  if(build_state == BVH_BUILD_STATE_PROCESSED)
+  if(build_state != BVH_BUILD_STATE_BEGUN)
   {
     std::cerr << "BVH Warning! Call addTriangle() in a wrong order. addTriangle() was ignored. Must do a beginModel() to clear the model for addition of new triangles.\n";
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
@@ -346,7 +346,7 @@ int BVHModel<BV>::addTriangle(const Vector3<S>& p1, const Vector3<S>& p2, const
 template <typename BV>
 int BVHModel<BV>::addSubModel(const std::vector<Vector3<S>>& ps)
 {
-  if(build_state == BVH_BUILD_STATE_PROCESSED)
+  if(build_state != BVH_BUILD_STATE_BEGUN)
   {
     std::cerr << "BVH Warning! Call addSubModel() in a wrong order. addSubModel() was ignored. Must do a beginModel() to clear the model for addition of new vertices.\n";
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
@@ -382,7 +382,7 @@ int BVHModel<BV>::addSubModel(const std::vector<Vector3<S>>& ps)
 template <typename BV>
 int BVHModel<BV>::addSubModel(const std::vector<Vector3<S>>& ps, const std::vector<Triangle>& ts)
 {
-  if(build_state == BVH_BUILD_STATE_PROCESSED)
+  if(build_state != BVH_BUILD_STATE_BEGUN)
   {
     std::cerr << "BVH Warning! Call addSubModel() in a wrong order. addSubModel() was ignored. Must do a beginModel() to clear the model for addition of new vertices.\n";
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
@@ -549,6 +549,12 @@ int BVHModel<BV>::replaceVertex(const Vector3<S>& p)
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
+  if(num_vertex_updated + 1 > num_vertices)
+  {
+    std::cerr << "BVH Error! replaceVertex() was ignored: the model does not have that many vertices.\n";
+    return BVH_ERR_INCORRECT_DATA;
+  }
+
   vertices[num_vertex_updated] = p;
   num_vertex_updated++;
 
@@ -565,6 +571,12 @@ int BVHModel<BV>::replaceTriangle(const Vector3<S>& p1, const Vector3<S>& p2, co
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
+  if(num_vertex_updated + 3 > num_vertices)
+  {
+    std::cerr << "BVH Error! replaceTriangle() was ignored: the model does not have that many vertices.\n";
+    return BVH_ERR_INCORRECT_DATA;
+  }
+
   vertices[num_vertex_updated] = p1; num_vertex_updated++;
   vertices[num_vertex_updated] = p2; num_vertex_updated++;
   vertices[num_vertex_updated] = p3; num_vertex_updated++;
@@ -581,6 +593,12 @@ int BVHModel<BV>::replaceSubModel(const std::vector<Vector3<S>>& ps)
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
+  if(num_vertex_updated + static_cast<int>(ps.size()) > num_vertices)
+  {
+    std::cerr << "BVH Error! replaceSubModel() was ignored: the model does not have that many vertices.\n";
+    return BVH_ERR_INCORRECT_DATA;
+  }
+
   for(unsigned int i = 0; i < ps.size(); ++i)
   {
     vertices[num_vertex_updated] = ps[i];
@@ -658,6 +676,12 @@ int BVHModel<BV>::updateVertex(const Vector3<S>& p)
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
+  if(num_vertex_updated + 1 > num_vertices)
+  {
+    std::cerr << "BVH Error! updateVertex() was ignored: the model does not have that many vertices.\n";
+    return BVH_ERR_INCORRECT_DATA;
+  }
+
   vertices[num_vertex_updated] = p;
   num_vertex_updated++;
 
@@ -674,6 +698,12 @@ int BVHModel<BV>::updateTriangle(const Vector3<S>& p1, const Vector3<S>& p2, con
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
+  if(num_vertex_updated + 3 > num_vertices)
+  {
+    std::cerr << "BVH Error! updateTriangle() was ignored: the model does not have that many vertices.\n";
+    return BVH_ERR_INCORRECT_DATA;
+  }
+
   vertices[num_vertex_updated] = p1; num_vertex_updated++;
   vertices[num_vertex_updated] = p2; num_vertex_updated++;
   vertices[num_vertex_updated] = p3; num_vertex_updated++;
@@ -690,6 +720,12 @@ int BVHModel<BV>::updateSubModel(const std::vector<Vector3<S>>& ps)
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
+  if(num_vertex_updated + static_cast<int>(ps.size()) > num_vertices)
+  {
+    std::cerr << "BVH Error! updateSubModel() was ignored: the model does not have that many vertices.\n";
+    return BVH_ERR_INCORRECT_DATA;
+  }
+
   for(unsigned int i = 0; i < ps.size(); ++i)
   {
     vertices[num_vertex_updated] = ps[i];
-- 
2.43.0


From 798cf4a21717742e502c870fe50402106e78635f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 032/120] fix: BVHModel::beginModel() leaked the arrays of a
 model that it had emptied before

---
 include/fcl/geometry/bvh/BVH_model-inl.h | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index 5bc179c..53a3c2a 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -206,16 +206,14 @@ NODE_TYPE BVHModel<BV>::getNodeType() const
 template <typename BV>
 int BVHModel<BV>::beginModel(int num_tris_, int num_vertices_)
 {
-  if(build_state != BVH_BUILD_STATE_EMPTY)
-  {
-    delete [] vertices; vertices = nullptr;
-    delete [] tri_indices; tri_indices = nullptr;
-    delete [] bvs; bvs = nullptr;
-    delete [] prev_vertices; prev_vertices = nullptr;
-    delete [] primitive_indices; primitive_indices = nullptr;
-
-    num_vertices_allocated = num_vertices = num_tris_allocated = num_tris = num_bvs_allocated = num_bvs = 0;
-  }
+  // Even an empty model may hold arrays, if it was emptied by a previous call.
+  delete [] vertices; vertices = nullptr;
+  delete [] tri_indices; tri_indices = nullptr;
+  delete [] bvs; bvs = nullptr;
+  delete [] prev_vertices; prev_vertices = nullptr;
+  delete [] primitive_indices; primitive_indices = nullptr;
+
+  num_vertices_allocated = num_vertices = num_tris_allocated = num_tris = num_bvs_allocated = num_bvs = 0;
 
   if(num_tris_ < 0) num_tris_ = 8;
   if(num_vertices_ <= 0) num_vertices_ = 8;
-- 
2.43.0


From a952146710ec045fa23e3d768beafb19197c1798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 033/120] fix: a copied BVHModel wrote past its arrays when
 more primitives were added and had an uninitialised update counter

---
 include/fcl/geometry/bvh/BVH_model-inl.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index 53a3c2a..a5f46f5 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -88,7 +88,8 @@ BVHModel<BV>::BVHModel(const BVHModel<BV>& other)
     bv_splitter(other.bv_splitter),
     bv_fitter(other.bv_fitter),
     num_tris_allocated(other.num_tris),
-    num_vertices_allocated(other.num_vertices)
+    num_vertices_allocated(other.num_vertices),
+    num_vertex_updated(other.num_vertex_updated)
 {
   if(other.vertices)
   {
@@ -262,6 +263,10 @@ int BVHModel<BV>::addVertex(const Vector3<S>& p)
 
   if(num_vertices >= num_vertices_allocated)
   {
+    if(num_vertices_allocated == 0)
+    {
+      num_vertices_allocated = 1;
+    }
     Vector3<S>* temp = new Vector3<S>[num_vertices_allocated * 2];
     if(!temp)
     {
@@ -293,7 +298,7 @@ int BVHModel<BV>::addTriangle(const Vector3<S>& p1, const Vector3<S>& p2, const
 
   if(num_vertices + 2 >= num_vertices_allocated)
   {
-    Vector3<S>* temp = new Vector3<S>[num_vertices_allocated * 2 + 2];
+    Vector3<S>* temp = new Vector3<S>[num_vertices_allocated * 2 + 3];
     if(!temp)
     {
       std::cerr << "BVH Error! Out of memory for vertices array on addTriangle() call!\n";
@@ -303,7 +308,7 @@ int BVHModel<BV>::addTriangle(const Vector3<S>& p1, const Vector3<S>& p2, const
     std::copy(vertices, vertices + num_vertices, temp);
     delete [] vertices;
     vertices = temp;
-    num_vertices_allocated = num_vertices_allocated * 2 + 2;
+    num_vertices_allocated = num_vertices_allocated * 2 + 3;
   }
 
   int offset = num_vertices;
@@ -354,7 +359,7 @@ int BVHModel<BV>::addSubModel(const std::vector<Vector3<S>>& ps)
 
   if(num_vertices + num_vertices_to_add - 1 >= num_vertices_allocated)
   {
-    Vector3<S>* temp = new Vector3<S>[num_vertices_allocated * 2 + num_vertices_to_add - 1];
+    Vector3<S>* temp = new Vector3<S>[num_vertices_allocated * 2 + num_vertices_to_add];
     if(!temp)
     {
       std::cerr << "BVH Error! Out of memory for vertices array on addSubModel() call!\n";
@@ -364,7 +369,7 @@ int BVHModel<BV>::addSubModel(const std::vector<Vector3<S>>& ps)
     std::copy(vertices, vertices + num_vertices, temp);
     delete [] vertices;
     vertices = temp;
-    num_vertices_allocated = num_vertices_allocated * 2 + num_vertices_to_add - 1;
+    num_vertices_allocated = num_vertices_allocated * 2 + num_vertices_to_add;
   }
 
   for(int i = 0; i < num_vertices_to_add; ++i)
@@ -390,7 +395,7 @@ int BVHModel<BV>::addSubModel(const std::vector<Vector3<S>>& ps, const std::vect
 
   if(num_vertices + num_vertices_to_add - 1 >= num_vertices_allocated)
   {
-    Vector3<S>* temp = new Vector3<S>[num_vertices_allocated * 2 + num_vertices_to_add - 1];
+    Vector3<S>* temp = new Vector3<S>[num_vertices_allocated * 2 + num_vertices_to_add];
     if(!temp)
     {
       std::cerr << "BVH Error! Out of memory for vertices array on addSubModel() call!\n";
@@ -400,7 +405,7 @@ int BVHModel<BV>::addSubModel(const std::vector<Vector3<S>>& ps, const std::vect
     std::copy(vertices, vertices + num_vertices, temp);
     delete [] vertices;
     vertices = temp;
-    num_vertices_allocated = num_vertices_allocated * 2 + num_vertices_to_add - 1;
+    num_vertices_allocated = num_vertices_allocated * 2 + num_vertices_to_add;
   }
 
   int offset = num_vertices;
-- 
2.43.0


From aed4c8940988ee6d9e5fe2174653e47211d6f143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 034/120] fix: BVHModel took a point cloud with reserved
 triangles for a mesh and read past its arrays

---
 include/fcl/geometry/bvh/BVH_model-inl.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index a5f46f5..8c49107 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -464,7 +464,14 @@ int BVHModel<BV>::endModel()
     return BVH_ERR_BUILD_EMPTY_MODEL;
   }
 
-  if(num_tris_allocated > num_tris)
+  if(num_tris == 0)
+  {
+    // a point cloud has no triangle array, even if space was reserved for one
+    delete [] tri_indices;
+    tri_indices = nullptr;
+    num_tris_allocated = 0;
+  }
+  else if(num_tris_allocated > num_tris)
   {
     Triangle* new_tris = new(std::nothrow) Triangle[num_tris];
     if(!new_tris)
-- 
2.43.0


From 72e51cc33ac290282791c0c2667ce8c7ef8d27fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 035/120] fix: merging two nearby OBBs lost the minimum along
 an axis whose first vertex was also the last maximum

---
 include/fcl/math/bv/OBB-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/math/bv/OBB-inl.h b/include/fcl/math/bv/OBB-inl.h
index 4d5455f..47bad32 100644
--- a/include/fcl/math/bv/OBB-inl.h
+++ b/include/fcl/math/bv/OBB-inl.h
@@ -341,7 +341,7 @@ OBB<S> merge_smalldist(const OBB<S>& b1, const OBB<S>& b2)
       S dot = diff.dot(b.axis.col(j));
       if(dot > pmax[j])
         pmax[j] = dot;
-      else if(dot < pmin[j])
+      if(dot < pmin[j])
         pmin[j] = dot;
     }
   }
@@ -355,7 +355,7 @@ OBB<S> merge_smalldist(const OBB<S>& b1, const OBB<S>& b2)
       S dot = diff.dot(b.axis.col(j));
       if(dot > pmax[j])
         pmax[j] = dot;
-      else if(dot < pmin[j])
+      if(dot < pmin[j])
         pmin[j] = dot;
     }
   }
-- 
2.43.0


From c46aa34d73f5c3e8d521ffa96aabd6c65c1d5465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 036/120] fix: merging two distant OBBs used axes that are not
 orthonormal when their vertices lie on a line

---
 include/fcl/math/bv/OBB-inl.h | 38 ++++++++++-------------------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/include/fcl/math/bv/OBB-inl.h b/include/fcl/math/bv/OBB-inl.h
index 47bad32..7b5c6fb 100644
--- a/include/fcl/math/bv/OBB-inl.h
+++ b/include/fcl/math/bv/OBB-inl.h
@@ -274,35 +274,19 @@ OBB<S> merge_largedist(const OBB<S>& b1, const OBB<S>& b2)
   getCovariance<S>(vertex_proj, nullptr, nullptr, nullptr, 16, M);
   eigen_old(M, s, E);
 
-  int min, mid, max;
-  if (s[0] > s[1])
-  {
-    max = 0;
-    min = 1;
-  }
-  else
-  {
-    min = 0;
-    max = 1;
-  }
-
-  if (s[2] < s[min])
-  {
-    mid = min;
-    min = 2;
-  }
-  else if (s[2] > s[max])
-  {
-    mid = max;
+  int max = (s[0] > s[1]) ? 0 : 1;
+  if (s[2] > s[max])
     max = 2;
-  }
-  else
-  {
-    mid = 2;
-  }
 
-  b.axis.col(1) << E.col(0)[max], E.col(1)[max], E.col(2)[max];
-  b.axis.col(2) << E.col(0)[mid], E.col(1)[mid], E.col(2)[mid];
+  // The axes must be orthonormal even when the projected vertices coincide and
+  // the eigenvectors are arbitrary
+  Vector3<S> axis1(E.col(0)[max], E.col(1)[max], E.col(2)[max]);
+  axis1 -= b.axis.col(0) * b.axis.col(0).dot(axis1);
+  if (axis1.norm() > 0.5)
+    b.axis.col(1) = axis1.normalized();
+  else
+    b.axis.col(1) = b.axis.col(0).unitOrthogonal();
+  b.axis.col(2) = b.axis.col(0).cross(b.axis.col(1));
 
   // set obb centers and extensions
   getExtentAndCenter<S>(
-- 
2.43.0


From 36704ef62d18f5a44bf738f999076d41318ad9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 037/120] fix: generateCoordinateSystem() of a zero vector was
 not a number, and so were OBB, RSS and kIOS of two equal points

---
 include/fcl/math/geometry-inl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fcl/math/geometry-inl.h b/include/fcl/math/geometry-inl.h
index a9d3dc8..abd593e 100644
--- a/include/fcl/math/geometry-inl.h
+++ b/include/fcl/math/geometry-inl.h
@@ -647,7 +647,10 @@ FCL_EXPORT
 Matrix3<S> generateCoordinateSystem(const Vector3<S>& x_axis)
 {
   Matrix3<S> axis;
-  axis.col(0).noalias() = x_axis.normalized();
+  const S length = x_axis.norm();
+  if(!(length > 0))
+    return Matrix3<S>::Identity();
+  axis.col(0).noalias() = x_axis / length;
   axis.col(1).noalias() = axis.col(0).unitOrthogonal();
   axis.col(2).noalias() = axis.col(0).cross(axis.col(1)).normalized();
   return axis;
-- 
2.43.0


From f6fa21aad278a8b2ad2fb8903fd71f0ff9fb9c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 038/120] fix: OBB, RSS and kIOS fitted to a degenerate
 triangle did not hold its points

---
 include/fcl/math/bv/utility-inl.h | 47 +++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/include/fcl/math/bv/utility-inl.h b/include/fcl/math/bv/utility-inl.h
index 333ec15..86b0db1 100644
--- a/include/fcl/math/bv/utility-inl.h
+++ b/include/fcl/math/bv/utility-inl.h
@@ -56,6 +56,26 @@ namespace fcl {
 namespace detail {
 //==============================================================================
 
+//==============================================================================
+/// Axes for a triangle with edges e, of which the edge imax is the longest: that
+/// edge comes first, the normal last.  A degenerate triangle has no normal; the
+/// axes are orthonormal nevertheless.
+template <typename S>
+FCL_EXPORT
+Matrix3<S> triangleAxes(const Vector3<S>* const e, int imax)
+{
+  const Vector3<S> normal = e[0].cross(e[1]);
+  const S len = e[imax].squaredNorm();
+  if(!(normal.squaredNorm() > std::numeric_limits<S>::epsilon() * len * len))
+    return generateCoordinateSystem(e[imax]);
+
+  Matrix3<S> axis;
+  axis.col(0) = e[imax].normalized();
+  axis.col(1) = normal.cross(e[imax]).normalized();
+  axis.col(2) = axis.col(0).cross(axis.col(1));
+  return axis;
+}
+
 //==============================================================================
 namespace OBB_fit_functions {
 //==============================================================================
@@ -107,11 +127,7 @@ void fit3(const Vector3<S>* const ps, OBB<S>& bv)
   if(len[1] > len[0]) imax = 1;
   if(len[2] > len[imax]) imax = 2;
 
-  bv.axis.col(2).noalias() = e[0].cross(e[1]);
-  bv.axis.col(2).normalize();
-  bv.axis.col(0) = e[imax];
-  bv.axis.col(0).normalize();
-  bv.axis.col(1).noalias() = bv.axis.col(2).cross(bv.axis.col(0));
+  bv.axis = triangleAxes(e, imax);
 
   getExtentAndCenter<S>(ps, nullptr, nullptr, nullptr, 3, bv.axis, bv.To, bv.extent);
 }
@@ -223,9 +239,7 @@ void fit3(const Vector3<S>* const ps, RSS<S>& bv)
   if(len[1] > len[0]) imax = 1;
   if(len[2] > len[imax]) imax = 2;
 
-  bv.axis.col(2).noalias() = e[0].cross(e[1]).normalized();
-  bv.axis.col(0).noalias() = e[imax].normalized();
-  bv.axis.col(1).noalias() = bv.axis.col(2).cross(bv.axis.col(0));
+  bv.axis = triangleAxes(e, imax);
 
   getRadiusAndOriginAndRectangleSize<S>(ps, nullptr, nullptr, nullptr, 3, bv.axis, bv.To, bv.l, bv.r);
 }
@@ -364,16 +378,25 @@ void fit3(const Vector3<S>* const ps, kIOS<S>& bv)
   if(len[1] > len[0]) imax = 1;
   if(len[2] > len[imax]) imax = 2;
 
-  bv.obb.axis.col(2).noalias() = e[0].cross(e[1]).normalized();
-  bv.obb.axis.col(0) = e[imax].normalized();
-  bv.obb.axis.col(1).noalias() = bv.obb.axis.col(2).cross(bv.obb.axis.col(0));
+  bv.obb.axis = triangleAxes(e, imax);
 
   getExtentAndCenter<S>(ps, nullptr, nullptr, nullptr, 3, bv.obb.axis, bv.obb.To, bv.obb.extent);
 
   // compute radius and center
   S r0;
   Vector3<S> center;
-  circumCircleComputation(p1, p2, p3, center, r0);
+  if(len[imax] >= len[(imax + 1) % 3] + len[(imax + 2) % 3])
+  {
+    // right, obtuse or degenerate: the longest edge is a diameter
+    const Vector3<S>& begin = ps[imax];
+    const Vector3<S>& end = ps[(imax + 1) % 3];
+    center = (begin + end) * 0.5;
+    r0 = std::sqrt(len[imax]) * 0.5;
+  }
+  else
+  {
+    circumCircleComputation(p1, p2, p3, center, r0);
+  }
 
   bv.spheres[0].o = center;
   bv.spheres[0].r = r0;
-- 
2.43.0


From bcf9e34dc48e640e29a50afb7f358ebdfed26c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 039/120] fix: RSS::contain() took points beside an edge of the
 rectangle for points beside a corner

---
 include/fcl/math/bv/RSS-inl.h | 30 +++++-------------------------
 1 file changed, 5 insertions(+), 25 deletions(-)

diff --git a/include/fcl/math/bv/RSS-inl.h b/include/fcl/math/bv/RSS-inl.h
index 2cbc7dd..ff7a55b 100644
--- a/include/fcl/math/bv/RSS-inl.h
+++ b/include/fcl/math/bv/RSS-inl.h
@@ -134,32 +134,12 @@ bool RSS<S>::contain(const Vector3<S>& p) const
       axis.col(0).dot(local_p),
       axis.col(1).dot(local_p),
       axis.col(2).dot(local_p));
-  S abs_proj2 = fabs(proj[2]);
 
-  /// projection is within the rectangle
-  if((proj[0] < l[0]) && (proj[0] > 0) && (proj[1] < l[1]) && (proj[1] > 0))
-  {
-    return (abs_proj2 < r);
-  }
-  else if((proj[0] < l[0]) && (proj[0] > 0) && ((proj[1] < 0) || (proj[1] > l[1])))
-  {
-    S y = (proj[1] > 0) ? l[1] : 0;
-    Vector3<S> v(proj[0], y, 0);
-    return ((proj - v).squaredNorm() < r * r);
-  }
-  else if((proj[1] < l[1]) && (proj[1] > 0) && ((proj[0] < 0) || (proj[0] > l[0])))
-  {
-    S x = (proj[0] > 0) ? l[0] : 0;
-    Vector3<S> v(x, proj[1], 0);
-    return ((proj - v).squaredNorm() < r * r);
-  }
-  else
-  {
-    S x = (proj[0] > 0) ? l[0] : 0;
-    S y = (proj[1] > 0) ? l[1] : 0;
-    Vector3<S> v(x, y, 0);
-    return ((proj - v).squaredNorm() < r * r);
-  }
+  // the nearest point of the rectangle
+  Vector3<S> v(proj[0], proj[1], 0);
+  clipToRange(v[0], (S)0.0, l[0]);
+  clipToRange(v[1], (S)0.0, l[1]);
+  return ((proj - v).squaredNorm() <= r * r);
 }
 
 //==============================================================================
-- 
2.43.0


From 37b6cf0a9bd86c4e7eed3c2eaac61ffb340f5595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 040/120] fix: an RSS grown by a point did not hold the point:
 it moved its origin along the world axes and only in one quadrant

---
 include/fcl/math/bv/RSS-inl.h | 138 ++++++----------------------------
 1 file changed, 21 insertions(+), 117 deletions(-)

diff --git a/include/fcl/math/bv/RSS-inl.h b/include/fcl/math/bv/RSS-inl.h
index ff7a55b..2b91644 100644
--- a/include/fcl/math/bv/RSS-inl.h
+++ b/include/fcl/math/bv/RSS-inl.h
@@ -152,128 +152,32 @@ RSS<S>& RSS<S>::operator +=(const Vector3<S>& p)
       axis.col(0).dot(local_p),
       axis.col(1).dot(local_p),
       axis.col(2).dot(local_p));
-  S abs_proj2 = fabs(proj[2]);
 
-  // projection is within the rectangle
-  if((proj[0] < l[0]) && (proj[0] > 0) && (proj[1] < l[1]) && (proj[1] > 0))
+  // grow the radius and shift the plane, when the point is too far from the plane
+  const S abs_proj2 = fabs(proj[2]);
+  if(abs_proj2 > r)
   {
-    if(abs_proj2 < r)
-      ; // do nothing
-    else
-    {
-      r = 0.5 * (r + abs_proj2); // enlarge the r
-      // change RSS origin position
-      if(proj[2] > 0)
-        To[2] += 0.5 * (abs_proj2 - r);
-      else
-        To[2] -= 0.5 * (abs_proj2 - r);
-    }
-  }
-  else if((proj[0] < l[0]) && (proj[0] > 0) && ((proj[1] < 0) || (proj[1] > l[1])))
-  {
-    S y = (proj[1] > 0) ? l[1] : 0;
-    Vector3<S> v(proj[0], y, 0);
-    S new_r_sqr = (proj - v).squaredNorm();
-    if(new_r_sqr < r * r)
-      ; // do nothing
-    else
-    {
-      if(abs_proj2 < r)
-      {
-        S delta_y = - std::sqrt(r * r - proj[2] * proj[2]) + fabs(proj[1] - y);
-        l[1] += delta_y;
-        if(proj[1] < 0)
-          To[1] -= delta_y;
-      }
-      else
-      {
-        S delta_y = fabs(proj[1] - y);
-        l[1] += delta_y;
-        if(proj[1] < 0)
-          To[1] -= delta_y;
-
-        if(proj[2] > 0)
-          To[2] += 0.5 * (abs_proj2 - r);
-        else
-          To[2] -= 0.5 * (abs_proj2 - r);
-      }
-    }
+    const S shift = (S)0.5 * (abs_proj2 - r);
+    r += shift;
+    To += axis.col(2) * ((proj[2] > 0) ? shift : -shift);
+    proj[2] -= (proj[2] > 0) ? shift : -shift;
   }
-  else if((proj[1] < l[1]) && (proj[1] > 0) && ((proj[0] < 0) || (proj[0] > l[0])))
-  {
-    S x = (proj[0] > 0) ? l[0] : 0;
-    Vector3<S> v(x, proj[1], 0);
-    S new_r_sqr = (proj - v).squaredNorm();
-    if(new_r_sqr < r * r)
-      ; // do nothing
-    else
-    {
-      if(abs_proj2 < r)
-      {
-        S delta_x = - std::sqrt(r * r - proj[2] * proj[2]) + fabs(proj[0] - x);
-        l[0] += delta_x;
-        if(proj[0] < 0)
-          To[0] -= delta_x;
-      }
-      else
-      {
-        S delta_x = fabs(proj[0] - x);
-        l[0] += delta_x;
-        if(proj[0] < 0)
-          To[0] -= delta_x;
-
-        if(proj[2] > 0)
-          To[2] += 0.5 * (abs_proj2 - r);
-        else
-          To[2] -= 0.5 * (abs_proj2 - r);
-      }
-    }
-  }
-  else
+
+  // grow the rectangle, when it is too far from the point
+  Vector3<S> v(proj[0], proj[1], 0);
+  clipToRange(v[0], (S)0.0, l[0]);
+  clipToRange(v[1], (S)0.0, l[1]);
+  const Vector3<S> delta(proj[0] - v[0], proj[1] - v[1], 0);
+  const S diag = delta.norm();
+  const S reach = std::sqrt(std::max<S>(r * r - proj[2] * proj[2], 0));
+  if(diag > reach)
   {
-    S x = (proj[0] > 0) ? l[0] : 0;
-    S y = (proj[1] > 0) ? l[1] : 0;
-    Vector3<S> v(x, y, 0);
-    S new_r_sqr = (proj - v).squaredNorm();
-    if(new_r_sqr < r * r)
-      ; // do nothing
-    else
+    for(int i = 0; i < 2; ++i)
     {
-      if(abs_proj2 < r)
-      {
-        S diag = std::sqrt(new_r_sqr - proj[2] * proj[2]);
-        S delta_diag = - std::sqrt(r * r - proj[2] * proj[2]) + diag;
-
-        S delta_x = delta_diag / diag * fabs(proj[0] - x);
-        S delta_y = delta_diag / diag * fabs(proj[1] - y);
-        l[0] += delta_x;
-        l[1] += delta_y;
-
-        if(proj[0] < 0 && proj[1] < 0)
-        {
-          To[0] -= delta_x;
-          To[1] -= delta_y;
-        }
-      }
-      else
-      {
-        S delta_x = fabs(proj[0] - x);
-        S delta_y = fabs(proj[1] - y);
-
-        l[0] += delta_x;
-        l[1] += delta_y;
-
-        if(proj[0] < 0 && proj[1] < 0)
-        {
-          To[0] -= delta_x;
-          To[1] -= delta_y;
-        }
-
-        if(proj[2] > 0)
-          To[2] += 0.5 * (abs_proj2 - r);
-        else
-          To[2] -= 0.5 * (abs_proj2 - r);
-      }
+      const S grow = delta[i] * ((diag - reach) / diag);
+      l[i] += fabs(grow);
+      if(grow < 0)
+        To += axis.col(i) * grow;
     }
   }
 
-- 
2.43.0


From 2d9d0613f01633fdd36339e442442178b813e962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 041/120] fix: the axes of two merged RSSs were columns instead
 of rows of the eigenvectors and not orthonormal

---
 include/fcl/math/bv/RSS-inl.h | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/include/fcl/math/bv/RSS-inl.h b/include/fcl/math/bv/RSS-inl.h
index 2b91644..0b24233 100644
--- a/include/fcl/math/bv/RSS-inl.h
+++ b/include/fcl/math/bv/RSS-inl.h
@@ -242,17 +242,8 @@ RSS<S> RSS<S>::operator +(const RSS<S>& other) const
   getCovariance<S>(v, nullptr, nullptr, nullptr, 16, M);
   eigen_old(M, s, E);
 
-  int min, mid, max;
-  if(s[0] > s[1]) { max = 0; min = 1; }
-  else { min = 0; max = 1; }
-  if(s[2] < s[min]) { mid = min; min = 2; }
-  else if(s[2] > s[max]) { mid = max; max = 2; }
-  else { mid = 2; }
-
-  // column first matrix, as the axis in RSS
-  bv.axis.col(0) = E.col(max);
-  bv.axis.col(1) = E.col(mid);
-  bv.axis.col(2).noalias() = axis.col(0).cross(axis.col(1));
+  // the eigen-vectors are the rows of E
+  axisFromEigen(E, s, bv.axis);
 
   // set rss origin, rectangle size and radius
   getRadiusAndOriginAndRectangleSize<S>(v, nullptr, nullptr, nullptr, 16, bv.axis, bv.To, bv.l, bv.r);
-- 
2.43.0


From 88b0dbda079836602835c1b507b86ede7c53a8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 042/120] fix: RSS::volume() left out the half cylinders at the
 edges and overstated the corners

---
 include/fcl/math/bv/RSS-inl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fcl/math/bv/RSS-inl.h b/include/fcl/math/bv/RSS-inl.h
index 0b24233..4b81450 100644
--- a/include/fcl/math/bv/RSS-inl.h
+++ b/include/fcl/math/bv/RSS-inl.h
@@ -276,7 +276,9 @@ S RSS<S>::depth() const
 template <typename S>
 S RSS<S>::volume() const
 {
-  return (l[0] * l[1] * 2 * r + 4 * constants<S>::pi() * r * r * r);
+  const S pi = constants<S>::pi();
+  return l[0] * l[1] * 2 * r + (l[0] + l[1]) * pi * r * r
+      + pi * r * r * r * (4.0 / 3.0);
 }
 
 //==============================================================================
-- 
2.43.0


From 8fdb96f80407a7e1a611a3783629a0628f55d18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 043/120] fix: translate() left the OBB of a kIOS in place

---
 include/fcl/math/bv/kIOS-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/math/bv/kIOS-inl.h b/include/fcl/math/bv/kIOS-inl.h
index 81a802a..9a57963 100644
--- a/include/fcl/math/bv/kIOS-inl.h
+++ b/include/fcl/math/bv/kIOS-inl.h
@@ -309,7 +309,7 @@ kIOS<S> translate(
     res.spheres[i].o += t;
   }
 
-  translate(res.obb, t);
+  res.obb = translate(res.obb, t);
   return res;
 }
 
-- 
2.43.0


From 9050976bb12a117a42b61a905c7a6feeed157e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 044/120] fix: the sphere around two spheres of a kIOS was
 twice as large as necessary and rounded to single precision

---
 include/fcl/math/bv/kIOS-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/math/bv/kIOS-inl.h b/include/fcl/math/bv/kIOS-inl.h
index 9a57963..3943bf6 100644
--- a/include/fcl/math/bv/kIOS-inl.h
+++ b/include/fcl/math/bv/kIOS-inl.h
@@ -64,9 +64,9 @@ typename kIOS<S>::kIOS_Sphere kIOS<S>::encloseSphere(
   }
   else /** spheres partially overlapping or disjoint */
   {
-    float dist = std::sqrt(dist2);
+    S dist = std::sqrt(dist2);
     kIOS_Sphere s;
-    s.r = dist + s0.r + s1.r;
+    s.r = (dist + s0.r + s1.r) * 0.5;
     if(dist > 0)
       s.o = s0.o + d * ((s.r - s0.r) / dist);
     else
-- 
2.43.0


From ae613665c7beb043e23176a03227416cf1baf39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 045/120] fix: the nearest points of two kIOSs were computed
 from the spheres of the first one alone

---
 include/fcl/math/bv/kIOS-inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/math/bv/kIOS-inl.h b/include/fcl/math/bv/kIOS-inl.h
index 3943bf6..9b5c760 100644
--- a/include/fcl/math/bv/kIOS-inl.h
+++ b/include/fcl/math/bv/kIOS-inl.h
@@ -232,12 +232,12 @@ S kIOS<S>::distance(
   {
     if(id_a != -1 && id_b != -1)
     {
-      Vector3<S> v = spheres[id_a].o - spheres[id_b].o;
+      Vector3<S> v = spheres[id_a].o - other.spheres[id_b].o;
       S len_v = v.norm();
       *P = spheres[id_a].o;
       (*P).noalias() -= v * (spheres[id_a].r / len_v);
-      *Q = spheres[id_b].o;
-      (*Q).noalias() += v * (spheres[id_b].r / len_v);
+      *Q = other.spheres[id_b].o;
+      (*Q).noalias() += v * (other.spheres[id_b].r / len_v);
     }
   }
 
-- 
2.43.0


From 88e1c62b944598af693890c85999f9df6bcbc47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 046/120] fix: the nearest points of two AABBs lay outside the
 smaller one when an interval contains the other

---
 include/fcl/math/bv/AABB-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/math/bv/AABB-inl.h b/include/fcl/math/bv/AABB-inl.h
index 7882d4c..b42bfc6 100644
--- a/include/fcl/math/bv/AABB-inl.h
+++ b/include/fcl/math/bv/AABB-inl.h
@@ -270,13 +270,13 @@ S AABB<S>::distance(const AABB<S>& other, Vector3<S>* P, Vector3<S>* Q) const
       {
         if(bmin >= amin)
         {
-          S t = 0.5 * (amax + bmin);
+          S t = 0.5 * (std::min(amax, bmax) + bmin);
           (*P)[i] = t;
           (*Q)[i] = t;
         }
         else
         {
-          S t = 0.5 * (amin + bmax);
+          S t = 0.5 * (amin + std::min(amax, bmax));
           (*P)[i] = t;
           (*Q)[i] = t;
         }
-- 
2.43.0


From 8fc6f31b0b9a2dd87c403dfe5a77bcfe927fe4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 047/120] fix: kIOS::center() was not the center of the box
 that its width, height and depth describe, which broke conversions

---
 include/fcl/math/bv/kIOS-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/math/bv/kIOS-inl.h b/include/fcl/math/bv/kIOS-inl.h
index 9b5c760..41594d1 100644
--- a/include/fcl/math/bv/kIOS-inl.h
+++ b/include/fcl/math/bv/kIOS-inl.h
@@ -165,7 +165,7 @@ kIOS<S> kIOS<S>::operator + (const kIOS<S>& other) const
 template <typename S>
 const Vector3<S>& kIOS<S>::center() const
 {
-  return spheres[0].o;
+  return obb.To;
 }
 
 //==============================================================================
-- 
2.43.0


From 1a1fd66a35f38ebd19fc676b50c8207a2f7b5afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 048/120] fix: an assigned BVHModel shared its arrays with the
 original and both freed them

---
 include/fcl/geometry/bvh/BVH_model-inl.h | 24 ++++++++++++++++++++++++
 include/fcl/geometry/bvh/BVH_model.h     |  3 +++
 2 files changed, 27 insertions(+)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index 8c49107..18ffd2d 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -146,6 +146,30 @@ BVHModel<BV>::BVHModel(const BVHModel<BV>& other)
     bvs = nullptr;
 }
 
+//==============================================================================
+template <typename BV>
+BVHModel<BV>& BVHModel<BV>::operator=(const BVHModel<BV>& other)
+{
+  BVHModel<BV> copy(other);
+  CollisionGeometry<S>::operator=(copy);
+  std::swap(vertices, copy.vertices);
+  std::swap(tri_indices, copy.tri_indices);
+  std::swap(prev_vertices, copy.prev_vertices);
+  std::swap(num_tris, copy.num_tris);
+  std::swap(num_vertices, copy.num_vertices);
+  std::swap(build_state, copy.build_state);
+  std::swap(bv_splitter, copy.bv_splitter);
+  std::swap(bv_fitter, copy.bv_fitter);
+  std::swap(num_tris_allocated, copy.num_tris_allocated);
+  std::swap(num_vertices_allocated, copy.num_vertices_allocated);
+  std::swap(num_bvs_allocated, copy.num_bvs_allocated);
+  std::swap(num_vertex_updated, copy.num_vertex_updated);
+  std::swap(primitive_indices, copy.primitive_indices);
+  std::swap(bvs, copy.bvs);
+  std::swap(num_bvs, copy.num_bvs);
+  return *this;
+}
+
 //==============================================================================
 template <typename BV>
 BVHModel<BV>::~BVHModel()
diff --git a/include/fcl/geometry/bvh/BVH_model.h b/include/fcl/geometry/bvh/BVH_model.h
index 294d521..4361b51 100644
--- a/include/fcl/geometry/bvh/BVH_model.h
+++ b/include/fcl/geometry/bvh/BVH_model.h
@@ -69,6 +69,9 @@ public:
   /// @brief copy from another BVH
   BVHModel(const BVHModel& other);
 
+  /// @brief copy from another BVHModel
+  BVHModel& operator=(const BVHModel& other);
+
   /// @brief deconstruction, delete mesh data related.
   ~BVHModel();
 
-- 
2.43.0


From 1d691448547f609879026e89a73d4fdbadd3ae99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 049/120] fix: planes and half spaces against the triangles of
 a mesh with a world-aligned bounding volume crashed or were missed

---
 .../narrowphase/detail/gjk_solver_indep-inl.h | 42 +++++++++++++++++++
 .../detail/gjk_solver_libccd-inl.h            | 42 +++++++++++++++++++
 2 files changed, 84 insertions(+)

diff --git a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
index dfa1f95..42f075a 100755
--- a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
+++ b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
@@ -446,6 +446,48 @@ struct ShapeTriangleIntersectIndepImpl<S, Sphere<S>>
 };
 
 
+//==============================================================================
+template<typename S>
+struct ShapeTriangleIntersectIndepImpl<S, Halfspace<S>>
+{
+  static bool run(
+      const GJKSolver_indep<S>& /*gjkSolver*/,
+      const Halfspace<S>& s,
+      const Transform3<S>& tf,
+      const Vector3<S>& P1,
+      const Vector3<S>& P2,
+      const Vector3<S>& P3,
+      Vector3<S>* contact_points,
+      S* penetration_depth,
+      Vector3<S>* normal)
+  {
+    return detail::halfspaceTriangleIntersect(
+          s, tf, P1, P2, P3, Transform3<S>::Identity(),
+          contact_points, penetration_depth, normal);
+  }
+};
+
+//==============================================================================
+template<typename S>
+struct ShapeTriangleIntersectIndepImpl<S, Plane<S>>
+{
+  static bool run(
+      const GJKSolver_indep<S>& /*gjkSolver*/,
+      const Plane<S>& s,
+      const Transform3<S>& tf,
+      const Vector3<S>& P1,
+      const Vector3<S>& P2,
+      const Vector3<S>& P3,
+      Vector3<S>* contact_points,
+      S* penetration_depth,
+      Vector3<S>* normal)
+  {
+    return detail::planeTriangleIntersect(
+          s, tf, P1, P2, P3, Transform3<S>::Identity(),
+          contact_points, penetration_depth, normal);
+  }
+};
+
 //==============================================================================
 template<typename S, typename Shape>
 struct ShapeTransformedTriangleIntersectIndepImpl
diff --git a/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h b/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
index 0a9e4f5..695113e 100755
--- a/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
+++ b/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
@@ -419,6 +419,48 @@ struct ShapeTriangleIntersectLibccdImpl<S, Sphere<S>>
   }
 };
 
+//==============================================================================
+template<typename S>
+struct ShapeTriangleIntersectLibccdImpl<S, Halfspace<S>>
+{
+  static bool run(
+      const GJKSolver_libccd<S>& /*gjkSolver*/,
+      const Halfspace<S>& s,
+      const Transform3<S>& tf,
+      const Vector3<S>& P1,
+      const Vector3<S>& P2,
+      const Vector3<S>& P3,
+      Vector3<S>* contact_points,
+      S* penetration_depth,
+      Vector3<S>* normal)
+  {
+    return detail::halfspaceTriangleIntersect(
+          s, tf, P1, P2, P3, Transform3<S>::Identity(),
+          contact_points, penetration_depth, normal);
+  }
+};
+
+//==============================================================================
+template<typename S>
+struct ShapeTriangleIntersectLibccdImpl<S, Plane<S>>
+{
+  static bool run(
+      const GJKSolver_libccd<S>& /*gjkSolver*/,
+      const Plane<S>& s,
+      const Transform3<S>& tf,
+      const Vector3<S>& P1,
+      const Vector3<S>& P2,
+      const Vector3<S>& P3,
+      Vector3<S>* contact_points,
+      S* penetration_depth,
+      Vector3<S>* normal)
+  {
+    return detail::planeTriangleIntersect(
+          s, tf, P1, P2, P3, Transform3<S>::Identity(),
+          contact_points, penetration_depth, normal);
+  }
+};
+
 //==============================================================================
 template<typename S, typename Shape>
 struct ShapeTransformedTriangleIntersectLibccdImpl
-- 
2.43.0


From 1a787730abd4df94cfa3cae7519b7333e49d35ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 050/120] fix: built-in solver reported shape-triangle contacts
 with opposite normals in the frame of the shape and negative depths

---
 include/fcl/narrowphase/detail/gjk_solver_indep-inl.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
index 42f075a..91aee57 100755
--- a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
+++ b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
@@ -393,8 +393,9 @@ struct ShapeTriangleIntersectIndepImpl
           {
             w0.noalias() += shape.support(epa.result.c[i]->d, 0) * epa.result.p[i];
           }
-          if(penetration_depth) *penetration_depth = -epa.depth;
-          if(normal) *normal = -epa.normal;
+          // EPA works in the frame of the shape.
+          if(penetration_depth) *penetration_depth = epa.depth;
+          if(normal) (*normal).noalias() = tf.linear() * epa.normal;
           if(contact_points) (*contact_points).noalias() = tf * (w0 - epa.normal*(epa.depth *0.5));
           return true;
         }
@@ -532,8 +533,9 @@ struct ShapeTransformedTriangleIntersectIndepImpl
           {
             w0.noalias() += shape.support(epa.result.c[i]->d, 0) * epa.result.p[i];
           }
-          if(penetration_depth) *penetration_depth = -epa.depth;
-          if(normal) *normal = -epa.normal;
+          // EPA works in the frame of the shape.
+          if(penetration_depth) *penetration_depth = epa.depth;
+          if(normal) (*normal).noalias() = tf1.linear() * epa.normal;
           if(contact_points) (*contact_points).noalias() = tf1 * (w0 - epa.normal*(epa.depth *0.5));
           return true;
         }
-- 
2.43.0


From 62071ffce547bc9e7f5f12d80bfaa013ed505f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 051/120] fix: sphereTriangleIntersect() reported negative
 penetration depths

---
 .../detail/primitive_shape_algorithm/sphere_triangle-inl.h    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
index 0078900..e4a29b4 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
@@ -204,13 +204,13 @@ bool sphereTriangleIntersect(const Sphere<S>& s, const Transform3<S>& tf,
         S distance = std::sqrt(distance_sqr);
         if(normal_) *normal_ = contact_to_center.normalized();
         if(contact_points) *contact_points = contact_point;
-        if(penetration_depth) *penetration_depth = -(radius - distance);
+        if(penetration_depth) *penetration_depth = radius - distance;
       }
       else
       {
         if(normal_) *normal_ = -normal;
         if(contact_points) *contact_points = contact_point;
-        if(penetration_depth) *penetration_depth = -radius;
+        if(penetration_depth) *penetration_depth = radius;
       }
 
       return true;
-- 
2.43.0


From 4c0d1bf0dcb1b32a36a135a6bc3d54e46715b59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:39 +0000
Subject: [PATCH 052/120] fix: sphereTriangleIntersect() took the last edge
 within reach instead of the nearest one for the contact

---
 .../detail/primitive_shape_algorithm/sphere_triangle-inl.h      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
index e4a29b4..e5d0e4e 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
@@ -173,6 +173,7 @@ bool sphereTriangleIntersect(const Sphere<S>& s, const Transform3<S>& tf,
       if(distance_sqr < contact_capsule_radius_sqr)
       {
         has_contact = true;
+        contact_capsule_radius_sqr = distance_sqr; // keep the nearest edge only
         contact_point = nearest_on_edge;
       }
 
@@ -180,6 +181,7 @@ bool sphereTriangleIntersect(const Sphere<S>& s, const Transform3<S>& tf,
       if(distance_sqr < contact_capsule_radius_sqr)
       {
         has_contact = true;
+        contact_capsule_radius_sqr = distance_sqr;
         contact_point = nearest_on_edge;
       }
 
-- 
2.43.0


From 537062fa197a23c77fe49b051e3299461644882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:03 +0000
Subject: [PATCH 053/120] fix: contacts and distances of meshes with
 world-aligned bounding volumes named freed temporary copies of the meshes

---
 include/fcl/narrowphase/collision_result-inl.h       | 12 ++++++++++++
 include/fcl/narrowphase/collision_result.h           |  4 ++++
 .../narrowphase/detail/collision_func_matrix-inl.h   |  4 ++++
 .../narrowphase/detail/distance_func_matrix-inl.h    |  3 +++
 4 files changed, 23 insertions(+)

diff --git a/include/fcl/narrowphase/collision_result-inl.h b/include/fcl/narrowphase/collision_result-inl.h
index e8829be..77a2571 100644
--- a/include/fcl/narrowphase/collision_result-inl.h
+++ b/include/fcl/narrowphase/collision_result-inl.h
@@ -71,6 +71,18 @@ void CollisionResult<S>::addCostSource(
     cost_sources.erase(--cost_sources.end());
 }
 
+//==============================================================================
+template <typename S>
+void CollisionResult<S>::replaceGeometry(
+    const CollisionGeometry<S>* from, const CollisionGeometry<S>* to)
+{
+  for (auto& contact : contacts)
+  {
+    if (contact.o1 == from) contact.o1 = to;
+    if (contact.o2 == from) contact.o2 = to;
+  }
+}
+
 //==============================================================================
 template <typename S>
 bool CollisionResult<S>::isCollision() const
diff --git a/include/fcl/narrowphase/collision_result.h b/include/fcl/narrowphase/collision_result.h
index a0d3677..1ec9fdd 100644
--- a/include/fcl/narrowphase/collision_result.h
+++ b/include/fcl/narrowphase/collision_result.h
@@ -70,6 +70,10 @@ public:
   /// @brief add one cost source into result structure
   void addCostSource(const CostSource<S>& c, std::size_t num_max_cost_sources);
 
+  /// @brief let every contact that names one geometry name another one; used
+  /// where a temporary copy of a geometry is tested in place of the geometry
+  void replaceGeometry(const CollisionGeometry<S>* from, const CollisionGeometry<S>* to);
+
   /// @brief return binary collision result
   bool isCollision() const;
 
diff --git a/include/fcl/narrowphase/detail/collision_func_matrix-inl.h b/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
index 092d338..2135bcb 100644
--- a/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
+++ b/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
@@ -341,6 +341,7 @@ struct BVHShapeCollider
       initialize(node, *obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, no_cost_request, result);
       fcl::detail::collide(&node);
 
+      result.replaceGeometry(obj1_tmp, obj1);
       delete obj1_tmp;
 
       Box<S> box;
@@ -365,6 +366,7 @@ struct BVHShapeCollider
       initialize(node, *obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, request, result);
       fcl::detail::collide(&node);
 
+      result.replaceGeometry(obj1_tmp, obj1);
       delete obj1_tmp;
     }
 
@@ -546,6 +548,8 @@ struct BVHCollideImpl
     initialize(node, *obj1_tmp, tf1_tmp, *obj2_tmp, tf2_tmp, request, result);
     collide(&node);
 
+    result.replaceGeometry(obj1_tmp, obj1);
+    result.replaceGeometry(obj2_tmp, obj2);
     delete obj1_tmp;
     delete obj2_tmp;
 
diff --git a/include/fcl/narrowphase/detail/distance_func_matrix-inl.h b/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
index 43f5f09..a609d38 100644
--- a/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
+++ b/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
@@ -249,6 +249,7 @@ struct BVHShapeDistancer
     initialize(node, *obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, request, result);
     ::fcl::distance(&node);
 
+    if(result.o1 == obj1_tmp) result.o1 = obj1;
     delete obj1_tmp;
     return result.min_distance;
   }
@@ -362,6 +363,8 @@ struct BVHDistanceImpl
 
     initialize(node, *obj1_tmp, tf1_tmp, *obj2_tmp, tf2_tmp, request, result);
     distance(&node);
+    if(result.o1 == obj1_tmp) result.o1 = obj1;
+    if(result.o2 == obj2_tmp) result.o2 = obj2;
     delete obj1_tmp;
     delete obj2_tmp;
 
-- 
2.43.0


From 2d245322563889f902e1b7a271c62d53424ff6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 054/120] fix: the OBB of a convex shape kept the extents of
 its fitted axes but turned the axes away

---
 include/fcl/geometry/shape/utility-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/geometry/shape/utility-inl.h b/include/fcl/geometry/shape/utility-inl.h
index ca42a0b..7232e5a 100644
--- a/include/fcl/geometry/shape/utility-inl.h
+++ b/include/fcl/geometry/shape/utility-inl.h
@@ -253,7 +253,7 @@ struct FCL_EXPORT ComputeBVImpl<S, OBB<S>, Convex<S>>
   {
     fit(s.getVertices().data(), static_cast<int>(s.getVertices().size()), bv);
 
-    bv.axis = tf.linear();
+    bv.axis = tf.linear() * bv.axis;
     bv.To = tf * bv.To;
   }
 };
-- 
2.43.0


From d097f63db6274f6683e5b901c6bc120f09dbe51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 055/120] fix: KDOPs of planes and half spaces with diagonal
 normals did not hold them

---
 include/fcl/geometry/shape/utility-inl.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/fcl/geometry/shape/utility-inl.h b/include/fcl/geometry/shape/utility-inl.h
index 7232e5a..ea01b23 100644
--- a/include/fcl/geometry/shape/utility-inl.h
+++ b/include/fcl/geometry/shape/utility-inl.h
@@ -450,7 +450,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 16>, Halfspace<S>>
     }
     else if(n[1] == (S)0.0 && n[0] == n[2])
     {
-      if(n[1] > 0) bv.dist(D + 4) = n[0] * d * 2;
+      if(n[0] > 0) bv.dist(D + 4) = n[0] * d * 2;
       else bv.dist(4) = n[0] * d * 2;
     }
     else if(n[0] == (S)0.0 && n[1] == n[2])
@@ -510,7 +510,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 18>, Halfspace<S>>
     }
     else if(n[1] == (S)0.0 && n[0] == n[2])
     {
-      if(n[1] > 0) bv.dist(D + 4) = n[0] * d * 2;
+      if(n[0] > 0) bv.dist(D + 4) = n[0] * d * 2;
       else bv.dist(4) = n[0] * d * 2;
     }
     else if(n[0] == (S)0.0 && n[1] == n[2])
@@ -575,7 +575,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 24>, Halfspace<S>>
     }
     else if(n[1] == (S)0.0 && n[0] == n[2])
     {
-      if(n[1] > 0) bv.dist(D + 4) = n[0] * d * 2;
+      if(n[0] > 0) bv.dist(D + 4) = n[0] * d * 2;
       else bv.dist(4) = n[0] * d * 2;
     }
     else if(n[0] == (S)0.0 && n[1] == n[2])
@@ -598,7 +598,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 24>, Halfspace<S>>
       if(n[1] > 0) bv.dist(D + 8) = n[1] * d * 2;
       else bv.dist(8) = n[1] * d * 2;
     }
-    else if(n[0] + n[2] == (S)0.0 && n[0] + n[1] == (S)0.0)
+    else if(n[0] + n[2] == (S)0.0 && n[0] == n[1])
     {
       if(n[0] > 0) bv.dist(D + 9) = n[0] * d * 3;
       else bv.dist(9) = n[0] * d * 3;
@@ -753,7 +753,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 16>, Plane<S>>
     }
     else if(n[0] == (S)0.0 && n[1] == n[2])
     {
-      bv.dist(6) = bv.dist(D + 5) = n[1] * d * 2;
+      bv.dist(5) = bv.dist(D + 5) = n[1] * d * 2;
     }
     else if(n[2] == (S)0.0 && n[0] + n[1] == (S)0.0)
     {
@@ -881,7 +881,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 24>, Plane<S>>
     {
       bv.dist(8) = bv.dist(D + 8) = n[1] * d * 2;
     }
-    else if(n[0] + n[2] == (S)0.0 && n[0] + n[1] == (S)0.0)
+    else if(n[0] + n[2] == (S)0.0 && n[0] == n[1])
     {
       bv.dist(9) = bv.dist(D + 9) = n[0] * d * 3;
     }
-- 
2.43.0


From 44b3697a72ba38038de5bbceb335af172e6c67de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 056/120] fix: the RSS of a plane covered only a quadrant of it

---
 include/fcl/geometry/shape/utility-inl.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/fcl/geometry/shape/utility-inl.h b/include/fcl/geometry/shape/utility-inl.h
index ea01b23..911c93e 100644
--- a/include/fcl/geometry/shape/utility-inl.h
+++ b/include/fcl/geometry/shape/utility-inl.h
@@ -674,16 +674,13 @@ struct FCL_EXPORT ComputeBVImpl<S, RSS<S>, Plane<S>>
 {
   static void run(const Plane<S>& s, const Transform3<S>& tf, RSS<S>& bv)
   {
-    const Vector3<S> n = tf.linear() * s.n;
-    bv.axis = generateCoordinateSystem(n);
-
-    bv.l[0] = std::numeric_limits<S>::max();
-    bv.l[1] = std::numeric_limits<S>::max();
-
-    bv.r = 0;
+    // A rectangle that grows from its corner cannot cover an unbounded plane,
+    // so that a plane can only have a very rough RSS.
+    bv.axis.setIdentity();
+    bv.l[0] = bv.l[1] = 0;
+    bv.r = std::numeric_limits<S>::max();
 
-    Vector3<S> p = s.n * s.d;
-    bv.To = tf * p;
+    bv.To = tf * (s.n * s.d);
   }
 };
 
-- 
2.43.0


From bb32d5ca33e721c63e8a14ee947b9e1d2fabcb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 057/120] fix: sphereTriangleIntersect() normalised a rounding
 error into a contact normal when the center is on the triangle

---
 .../detail/primitive_shape_algorithm/sphere_triangle-inl.h    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
index e5d0e4e..90c094c 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
@@ -201,7 +201,9 @@ bool sphereTriangleIntersect(const Sphere<S>& s, const Transform3<S>& tf,
 
     if(distance_sqr < radius_with_threshold * radius_with_threshold)
     {
-      if(distance_sqr > 0)
+      // The direction to the contact point is lost to rounding when the center
+      // lies on the triangle.
+      if(distance_sqr > std::numeric_limits<S>::epsilon() * radius * radius)
       {
         S distance = std::sqrt(distance_sqr);
         if(normal_) *normal_ = contact_to_center.normalized();
-- 
2.43.0


From 1c2c517bc559364da94d3e98a717dbbf76ff15b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 058/120] fix: the nearest points of a sphere and a triangle
 were in the frames of the shapes instead of the world

---
 .../detail/primitive_shape_algorithm/sphere_triangle-inl.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
index 90c094c..ee4ed2d 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
@@ -484,7 +484,7 @@ bool sphereTriangleDistance(const Sphere<S>& sp, const Transform3<S>& tf,
       Vector3<S> project_p = P1 * result.parameterization[0] + P2 * result.parameterization[1] + P3 * result.parameterization[2];
       Vector3<S> dir = o - project_p;
       dir.normalize();
-      if(p1) { *p1 = o - dir * sp.radius; *p1 = tf.inverse(Eigen::Isometry) * (*p1); }
+      if(p1) *p1 = o - dir * sp.radius;
       if(p2) *p2 = project_p;
       return true;
     }
@@ -503,10 +503,7 @@ bool sphereTriangleDistance(const Sphere<S>& sp, const Transform3<S>& tf1,
                             const Vector3<S>& P1, const Vector3<S>& P2, const Vector3<S>& P3, const Transform3<S>& tf2,
                             S* dist, Vector3<S>* p1, Vector3<S>* p2)
 {
-  bool res = detail::sphereTriangleDistance(sp, tf1, tf2 * P1, tf2 * P2, tf2 * P3, dist, p1, p2);
-  if(p2) *p2 = tf2.inverse(Eigen::Isometry) * (*p2);
-
-  return res;
+  return detail::sphereTriangleDistance(sp, tf1, tf2 * P1, tf2 * P2, tf2 * P3, dist, p1, p2);
 }
 
 } // namespace detail
-- 
2.43.0


From d45080cd88e6755d8035616bf6b2bdfcfc7cdc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 059/120] fix: the distance of an overlapping sphere and
 triangle was not set when nearest points are requested

---
 .../detail/primitive_shape_algorithm/sphere_triangle-inl.h     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
index ee4ed2d..05e5073 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
@@ -489,7 +489,10 @@ bool sphereTriangleDistance(const Sphere<S>& sp, const Transform3<S>& tf,
       return true;
     }
     else
+    {
+      if(dist) *dist = -1;
       return false;
+    }
   }
   else
   {
-- 
2.43.0


From 3b080c1f9243d0edb2fcb2aa7df2532b87511e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 060/120] fix: a second distance query on oriented meshes moved
 the nearest points of the first

---
 .../distance/mesh_distance_traversal_node-inl.h | 17 +++++++++++++++++
 .../distance/mesh_distance_traversal_node.h     |  3 +++
 2 files changed, 20 insertions(+)

diff --git a/include/fcl/narrowphase/detail/traversal/distance/mesh_distance_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/distance/mesh_distance_traversal_node-inl.h
index 558149d..caf0a1b 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/mesh_distance_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/mesh_distance_traversal_node-inl.h
@@ -102,6 +102,8 @@ MeshDistanceTraversalNode<BV>::MeshDistanceTraversalNode() : BVHDistanceTraversa
 
   rel_err = this->request.rel_err;
   abs_err = this->request.abs_err;
+
+  initial_min_distance = std::numeric_limits<S>::max();
 }
 
 //==============================================================================
@@ -233,6 +235,8 @@ MeshDistanceTraversalNodeRSS<S>::MeshDistanceTraversalNodeRSS()
 template <typename S>
 void MeshDistanceTraversalNodeRSS<S>::preprocess()
 {
+  this->initial_min_distance = this->result->min_distance;
+
   detail::distancePreprocessOrientedNode(
         this->model1,
         this->model2,
@@ -251,6 +255,9 @@ void MeshDistanceTraversalNodeRSS<S>::preprocess()
 template <typename S>
 void MeshDistanceTraversalNodeRSS<S>::postprocess()
 {
+  // The result of an earlier query is in world space already
+  if(this->result->min_distance >= this->initial_min_distance) return;
+
   detail::distancePostprocessOrientedNode(
         this->model1,
         this->model2,
@@ -292,6 +299,8 @@ MeshDistanceTraversalNodekIOS<S>::MeshDistanceTraversalNodekIOS()
 template <typename S>
 void MeshDistanceTraversalNodekIOS<S>::preprocess()
 {
+  this->initial_min_distance = this->result->min_distance;
+
   detail::distancePreprocessOrientedNode(
         this->model1,
         this->model2,
@@ -310,6 +319,9 @@ void MeshDistanceTraversalNodekIOS<S>::preprocess()
 template <typename S>
 void MeshDistanceTraversalNodekIOS<S>::postprocess()
 {
+  // The result of an earlier query is in world space already
+  if(this->result->min_distance >= this->initial_min_distance) return;
+
   detail::distancePostprocessOrientedNode(
         this->model1,
         this->model2,
@@ -351,6 +363,8 @@ MeshDistanceTraversalNodeOBBRSS<S>::MeshDistanceTraversalNodeOBBRSS()
 template <typename S>
 void MeshDistanceTraversalNodeOBBRSS<S>::preprocess()
 {
+  this->initial_min_distance = this->result->min_distance;
+
   detail::distancePreprocessOrientedNode(
         this->model1,
         this->model2,
@@ -369,6 +383,9 @@ void MeshDistanceTraversalNodeOBBRSS<S>::preprocess()
 template <typename S>
 void MeshDistanceTraversalNodeOBBRSS<S>::postprocess()
 {
+  // The result of an earlier query is in world space already
+  if(this->result->min_distance >= this->initial_min_distance) return;
+
   detail::distancePostprocessOrientedNode(
         this->model1,
         this->model2,
diff --git a/include/fcl/narrowphase/detail/traversal/distance/mesh_distance_traversal_node.h b/include/fcl/narrowphase/detail/traversal/distance/mesh_distance_traversal_node.h
index 92f4461..7e5296d 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/mesh_distance_traversal_node.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/mesh_distance_traversal_node.h
@@ -75,6 +75,9 @@ public:
   /// @brief relative and absolute error, default value is 0.01 for both terms
   S rel_err;
   S abs_err;
+
+  /// @brief smallest distance that the result already held before this query
+  S initial_min_distance;
 };
 
 /// @brief Initialize traversal node for distance computation between two
-- 
2.43.0


From eec068fd3542d40ba92bea476f959ca83f4eb63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 061/120] fix: the distance of two triangles with parallel or
 touching edges could be wrong

The direction that separates the triangles was computed by cross products
that are rounding errors if the edges are parallel or nearly touch; the
difference of the closest points is used instead.
---
 .../triangle_distance-inl.h                     | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance-inl.h
index 33a1d4f..4f76e5e 100644
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance-inl.h
@@ -40,6 +40,8 @@
 
 #include "fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance.h"
 
+#include "fcl/math/constants.h"
+
 namespace fcl
 {
 
@@ -76,7 +78,12 @@ void TriangleDistance<S>::segPoints(const Vector3<S>& P, const Vector3<S>& A, co
 
   S denom = A_dot_A*B_dot_B - A_dot_B*A_dot_B;
 
-  t = (A_dot_T*B_dot_B - B_dot_T*A_dot_B) / denom;
+  // of (nearly) parallel rays every point is closest; rounding errors should
+  // not choose one
+  if(denom <= 8 * constants<S>::eps() * A_dot_A * B_dot_B)
+    t = 0;
+  else
+    t = (A_dot_T*B_dot_B - B_dot_T*A_dot_B) / denom;
 
   // clamp result so t is on the segment P,A
 
@@ -221,14 +228,16 @@ S TriangleDistance<S>::triDistance(const Vector3<S> T1[3], const Vector3<S> T2[3
         minQ = Q;
         mindd = dd;
 
+        // V has the direction of VEC, which is a rounding error if an edge
+        // passes (nearly) through the closest point of the other
         Z = T1[(i+2)%3] - P;
-        S a = Z.dot(VEC);
+        S a = Z.dot(V);
         Z = T2[(j+2)%3] - Q;
-        S b = Z.dot(VEC);
+        S b = Z.dot(V);
 
         if((a <= 0) && (b >= 0)) return sqrt(dd);
 
-        S p = V.dot(VEC);
+        S p = V.dot(V);
 
         if(a < 0) a = 0;
         if(b > 0) b = 0;
-- 
2.43.0


From e55429c0e5d36659db8735784c57c6a7043c6a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:24 +0000
Subject: [PATCH 062/120] fix: triangles that touch away from their edges could
 be reported apart

A gap between the planes through an edge pair that is only a rounding error
was taken as a proof that the triangles are disjoint.
---
 .../primitive_shape_algorithm/triangle_distance-inl.h    | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance-inl.h
index 4f76e5e..cea2eab 100644
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance-inl.h
@@ -206,6 +206,13 @@ S TriangleDistance<S>::triDistance(const Vector3<S> T1[3], const Vector3<S> T2[3
   S mindd;
   int shown_disjoint = 0;
 
+  // a gap below the rounding error of the points does not show triangles
+  // disjoint: they may touch away from their edges
+  S tol = 0;
+  for(int i = 0; i < 3; ++i)
+    tol = std::max(tol, std::max(T1[i].norm(), T2[i].norm()));
+  tol *= 16 * constants<S>::eps();
+
   mindd = (T1[0] - T2[0]).squaredNorm() + 1; // Set first minimum safely high
 
   for(int i = 0; i < 3; ++i)
@@ -241,7 +248,7 @@ S TriangleDistance<S>::triDistance(const Vector3<S> T1[3], const Vector3<S> T2[3
 
         if(a < 0) a = 0;
         if(b > 0) b = 0;
-        if((p - a + b) > 0) shown_disjoint = 1;
+        if((p - a + b) > tol * sqrt(dd)) shown_disjoint = 1;
       }
     }
   }
-- 
2.43.0


From c01743595ab2cef13a892a838163b24383a39cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:02 +0000
Subject: [PATCH 063/120] fix: contact of a capsule with one end point on a
 plane could point the wrong way

---
 .../narrowphase/detail/primitive_shape_algorithm/plane-inl.h   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
index f39aabc..ade8730 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
@@ -363,7 +363,8 @@ bool capsulePlaneIntersect(const Capsule<S>& s1, const Transform3<S>& tf1,
     {
       if (contacts)
       {
-        const Vector3<S> normal = (d1 < 0) ? new_s2.n : (-new_s2.n).eval();
+        // one end point may be on the plane: the other tells the side
+        const Vector3<S> normal = (d1 + d2 < 0) ? new_s2.n : (-new_s2.n).eval();
         const S penetration_depth = s1.radius - std::min(abs_d1, abs_d2);
         Vector3<S> point;
         if(abs_d1 <= s1.radius && abs_d2 <= s1.radius)
-- 
2.43.0


From 7af81e3de98b12f2a4d437ea26dfe719b4f231a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:42 +0000
Subject: [PATCH 064/120] fix: TaylorModel::getBound() used the wrong
 coefficient for its upper end

---
 include/fcl/math/motion/taylor_model/taylor_model-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/math/motion/taylor_model/taylor_model-inl.h b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
index 861f72d..7630bc3 100644
--- a/include/fcl/math/motion/taylor_model/taylor_model-inl.h
+++ b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
@@ -356,7 +356,7 @@ Interval<S> TaylorModel<S>::getBound(S t0, S t1) const
 template <typename S>
 Interval<S> TaylorModel<S>::getBound() const
 {
-  return Interval<S>(coeffs_[0] + r_[0], coeffs_[1] + r_[1]) + time_interval_->t_ * coeffs_[1] + time_interval_->t2_ * coeffs_[2] + time_interval_->t3_ * coeffs_[3];
+  return Interval<S>(coeffs_[0] + r_[0], coeffs_[0] + r_[1]) + time_interval_->t_ * coeffs_[1] + time_interval_->t2_ * coeffs_[2] + time_interval_->t3_ * coeffs_[3];
 }
 
 //==============================================================================
-- 
2.43.0


From 96132b104ef8551c0614af05642d25245cc5110e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:42 +0000
Subject: [PATCH 065/120] fix: remainder of the sine and cosine Taylor models
 lost its positive part

---
 include/fcl/math/motion/taylor_model/taylor_model-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/math/motion/taylor_model/taylor_model-inl.h b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
index 7630bc3..a60e50a 100644
--- a/include/fcl/math/motion/taylor_model/taylor_model-inl.h
+++ b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
@@ -551,7 +551,7 @@ void generateTaylorModelForCosFunc(TaylorModel<S>& tm, S w, S q0)
   // [0, midSize4] * fdddBounds
   if(fddddBounds[0] > 0)
     tm.remainder().setValue(0, fddddBounds[1] * midSize4 * (1.0 / 24));
-  else if(fddddBounds[0] < 0)
+  else if(fddddBounds[1] < 0)
     tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), 0);
   else
     tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), fddddBounds[1] * midSize4 * (1.0 / 24));
@@ -622,7 +622,7 @@ void generateTaylorModelForSinFunc(TaylorModel<S>& tm, S w, S q0)
     // [0, midSize4] * fdddBounds
     if(fddddBounds[0] > 0)
       tm.remainder().setValue(0, fddddBounds[1] * midSize4 * (1.0 / 24));
-    else if(fddddBounds[0] < 0)
+    else if(fddddBounds[1] < 0)
       tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), 0);
     else
       tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), fddddBounds[1] * midSize4 * (1.0 / 24));
-- 
2.43.0


From 9834d7caa5d8ec261370c2e896d8eb93bed53b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:42 +0000
Subject: [PATCH 066/120] fix: Interval::getAbsUpper() was negative for mostly
 negative intervals

---
 include/fcl/math/motion/taylor_model/interval-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/math/motion/taylor_model/interval-inl.h b/include/fcl/math/motion/taylor_model/interval-inl.h
index 2e2dbb1..cf0f939 100644
--- a/include/fcl/math/motion/taylor_model/interval-inl.h
+++ b/include/fcl/math/motion/taylor_model/interval-inl.h
@@ -361,7 +361,7 @@ template <typename S>
 S Interval<S>::getAbsUpper() const
 {
   if(i_[0] + i_[1] >= 0) return i_[1];
-  return i_[0];
+  return -i_[0];
 }
 
 //==============================================================================
-- 
2.43.0


From 9df58895a4d9a642bed467787db740f4f43d004e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:42 +0000
Subject: [PATCH 067/120] fix: IMatrix3::getLow() returned the upper ends

---
 include/fcl/math/motion/taylor_model/interval_matrix-inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/math/motion/taylor_model/interval_matrix-inl.h b/include/fcl/math/motion/taylor_model/interval_matrix-inl.h
index bda8fc0..3e87510 100644
--- a/include/fcl/math/motion/taylor_model/interval_matrix-inl.h
+++ b/include/fcl/math/motion/taylor_model/interval_matrix-inl.h
@@ -165,9 +165,9 @@ template <typename S>
 Matrix3<S> IMatrix3<S>::getLow() const
 {
   Matrix3<S> m;
-  m << v_[0][0][1], v_[0][1][1], v_[0][2][1],
-       v_[1][0][1], v_[1][1][1], v_[1][2][1],
-       v_[2][0][1], v_[2][1][1], v_[2][2][1];
+  m << v_[0][0][0], v_[0][1][0], v_[0][2][0],
+       v_[1][0][0], v_[1][1][0], v_[1][2][0],
+       v_[2][0][0], v_[2][1][0], v_[2][2][0];
   return m;
 }
 
-- 
2.43.0


From 1dd947d70ddb26723746271899ee44ee951eec02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:52 +0000
Subject: [PATCH 068/120] fix: product of a matrix and a Taylor model lost its
 last column

---
 include/fcl/math/motion/taylor_model/taylor_matrix-inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h b/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h
index f5b1843..e873cde 100644
--- a/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h
+++ b/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h
@@ -514,15 +514,15 @@ TMatrix3<S> operator * (const Matrix3<S>& m, const TaylorModel<S>& a)
   TMatrix3<S> res(a.getTimeInterval());
   res(0, 0) = a * m(0, 0);
   res(0, 1) = a * m(0, 1);
-  res(0, 1) = a * m(0, 2);
+  res(0, 2) = a * m(0, 2);
 
   res(1, 0) = a * m(1, 0);
   res(1, 1) = a * m(1, 1);
-  res(1, 1) = a * m(1, 2);
+  res(1, 2) = a * m(1, 2);
 
   res(2, 0) = a * m(2, 0);
   res(2, 1) = a * m(2, 1);
-  res(2, 1) = a * m(2, 2);
+  res(2, 2) = a * m(2, 2);
 
   return res;
 }
-- 
2.43.0


From 5d1037d989a3edca4cceebab2c14e9af7e604ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:52 +0000
Subject: [PATCH 069/120] fix: tight bound of a Taylor model with a tiny cubic
 term could miss an extremum

---
 include/fcl/math/motion/taylor_model/taylor_model-inl.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/fcl/math/motion/taylor_model/taylor_model-inl.h b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
index a60e50a..34e9447 100644
--- a/include/fcl/math/motion/taylor_model/taylor_model-inl.h
+++ b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
@@ -423,8 +423,11 @@ Interval<S> TaylorModel<S>::getTightBound(S t0, S t1) const
     if(delta < 0)
       return Interval<S>(LQ, RQ) + r_;
 
-    S r1 = (-coeffs_[2]-sqrt(delta))/(3*coeffs_[3]);
-    S r2 = (-coeffs_[2]+sqrt(delta))/(3*coeffs_[3]);
+    // avoid the cancellation in -c2+-sqrt(delta), which would lose an extremum
+    // when c3 is tiny
+    const S q = (coeffs_[2] < 0) ? -coeffs_[2]+sqrt(delta) : -coeffs_[2]-sqrt(delta);
+    S r1 = q/(3*coeffs_[3]);
+    S r2 = coeffs_[1]/q;
 
     if(r1 <= t1 && r1 >= t0)
     {
-- 
2.43.0


From cbc15b4df728139dfe457e5697f9d9cae43f8f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:52 +0000
Subject: [PATCH 070/120] fix: the sine Taylor model kept an old remainder when
 the frequency is zero

---
 .../motion/taylor_model/taylor_model-inl.h    | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/include/fcl/math/motion/taylor_model/taylor_model-inl.h b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
index 34e9447..2f10165 100644
--- a/include/fcl/math/motion/taylor_model/taylor_model-inl.h
+++ b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
@@ -615,21 +615,22 @@ void generateTaylorModelForSinFunc(TaylorModel<S>& tm, S w, S q0)
       if(ceil(k1) - floor(k2) > 1) fddddBounds[0] = -1;
     }
 
-    S w4 = w2 * w2;
-    fddddBounds *= w4;
-
-    S midSize = 0.5 * (tm.getTimeInterval()->t_[1] - tm.getTimeInterval()->t_[0]);
-    S midSize2 = midSize * midSize;
-    S midSize4 = midSize2 * midSize2;
-
-    // [0, midSize4] * fdddBounds
-    if(fddddBounds[0] > 0)
-      tm.remainder().setValue(0, fddddBounds[1] * midSize4 * (1.0 / 24));
-    else if(fddddBounds[1] < 0)
-      tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), 0);
-    else
-      tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), fddddBounds[1] * midSize4 * (1.0 / 24));
   }
+
+  S w4 = w2 * w2;
+  fddddBounds *= w4;
+
+  S midSize = 0.5 * (tm.getTimeInterval()->t_[1] - tm.getTimeInterval()->t_[0]);
+  S midSize2 = midSize * midSize;
+  S midSize4 = midSize2 * midSize2;
+
+  // [0, midSize4] * fdddBounds
+  if(fddddBounds[0] > 0)
+    tm.remainder().setValue(0, fddddBounds[1] * midSize4 * (1.0 / 24));
+  else if(fddddBounds[1] < 0)
+    tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), 0);
+  else
+    tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), fddddBounds[1] * midSize4 * (1.0 / 24));
 }
 
 //==============================================================================
-- 
2.43.0


From dc6882b8367d1e544e73762ce14c0460774af50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 071/120] fix: the cube root of the polynomial solver was
 truncated to a bool

---
 include/fcl/math/detail/polysolver-inl.h | 4 ++--
 include/fcl/math/detail/polysolver.h     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/math/detail/polysolver-inl.h b/include/fcl/math/detail/polysolver-inl.h
index c2c538c..dd41683 100644
--- a/include/fcl/math/detail/polysolver-inl.h
+++ b/include/fcl/math/detail/polysolver-inl.h
@@ -183,9 +183,9 @@ bool PolySolver<S>::isZero(S v)
 
 //==============================================================================
 template <typename S>
-bool PolySolver<S>::cbrt(S v)
+S PolySolver<S>::cbrt(S v)
 {
-  return std::pow(v, 1.0 / 3.0);
+  return std::cbrt(v);
 }
 
 //==============================================================================
diff --git a/include/fcl/math/detail/polysolver.h b/include/fcl/math/detail/polysolver.h
index 52808a9..2039854 100644
--- a/include/fcl/math/detail/polysolver.h
+++ b/include/fcl/math/detail/polysolver.h
@@ -64,7 +64,7 @@ private:
   static bool isZero(S v);
 
   /// @brief Compute v^{1/3} 
-  static bool cbrt(S v);
+  static S cbrt(S v);
 
   static constexpr S getNearZeroThreshold();
 };
-- 
2.43.0


From cc3eb3e3f8e461f264f2fb76d814f3e8121ebe4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 072/120] fix: the axes of Variance3 were rows instead of
 columns

---
 include/fcl/math/variance3-inl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/fcl/math/variance3-inl.h b/include/fcl/math/variance3-inl.h
index dea5340..475c9c7 100644
--- a/include/fcl/math/variance3-inl.h
+++ b/include/fcl/math/variance3-inl.h
@@ -66,6 +66,9 @@ template <typename S>
 void Variance3<S>::init()
 {
   eigen_old(Sigma, sigma, axis);
+
+  // eigen_old() stores the eigenvectors as rows
+  axis.transposeInPlace();
 }
 
 //==============================================================================
-- 
2.43.0


From 689802d37a1b66926a6836efbe082846b9e2b280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:53 +0000
Subject: [PATCH 073/120] fix: InterpMotion was left partly uninitialised by
 most of its constructors

---
 include/fcl/math/motion/interp_motion-inl.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/fcl/math/motion/interp_motion-inl.h b/include/fcl/math/motion/interp_motion-inl.h
index c006841..9a71340 100644
--- a/include/fcl/math/motion/interp_motion-inl.h
+++ b/include/fcl/math/motion/interp_motion-inl.h
@@ -50,7 +50,13 @@ class FCL_EXPORT InterpMotion<double>;
 //==============================================================================
 template <typename S>
 InterpMotion<S>::InterpMotion()
-  : MotionBase<S>(), angular_axis(Vector3<S>::UnitX())
+  : MotionBase<S>(),
+    tf1(Transform3<S>::Identity()),
+    tf2(Transform3<S>::Identity()),
+    tf(Transform3<S>::Identity()),
+    linear_vel(Vector3<S>::Zero()),
+    angular_axis(Vector3<S>::UnitX()),
+    reference_p(Vector3<S>::Zero())
 {
   // Default angular velocity is zero
   angular_vel = 0;
@@ -67,7 +73,8 @@ InterpMotion<S>::InterpMotion(
     const Matrix3<S>& R2, const Vector3<S>& T2)
   : MotionBase<S>(),
     tf1(Transform3<S>::Identity()),
-    tf2(Transform3<S>::Identity())
+    tf2(Transform3<S>::Identity()),
+    reference_p(Vector3<S>::Zero())
 {
   tf1.linear() = R1;
   tf1.translation() = T1;
@@ -85,7 +92,7 @@ InterpMotion<S>::InterpMotion(
 template <typename S>
 InterpMotion<S>::InterpMotion(
     const Transform3<S>& tf1_, const Transform3<S>& tf2_)
-  : MotionBase<S>(), tf1(tf1_), tf2(tf2_), tf(tf1)
+  : MotionBase<S>(), tf1(tf1_), tf2(tf2_), tf(tf1), reference_p(Vector3<S>::Zero())
 {
   // Compute the velocities for the motion
   computeVelocity();
@@ -122,7 +129,8 @@ InterpMotion<S>::InterpMotion(
     const Transform3<S>& tf1_, const Transform3<S>& tf2_, const Vector3<S>& O)
   : MotionBase<S>(), tf1(tf1_), tf2(tf2_), tf(tf1), reference_p(O)
 {
-  // Do nothing
+  // Compute the velocities for the motion
+  computeVelocity();
 }
 
 //==============================================================================
-- 
2.43.0


From ef7946ca1e6b7ece7f06b3c7845c1b0c2c20dae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:53 +0000
Subject: [PATCH 074/120] fix: the default ScrewMotion was left uninitialised

---
 include/fcl/math/motion/screw_motion-inl.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/fcl/math/motion/screw_motion-inl.h b/include/fcl/math/motion/screw_motion-inl.h
index ae72d6c..7922a16 100644
--- a/include/fcl/math/motion/screw_motion-inl.h
+++ b/include/fcl/math/motion/screw_motion-inl.h
@@ -50,7 +50,12 @@ class FCL_EXPORT ScrewMotion<double>;
 //==============================================================================
 template <typename S>
 ScrewMotion<S>::ScrewMotion()
-  : MotionBase<S>(), axis(Vector3<S>::UnitX())
+  : MotionBase<S>(),
+    tf1(Transform3<S>::Identity()),
+    tf2(Transform3<S>::Identity()),
+    tf(Transform3<S>::Identity()),
+    axis(Vector3<S>::UnitX()),
+    p(Vector3<S>::Zero())
 {
   // Default angular velocity is zero
   angular_vel = 0;
-- 
2.43.0


From 297a0a6685917fce6435a4e6f91f0efda983849f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:53 +0000
Subject: [PATCH 075/120] fix: ScrewMotion without rotation moved by the
 squared distance

---
 include/fcl/math/motion/screw_motion-inl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fcl/math/motion/screw_motion-inl.h b/include/fcl/math/motion/screw_motion-inl.h
index 7922a16..10085e4 100644
--- a/include/fcl/math/motion/screw_motion-inl.h
+++ b/include/fcl/math/motion/screw_motion-inl.h
@@ -179,6 +179,10 @@ void ScrewMotion<S>::computeScrewParameter()
     angular_vel = 0;
     axis = tf2.translation() - tf1.translation();
     linear_vel = axis.norm();
+    if(linear_vel > 0)
+      axis /= linear_vel;
+    else
+      axis = Vector3<S>::UnitX();
     p = tf1.translation();
   }
   else
-- 
2.43.0


From eec950e36e2b37d1ec0a6553725efd193cbae43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:53 +0000
Subject: [PATCH 076/120] fix: TranslationMotion::getTaylorModel() left its
 results unset

---
 include/fcl/math/motion/translation_motion-inl.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/fcl/math/motion/translation_motion-inl.h b/include/fcl/math/motion/translation_motion-inl.h
index a2aaf6c..fe5056e 100644
--- a/include/fcl/math/motion/translation_motion-inl.h
+++ b/include/fcl/math/motion/translation_motion-inl.h
@@ -115,11 +115,9 @@ void TranslationMotion<S>::getCurrentTransform(Transform3<S>& tf_) const
 template <typename S>
 void TranslationMotion<S>::getTaylorModel(TMatrix3<S>& tm, TVector3<S>& tv) const
 {
-  FCL_UNUSED(tm);
-  FCL_UNUSED(tv);
-
-  // Do nothing
-  // TODO(JS): Not implemented?
+  tm = TMatrix3<S>(rot.toRotationMatrix(), this->getTimeInterval());
+  tv = TVector3<S>(this->getTimeInterval());
+  generateTVector3ForLinearFunc(tv, trans_start, trans_range);
 }
 
 //==============================================================================
-- 
2.43.0


From c5957ae3ef7d15bd8668df2418b71dccc804c5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 077/120] fix: SplineMotion built from two configurations was
 left uninitialised

---
 include/fcl/math/motion/spline_motion-inl.h | 77 ++++++++++++---------
 include/fcl/math/motion/spline_motion.h     |  4 ++
 2 files changed, 49 insertions(+), 32 deletions(-)

diff --git a/include/fcl/math/motion/spline_motion-inl.h b/include/fcl/math/motion/spline_motion-inl.h
index e3d992d..ad4d8ce 100644
--- a/include/fcl/math/motion/spline_motion-inl.h
+++ b/include/fcl/math/motion/spline_motion-inl.h
@@ -66,27 +66,7 @@ SplineMotion<S>::SplineMotion(
   Rd[2] = Rd2;
   Rd[3] = Rd3;
 
-  Rd0Rd0 = Rd[0].dot(Rd[0]);
-  Rd0Rd1 = Rd[0].dot(Rd[1]);
-  Rd0Rd2 = Rd[0].dot(Rd[2]);
-  Rd0Rd3 = Rd[0].dot(Rd[3]);
-  Rd1Rd1 = Rd[1].dot(Rd[1]);
-  Rd1Rd2 = Rd[1].dot(Rd[2]);
-  Rd1Rd3 = Rd[1].dot(Rd[3]);
-  Rd2Rd2 = Rd[2].dot(Rd[2]);
-  Rd2Rd3 = Rd[2].dot(Rd[3]);
-  Rd3Rd3 = Rd[3].dot(Rd[3]);
-
-  TA = Td[1] * 3 - Td[2] * 3 + Td[3] - Td[0];
-  TB = (Td[0] - Td[1] * 2 + Td[2]) * 3;
-  TC = (Td[2] - Td[0]) * 3;
-
-  RA = Rd[1] * 3 - Rd[2] * 3 + Rd[3] - Rd[0];
-  RB = (Rd[0] - Rd[1] * 2 + Rd[2]) * 3;
-  RC = (Rd[2] - Rd[0]) * 3;
-
-  tf.setIdentity();
-  integrate(0.0);
+  computeSplineParameter();
 }
 
 //==============================================================================
@@ -96,12 +76,7 @@ SplineMotion<S>::SplineMotion(
     const Matrix3<S>& R2, const Vector3<S>& T2)
   : MotionBase<S>()
 {
-  FCL_UNUSED(R1);
-  FCL_UNUSED(T1);
-  FCL_UNUSED(R2);
-  FCL_UNUSED(T2);
-
-  // TODO
+  setEndPoints(R1, T1, R2, T2);
 }
 
 //==============================================================================
@@ -110,10 +85,7 @@ SplineMotion<S>::SplineMotion(
     const Transform3<S>& tf1, const Transform3<S>& tf2)
   : MotionBase<S>()
 {
-  FCL_UNUSED(tf1);
-  FCL_UNUSED(tf2);
-
-  // TODO
+  setEndPoints(tf1.linear(), tf1.translation(), tf2.linear(), tf2.translation());
 }
 
 //==============================================================================
@@ -238,11 +210,52 @@ void SplineMotion<S>::getTaylorModel(TMatrix3<S>& tm, TVector3<S>& tv) const
   }
 }
 
+//==============================================================================
+template <typename S>
+void SplineMotion<S>::setEndPoints(
+    const Matrix3<S>& R1, const Vector3<S>& T1,
+    const Matrix3<S>& R2, const Vector3<S>& T2)
+{
+  const AngleAxis<S> aa1(R1);
+  const AngleAxis<S> aa2(R2);
+  const Vector3<S> w1 = aa1.axis() * aa1.angle();
+  const Vector3<S> w2 = aa2.axis() * aa2.angle();
+
+  // Equidistant control points on a line give a uniform movement along it
+  for(int i = 0; i < 4; ++i)
+  {
+    Td[i] = T1 + (T2 - T1) * (S)(i - 1);
+    Rd[i] = w1 + (w2 - w1) * (S)(i - 1);
+  }
+
+  computeSplineParameter();
+}
+
 //==============================================================================
 template <typename S>
 void SplineMotion<S>::computeSplineParameter()
 {
-  // TODO(JS): Not implemented?
+  Rd0Rd0 = Rd[0].dot(Rd[0]);
+  Rd0Rd1 = Rd[0].dot(Rd[1]);
+  Rd0Rd2 = Rd[0].dot(Rd[2]);
+  Rd0Rd3 = Rd[0].dot(Rd[3]);
+  Rd1Rd1 = Rd[1].dot(Rd[1]);
+  Rd1Rd2 = Rd[1].dot(Rd[2]);
+  Rd1Rd3 = Rd[1].dot(Rd[3]);
+  Rd2Rd2 = Rd[2].dot(Rd[2]);
+  Rd2Rd3 = Rd[2].dot(Rd[3]);
+  Rd3Rd3 = Rd[3].dot(Rd[3]);
+
+  TA = Td[1] * 3 - Td[2] * 3 + Td[3] - Td[0];
+  TB = (Td[0] - Td[1] * 2 + Td[2]) * 3;
+  TC = (Td[2] - Td[0]) * 3;
+
+  RA = Rd[1] * 3 - Rd[2] * 3 + Rd[3] - Rd[0];
+  RB = (Rd[0] - Rd[1] * 2 + Rd[2]) * 3;
+  RC = (Rd[2] - Rd[0]) * 3;
+
+  tf.setIdentity();
+  integrate(0.0);
 }
 
 //==============================================================================
diff --git a/include/fcl/math/motion/spline_motion.h b/include/fcl/math/motion/spline_motion.h
index 96f2eba..8cff06c 100644
--- a/include/fcl/math/motion/spline_motion.h
+++ b/include/fcl/math/motion/spline_motion.h
@@ -80,6 +80,10 @@ public:
   void getTaylorModel(TMatrix3<S>& tm, TVector3<S>& tv) const override;
 
 protected:
+  /// @brief Set the control points for a movement between two configurations
+  void setEndPoints(const Matrix3<S>& R1, const Vector3<S>& T1,
+                    const Matrix3<S>& R2, const Vector3<S>& T2);
+
   void computeSplineParameter();
 
   S getWeight0(S t) const;
-- 
2.43.0


From 6acc20d384b504139efa2d3d174fe8b4fc8d37a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 078/120] fix: the bound of the angular speed of a spline
 motion missed its extrema

---
 include/fcl/math/motion/spline_motion-inl.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fcl/math/motion/spline_motion-inl.h b/include/fcl/math/motion/spline_motion-inl.h
index ad4d8ce..03fdd2e 100644
--- a/include/fcl/math/motion/spline_motion-inl.h
+++ b/include/fcl/math/motion/spline_motion-inl.h
@@ -357,11 +357,13 @@ S SplineMotion<S>::computeDWMax() const
     da[i] /= 4.0;
   }
 
+  // the solver expects the coefficients in ascending order
+  S coeffs[4] = {da[3], da[2], da[1], da[0]};
   S roots[3];
 
-  int root_num = detail::PolySolver<S>::solveCubic(da, roots);
+  int root_num = detail::PolySolver<S>::solveCubic(coeffs, roots);
 
-  S dWdW_max = a[0] * tf_t * tf_t * tf_t + a[1] * tf_t * tf_t * tf_t + a[2] * tf_t * tf_t + a[3] * tf_t + a[4];
+  S dWdW_max = a[0] * tf_t * tf_t * tf_t * tf_t + a[1] * tf_t * tf_t * tf_t + a[2] * tf_t * tf_t + a[3] * tf_t + a[4];
   S dWdW_1 = a[0] + a[1] + a[2] + a[3] + a[4];
   if(dWdW_max < dWdW_1) dWdW_max = dWdW_1;
   for(int i = 0; i < root_num; ++i)
-- 
2.43.0


From 869a20d19f4f90989fec270c269d01f02854959e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 079/120] fix: motion bounds of spline motions did not bound
 the speed

Conservative advancement divides the distance by the bound to get a step, so
the bound has to hold per unit of time like those of the other motions, not for
the displacement over the whole remaining motion.
---
 include/fcl/math/motion/spline_motion-inl.h   | 42 ++++---------------
 .../motion/tbv_motion_bound_visitor-inl.h     |  5 +--
 .../triangle_motion_bound_visitor-inl.h       |  4 +-
 3 files changed, 9 insertions(+), 42 deletions(-)

diff --git a/include/fcl/math/motion/spline_motion-inl.h b/include/fcl/math/motion/spline_motion-inl.h
index 03fdd2e..7306ecd 100644
--- a/include/fcl/math/motion/spline_motion-inl.h
+++ b/include/fcl/math/motion/spline_motion-inl.h
@@ -266,43 +266,15 @@ S SplineMotion<S>::computeTBound(const Vector3<S>& n) const
   S Tb = TB.dot(n);
   S Tc = TC.dot(n);
 
-  std::vector<S> T_potential;
-  T_potential.push_back(tf_t);
-  T_potential.push_back(1);
-  if(Tb * Tb - 3 * Ta * Tc >= 0)
+  // the velocity along n is (3 * Ta * t^2 + 2 * Tb * t + Tc) / 6; find its
+  // maximum over the rest of the motion
+  S T_bound = std::max((3 * Ta * tf_t + 2 * Tb) * tf_t + Tc, 3 * Ta + 2 * Tb + Tc);
+  if(Ta < 0)
   {
-    if(Ta == 0)
-    {
-      if(Tb != 0)
-      {
-        S tmp = -Tc / (2 * Tb);
-        if(tmp < 1 && tmp > tf_t)
-          T_potential.push_back(tmp);
-      }
-    }
-    else
-    {
-      S tmp_delta = sqrt(Tb * Tb - 3 * Ta * Tc);
-      S tmp1 = (-Tb + tmp_delta) / (3 * Ta);
-      S tmp2 = (-Tb - tmp_delta) / (3 * Ta);
-      if(tmp1 < 1 && tmp1 > tf_t)
-        T_potential.push_back(tmp1);
-      if(tmp2 < 1 && tmp2 > tf_t)
-        T_potential.push_back(tmp2);
-    }
-  }
-
-  S T_bound = Ta * T_potential[0] * T_potential[0] * T_potential[0] + Tb * T_potential[0] * T_potential[0] + Tc * T_potential[0];
-  for(unsigned int i = 1; i < T_potential.size(); ++i)
-  {
-    S T_bound_tmp = Ta * T_potential[i] * T_potential[i] * T_potential[i] + Tb * T_potential[i] * T_potential[i] + Tc * T_potential[i];
-    if(T_bound_tmp > T_bound) T_bound = T_bound_tmp;
+    const S t = -Tb / (3 * Ta);
+    if(t > tf_t && t < 1)
+      T_bound = std::max(T_bound, (3 * Ta * t + 2 * Tb) * t + Tc);
   }
-
-
-  S cur_delta = Ta * tf_t * tf_t * tf_t + Tb * tf_t * tf_t + Tc * tf_t;
-
-  T_bound -= cur_delta;
   T_bound /= 6.0;
 
   return T_bound;
diff --git a/include/fcl/math/motion/tbv_motion_bound_visitor-inl.h b/include/fcl/math/motion/tbv_motion_bound_visitor-inl.h
index f33249d..558210b 100644
--- a/include/fcl/math/motion/tbv_motion_bound_visitor-inl.h
+++ b/include/fcl/math/motion/tbv_motion_bound_visitor-inl.h
@@ -129,7 +129,6 @@ struct TBVMotionBoundVisitorVisitImpl<S, RSS<S>, SplineMotion<S>>
       const SplineMotion<S>& motion)
   {
     S T_bound = motion.computeTBound(visitor.n);
-    S tf_t = motion.getCurrentTime();
 
     Vector3<S> c1 = visitor.bv.To;
     Vector3<S> c2 = visitor.bv.To + visitor.bv.axis.col(0) * visitor.bv.l[0];
@@ -167,9 +166,7 @@ struct TBVMotionBoundVisitorVisitImpl<S, RSS<S>, SplineMotion<S>>
     cxn_max = sqrt(cxn_max);
 
     S dWdW_max = motion.computeDWMax();
-    S ratio = std::min(1 - tf_t, dWdW_max);
-
-    S R_bound = 2 * (cn_max + cmax + cxn_max + 3 * visitor.bv.r) * ratio;
+    S R_bound = 2 * (cn_max + cmax + cxn_max + 3 * visitor.bv.r) * dWdW_max;
 
 
     // std::cout << R_bound << " " << T_bound << std::endl;
diff --git a/include/fcl/math/motion/triangle_motion_bound_visitor-inl.h b/include/fcl/math/motion/triangle_motion_bound_visitor-inl.h
index 59f37cb..1eadaf8 100644
--- a/include/fcl/math/motion/triangle_motion_bound_visitor-inl.h
+++ b/include/fcl/math/motion/triangle_motion_bound_visitor-inl.h
@@ -194,7 +194,6 @@ struct TriangleMotionBoundVisitorVisitImpl<S, SplineMotion<S>>
       const SplineMotion<S>& motion)
   {
     S T_bound = motion.computeTBound(visitor.n);
-    S tf_t = motion.getCurrentTime();
 
     S R_bound = std::abs(visitor.a.dot(visitor.n)) + visitor.a.norm() + (visitor.a.cross(visitor.n)).norm();
     S R_bound_tmp = std::abs(visitor.b.dot(visitor.n)) + visitor.b.norm() + (visitor.b.cross(visitor.n)).norm();
@@ -203,9 +202,8 @@ struct TriangleMotionBoundVisitorVisitImpl<S, SplineMotion<S>>
     if(R_bound_tmp > R_bound) R_bound = R_bound_tmp;
 
     S dWdW_max = motion.computeDWMax();
-    S ratio = std::min(1 - tf_t, dWdW_max);
 
-    R_bound *= 2 * ratio;
+    R_bound *= 2 * dWdW_max;
 
     // std::cout << R_bound << " " << T_bound << std::endl;
 
-- 
2.43.0


From be2340b7eef3b847c89b7f3200e6338ca0735029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 080/120] fix: the Taylor model of a spline motion did not hold
 the motion

The translation used a wrong constant term, the rotation divided by zero for
motions without rotation and its remainder was made up.
---
 include/fcl/math/motion/spline_motion-inl.h | 75 ++++++---------------
 1 file changed, 22 insertions(+), 53 deletions(-)

diff --git a/include/fcl/math/motion/spline_motion-inl.h b/include/fcl/math/motion/spline_motion-inl.h
index 7306ecd..d15543b 100644
--- a/include/fcl/math/motion/spline_motion-inl.h
+++ b/include/fcl/math/motion/spline_motion-inl.h
@@ -134,78 +134,47 @@ void SplineMotion<S>::getCurrentTransform(Transform3<S>& tf_) const
 template <typename S>
 void SplineMotion<S>::getTaylorModel(TMatrix3<S>& tm, TVector3<S>& tv) const
 {
+  const std::shared_ptr<TimeInterval<S>>& time_interval = this->getTimeInterval();
+
   // set tv
   Vector3<S> c[4];
-  c[0] = (Td[0] + Td[1] * 4 + Td[2] + Td[3]) * (1/6.0);
+  c[0] = (Td[0] + Td[1] * 4 + Td[2]) * (1/6.0);
   c[1] = (-Td[0] + Td[2]) * (1/2.0);
   c[2] = (Td[0] - Td[1] * 2 + Td[2]) * (1/2.0);
   c[3] = (-Td[0] + Td[1] * 3 - Td[2] * 3 + Td[3]) * (1/6.0);
-  tv.setTimeInterval(this->getTimeInterval());
+  tv.setTimeInterval(time_interval);
   for(std::size_t i = 0; i < 3; ++i)
   {
     for(std::size_t j = 0; j < 4; ++j)
     {
       tv[i].coeff(j) = c[j][i];
     }
+    tv[i].remainder() = Interval<S>(0, 0);
   }
 
-  // set tm
-  Matrix3<S> I = Matrix3<S>::Identity();
-  // R(t) = R(t0) + R'(t0) (t-t0) + 1/2 R''(t0)(t-t0)^2 + 1 / 6 R'''(t0) (t-t0)^3 + 1 / 24 R''''(l)(t-t0)^4; t0 = 0.5
-  /// 1. compute M(1/2)
-  Vector3<S> Rt0 = (Rd[0] + Rd[1] * 23 + Rd[2] * 23 + Rd[3]) * (1 / 48.0);
-  S Rt0_len = Rt0.norm();
-  S inv_Rt0_len = 1.0 / Rt0_len;
-  S inv_Rt0_len_3 = inv_Rt0_len * inv_Rt0_len * inv_Rt0_len;
-  S inv_Rt0_len_5 = inv_Rt0_len_3 * inv_Rt0_len * inv_Rt0_len;
-  S theta0 = Rt0_len;
-  S costheta0 = cos(theta0);
-  S sintheta0 = sin(theta0);
-
-  Vector3<S> Wt0 = Rt0 * inv_Rt0_len;
-  Matrix3<S> hatWt0;
-  hat(hatWt0, Wt0);
-  Matrix3<S> hatWt0_sqr = hatWt0 * hatWt0;
-  Matrix3<S> Mt0 = I + hatWt0 * sintheta0 + hatWt0_sqr * (1 - costheta0);
-  // TODO(JS): this could be improved by using exp(Wt0)
-
-  /// 2. compute M'(1/2)
-  Vector3<S> dRt0 = (-Rd[0] - Rd[1] * 5 + Rd[2] * 5 + Rd[3]) * (1 / 8.0);
-  S Rt0_dot_dRt0 = Rt0.dot(dRt0);
-  S dtheta0 = Rt0_dot_dRt0 * inv_Rt0_len;
-  Vector3<S> dWt0 = dRt0 * inv_Rt0_len - Rt0 * (Rt0_dot_dRt0 * inv_Rt0_len_3);
-  Matrix3<S> hatdWt0;
-  hat(hatdWt0, dWt0);
-  Matrix3<S> dMt0 = hatdWt0 * sintheta0 + hatWt0 * (costheta0 * dtheta0) + hatWt0_sqr * (sintheta0 * dtheta0) + (hatWt0 * hatdWt0 + hatdWt0 * hatWt0) * (1 - costheta0);
-
-  /// 3.1. compute M''(1/2)
-  Vector3<S> ddRt0 = (Rd[0] - Rd[1] - Rd[2] + Rd[3]) * 0.5;
-  S Rt0_dot_ddRt0 = Rt0.dot(ddRt0);
-  S dRt0_dot_dRt0 = dRt0.squaredNorm();
-  S ddtheta0 = (Rt0_dot_ddRt0 + dRt0_dot_dRt0) * inv_Rt0_len - Rt0_dot_dRt0 * Rt0_dot_dRt0 * inv_Rt0_len_3;
-  Vector3<S> ddWt0 = ddRt0 * inv_Rt0_len - (dRt0 * (2 * Rt0_dot_dRt0) + Rt0 * (Rt0_dot_ddRt0 + dRt0_dot_dRt0)) * inv_Rt0_len_3 + (Rt0 * (3 * Rt0_dot_dRt0 * Rt0_dot_dRt0)) * inv_Rt0_len_5;
-  Matrix3<S> hatddWt0;
-  hat(hatddWt0, ddWt0);
-  Matrix3<S> ddMt0 =
-      hatddWt0 * sintheta0 +
-      hatWt0 * (costheta0 * dtheta0 - sintheta0 * dtheta0 * dtheta0 + costheta0 * ddtheta0) +
-      hatdWt0 * (costheta0 * dtheta0) +
-      (hatWt0 * hatdWt0 + hatdWt0 * hatWt0) * (sintheta0 * dtheta0 * 2) +
-      hatdWt0 * hatdWt0 * (2 * (1 - costheta0)) +
-      hatWt0 * hatWt0 * (costheta0 * dtheta0 * dtheta0 + sintheta0 * ddtheta0) +
-      (hatWt0 * hatddWt0 + hatddWt0 + hatWt0) * (1 - costheta0);
-
-  tm.setTimeInterval(this->getTimeInterval());
+  // set tm: R(t) = R(t0) + R'(l) (t-t0), where t0 is the center of the time
+  // interval and no entry of R' exceeds the angular speed
+  const S cur_t = tf_t;
+  const Transform3<S> cur_tf = tf;
+  const S t0 = time_interval->t_.center();
+  integrate(t0);
+  const Matrix3<S> Mt0 = tf.linear();
+  tf_t = 0;
+  const S r = computeDWMax() * std::max(time_interval->t_[1] - t0, t0 - time_interval->t_[0]);
+  tf = cur_tf;
+  tf_t = cur_t;
+
+  tm.setTimeInterval(time_interval);
   for(std::size_t i = 0; i < 3; ++i)
   {
     for(std::size_t j = 0; j < 3; ++j)
     {
-      tm(i, j).coeff(0) = Mt0(i, j) - dMt0(i, j) * 0.5 + ddMt0(i, j) * 0.25 * 0.5;
-      tm(i, j).coeff(1) = dMt0(i, j) - ddMt0(i, j) * 0.5;
-      tm(i, j).coeff(2) = ddMt0(i, j) * 0.5;
+      tm(i, j).coeff(0) = Mt0(i, j);
+      tm(i, j).coeff(1) = 0;
+      tm(i, j).coeff(2) = 0;
       tm(i, j).coeff(3) = 0;
 
-      tm(i, j).remainder() = Interval<S>(-1/48.0, 1/48.0); /// not correct, should fix
+      tm(i, j).remainder() = Interval<S>(std::max(-r, -1 - Mt0(i, j)), std::min(r, 1 - Mt0(i, j)));
     }
   }
 }
-- 
2.43.0


From 53b45e3ea125762774569d4e6bcaa3bb85c02916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:30 +0000
Subject: [PATCH 081/120] fix: the bound of the angular speed of a spline
 motion could be NaN

---
 include/fcl/math/motion/spline_motion-inl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fcl/math/motion/spline_motion-inl.h b/include/fcl/math/motion/spline_motion-inl.h
index d15543b..453c4cd 100644
--- a/include/fcl/math/motion/spline_motion-inl.h
+++ b/include/fcl/math/motion/spline_motion-inl.h
@@ -318,7 +318,8 @@ S SplineMotion<S>::computeDWMax() const
     }
   }
 
-  return sqrt(dWdW_max);
+  // rounding can leave a tiny negative square
+  return dWdW_max > 0 ? sqrt(dWdW_max) : 0;
 }
 
 //==============================================================================
-- 
2.43.0


From 17814de6d95b2d8b81d11794964f868fc27350e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:17 +0000
Subject: [PATCH 082/120] fix: one iteration of naive continuous collision
 asked for the time 0/0

---
 include/fcl/narrowphase/continuous_collision-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/continuous_collision-inl.h b/include/fcl/narrowphase/continuous_collision-inl.h
index b24d0b8..b4179f4 100644
--- a/include/fcl/narrowphase/continuous_collision-inl.h
+++ b/include/fcl/narrowphase/continuous_collision-inl.h
@@ -145,7 +145,7 @@ S continuousCollideNaive(
   Transform3<S> cur_tf1, cur_tf2;
   for(std::size_t i = 0; i < n_iter; ++i)
   {
-    S t = i / (S) (n_iter - 1);
+    S t = (n_iter > 1) ? i / (S) (n_iter - 1) : S(0);
     motion1->integrate(t);
     motion2->integrate(t);
 
-- 
2.43.0


From 4997e599d665a215747a3cef4d32338fcaa1334c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:17 +0000
Subject: [PATCH 083/120] fix: conservative advancement started where the last
 query left the motions

---
 include/fcl/narrowphase/continuous_collision-inl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fcl/narrowphase/continuous_collision-inl.h b/include/fcl/narrowphase/continuous_collision-inl.h
index b4179f4..4f5724e 100644
--- a/include/fcl/narrowphase/continuous_collision-inl.h
+++ b/include/fcl/narrowphase/continuous_collision-inl.h
@@ -322,6 +322,10 @@ typename NarrowPhaseSolver::S continuousCollideConservativeAdvancement(
   NODE_TYPE node_type1 = o1->getNodeType();
   NODE_TYPE node_type2 = o2->getNodeType();
 
+  // the motions may have been left anywhere by an earlier query
+  motion1->integrate(0);
+  motion2->integrate(0);
+
   S res = -1;
 
   if(!looktable.conservative_advancement_matrix[node_type1][node_type2])
-- 
2.43.0


From 5cc8561c55d342cccd579cae397c39bc313be763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:13 +0000
Subject: [PATCH 084/120] fix: built-in GJK could repeat the same steps until
 it gave up, and then called distant shapes overlapping

---
 .../fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h
index 613c6cb..438a193 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h
@@ -155,7 +155,8 @@ typename GJK<S>::Status GJK<S>::evaluate(const MinkowskiDiff<S>& shape_, const V
       project_res = Project<S>::projectTetrahedraOrigin(curr_simplex.c[0]->w, curr_simplex.c[1]->w, curr_simplex.c[2]->w, curr_simplex.c[3]->w); break;
     }
 
-    if(project_res.sqr_distance >= 0)
+    // the distance has to decrease, or else the iteration has converged up to rounding and would only repeat itself
+    if(project_res.sqr_distance >= 0 && project_res.sqr_distance < rl * rl)
     {
       next_simplex.rank = 0;
       ray.setZero();
-- 
2.43.0


From 2af9ec081df8861c4ed6aaeda39cf3d20d59c38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:14 +0000
Subject: [PATCH 085/120] fix: conservative advancement went on when it had
 arrived at contact, as the closest points give no direction there

---
 .../mesh_conservative_advancement_traversal_node-inl.h    | 8 ++++++--
 ...sh_shape_conservative_advancement_traversal_node-inl.h | 8 ++++++--
 .../shape_conservative_advancement_traversal_node-inl.h   | 4 +++-
 ...ape_mesh_conservative_advancement_traversal_node-inl.h | 4 +++-
 4 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node-inl.h
index 44ddde5..c816212 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node-inl.h
@@ -157,7 +157,9 @@ void MeshConservativeAdvancementTraversalNode<BV>::leafTesting(int b1, int b2) c
   S bound = bound1 + bound2;
 
   S cur_delta_t;
-  if(bound <= d) cur_delta_t = 1;
+  // closest points that coincide give no direction to advance along
+  if(d <= 1e-6) cur_delta_t = 0;
+  else if(bound <= d) cur_delta_t = 1;
   else cur_delta_t = d / bound;
 
   if(cur_delta_t < delta_t)
@@ -738,7 +740,9 @@ void meshConservativeAdvancementOrientedNodeLeafTesting(
   S bound = bound1 + bound2;
 
   S cur_delta_t;
-  if(bound <= d) cur_delta_t = 1;
+  // closest points that coincide give no direction to advance along
+  if(d <= 1e-6) cur_delta_t = 0;
+  else if(bound <= d) cur_delta_t = 1;
   else cur_delta_t = d / bound;
 
   if(cur_delta_t < delta_t)
diff --git a/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node-inl.h
index 20ee58d..6397a00 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node-inl.h
@@ -122,7 +122,9 @@ leafTesting(int b1, int b2) const
   S bound = bound1 + bound2;
 
   S cur_delta_t;
-  if(bound <= d) cur_delta_t = 1;
+  // closest points that coincide give no direction to advance along
+  if(d <= 1e-6) cur_delta_t = 0;
+  else if(bound <= d) cur_delta_t = 1;
   else cur_delta_t = d / bound;
 
   if(cur_delta_t < delta_t)
@@ -273,7 +275,9 @@ void meshShapeConservativeAdvancementOrientedNodeLeafTesting(
   S bound = bound1 + bound2;
 
   S cur_delta_t;
-  if(bound <= distance) cur_delta_t = 1;
+  // closest points that coincide give no direction to advance along
+  if(distance <= 1e-6) cur_delta_t = 0;
+  else if(bound <= distance) cur_delta_t = 1;
   else cur_delta_t = distance / bound;
 
   if(cur_delta_t < delta_t)
diff --git a/include/fcl/narrowphase/detail/traversal/distance/shape_conservative_advancement_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/distance/shape_conservative_advancement_traversal_node-inl.h
index 0944d4e..c2509e6 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/shape_conservative_advancement_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/shape_conservative_advancement_traversal_node-inl.h
@@ -88,7 +88,9 @@ leafTesting(int, int) const
   S bound = bound1 + bound2;
 
   S cur_delta_t;
-  if(bound <= distance) cur_delta_t = 1;
+  // closest points that coincide give no direction to advance along
+  if(distance <= 1e-6) cur_delta_t = 0;
+  else if(bound <= distance) cur_delta_t = 1;
   else cur_delta_t = distance / bound;
 
   if(cur_delta_t < delta_t)
diff --git a/include/fcl/narrowphase/detail/traversal/distance/shape_mesh_conservative_advancement_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/distance/shape_mesh_conservative_advancement_traversal_node-inl.h
index 45ae86f..4531bbe 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/shape_mesh_conservative_advancement_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/shape_mesh_conservative_advancement_traversal_node-inl.h
@@ -121,7 +121,9 @@ void ShapeMeshConservativeAdvancementTraversalNode<Shape, BV, NarrowPhaseSolver>
   S bound = bound1 + bound2;
 
   S cur_delta_t;
-  if(bound <= d) cur_delta_t = 1;
+  // closest points that coincide give no direction to advance along
+  if(d <= 1e-6) cur_delta_t = 0;
+  else if(bound <= d) cur_delta_t = 1;
   else cur_delta_t = d / bound;
 
   if(cur_delta_t < delta_t)
-- 
2.43.0


From 0e0275d79d2a953df3a299e0208abf37c83414d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:47 +0000
Subject: [PATCH 086/120] fix: the traversal of a shape against a mesh
 descended into the shape for ever

---
 .../distance/shape_bvh_distance_traversal_node-inl.h       | 7 +++++++
 .../traversal/distance/shape_bvh_distance_traversal_node.h | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node-inl.h
index 1478e92..232665e 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node-inl.h
@@ -61,6 +61,13 @@ ShapeBVHDistanceTraversalNode<Shape, BV>::ShapeBVHDistanceTraversalNode()
   query_time_seconds = 0.0;
 }
 
+//==============================================================================
+template<typename Shape, typename BV>
+bool ShapeBVHDistanceTraversalNode<Shape, BV>::firstOverSecond(int, int) const
+{
+  return false;
+}
+
 //==============================================================================
 template<typename Shape, typename BV>
 bool ShapeBVHDistanceTraversalNode<Shape, BV>::isSecondNodeLeaf(int b) const
diff --git a/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node.h b/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node.h
index 53176cf..d12db3c 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node.h
@@ -59,6 +59,9 @@ public:
 
   ShapeBVHDistanceTraversalNode();
 
+  /// @brief The shape has no tree: always extend the second model
+  bool firstOverSecond(int, int) const;
+
   /// @brief Whether the BV node in the second BVH tree is leaf
   bool isSecondNodeLeaf(int b) const;
 
-- 
2.43.0


From 80bc8a51389794b9362275cc7ac889a7208092ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:47 +0000
Subject: [PATCH 087/120] fix: the motion bound of an OBBRSS was zero

---
 .../fcl/math/motion/tbv_motion_bound_visitor-inl.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/fcl/math/motion/tbv_motion_bound_visitor-inl.h b/include/fcl/math/motion/tbv_motion_bound_visitor-inl.h
index 558210b..dd437d1 100644
--- a/include/fcl/math/motion/tbv_motion_bound_visitor-inl.h
+++ b/include/fcl/math/motion/tbv_motion_bound_visitor-inl.h
@@ -41,6 +41,7 @@
 #include "fcl/math/motion/tbv_motion_bound_visitor.h"
 
 #include "fcl/common/unused.h"
+#include "fcl/math/bv/OBBRSS.h"
 
 namespace fcl
 {
@@ -268,6 +269,19 @@ struct TBVMotionBoundVisitorVisitImpl<S, RSS<S>, TranslationMotion<S>>
   }
 };
 
+//==============================================================================
+/// @brief The bound of an OBBRSS is that of its RSS
+template <typename S, typename MotionT>
+struct TBVMotionBoundVisitorVisitImpl<S, OBBRSS<S>, MotionT>
+{
+  static S run(
+      const TBVMotionBoundVisitor<OBBRSS<S>>& visitor,
+      const MotionT& motion)
+  {
+    return TBVMotionBoundVisitor<RSS<S>>(visitor.bv.rss, visitor.n).visit(motion);
+  }
+};
+
 } // namespace fcl
 
 #endif
-- 
2.43.0


From b1db5e704e0ba49144e9aea64e62649ddbfa2b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:47 +0000
Subject: [PATCH 088/120] fix: conservative advancement of a mesh and a shape
 mixed up the frames of the volumes

---
 ...servative_advancement_traversal_node-inl.h |  2 +-
 ...servative_advancement_traversal_node-inl.h | 34 ++++++++++++++++---
 ...servative_advancement_traversal_node-inl.h | 18 +++++++---
 3 files changed, 45 insertions(+), 9 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node-inl.h
index c816212..6a4b736 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node-inl.h
@@ -496,7 +496,7 @@ struct GetBVAxisImpl<S, OBBRSS<S>>
 {
   const Vector3<S> operator()(const OBBRSS<S>& bv, int i)
   {
-    return bv.obb.axis.col(i);
+    return bv.rss.axis.col(i);
   }
 };
 
diff --git a/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node-inl.h
index 6397a00..d6f1510 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node-inl.h
@@ -39,6 +39,7 @@
 #define FCL_TRAVERSAL_MESHSHAPECONSERVATIVEADVANCEMENTTRAVERSALNODE_INL_H
 
 #include "fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node.h"
+#include "fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node.h"
 
 #include "fcl/common/unused.h"
 
@@ -306,10 +307,24 @@ bool meshShapeConservativeAdvancementOrientedNodeCanStop(
 
   if((c >= w * (min_distance - abs_err)) && (c * (1 + rel_err) >= w * min_distance))
   {
-    const auto& data = stack.back();
-    Vector3<S> n = data.P2 - data.P1; n.normalize();
+    auto data = stack.back();
+    if(data.d > c)
+    {
+      data = stack[stack.size() - 2];
+      stack[stack.size() - 2] = stack[stack.size() - 1];
+    }
     int c1 = data.c1;
 
+    // the points are in the local frame of c1, so we need to turn n into the global frame
+    Vector3<S> n =
+      getBVAxis(model1->getBV(c1).bv, 0) * (data.P2 - data.P1)[0] +
+      getBVAxis(model1->getBV(c1).bv, 1) * (data.P2 - data.P1)[1] +
+      getBVAxis(model1->getBV(c1).bv, 2) * (data.P2 - data.P1)[2];
+    Quaternion<S> R0;
+    motion1->getCurrentRotation(R0);
+    n = R0 * n;
+    n.normalize();
+
     TBVMotionBoundVisitor<BV> mb_visitor1(model1->getBV(c1).bv, n);
     TBVMotionBoundVisitor<BV> mb_visitor2(model2_bv, -n);
 
@@ -331,6 +346,9 @@ bool meshShapeConservativeAdvancementOrientedNodeCanStop(
   }
   else
   {
+    if(stack.back().d > c)
+      stack[stack.size() - 2] = stack[stack.size() - 1];
+
     stack.pop_back();
     return false;
   }
@@ -354,7 +372,8 @@ BVTesting(int b1, int b2) const
 {
   if(this->enable_statistics) this->num_bv_tests++;
   Vector3<S> P1, P2;
-  S d = distance(this->tf1.linear(), this->tf1.translation(), this->model1->getBV(b1).bv, this->model2_bv, &P1, &P2);
+  const Transform3<S> tf = this->tf1.inverse(Eigen::Isometry) * this->tf2;
+  S d = distance(tf.linear(), tf.translation(), this->model1->getBV(b1).bv, this->model2_bv, &P1, &P2);
 
   this->stack.emplace_back(P1, P2, b1, b2, d);
 
@@ -429,6 +448,9 @@ bool initialize(
   node.tf2 = tf2;
   node.nsolver = nsolver;
 
+  node.vertices = model1.vertices;
+  node.tri_indices = model1.tri_indices;
+
   node.w = w;
 
   computeBV(model2, Transform3<S>::Identity(), node.model2_bv);
@@ -455,7 +477,8 @@ BVTesting(int b1, int b2) const
 {
   if(this->enable_statistics) this->num_bv_tests++;
   Vector3<S> P1, P2;
-  S d = distance(this->tf1.linear(), this->tf1.translation(), this->model1->getBV(b1).bv, this->model2_bv, &P1, &P2);
+  const Transform3<S> tf = this->tf1.inverse(Eigen::Isometry) * this->tf2;
+  S d = distance(tf.linear(), tf.translation(), this->model1->getBV(b1).bv, this->model2_bv, &P1, &P2);
 
   this->stack.emplace_back(P1, P2, b1, b2, d);
 
@@ -530,6 +553,9 @@ bool initialize(
   node.tf2 = tf2;
   node.nsolver = nsolver;
 
+  node.vertices = model1.vertices;
+  node.tri_indices = model1.tri_indices;
+
   node.w = w;
 
   computeBV(model2, Transform3<S>::Identity(), node.model2_bv);
diff --git a/include/fcl/narrowphase/detail/traversal/distance/shape_mesh_conservative_advancement_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/distance/shape_mesh_conservative_advancement_traversal_node-inl.h
index 4531bbe..80e8876 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/shape_mesh_conservative_advancement_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/shape_mesh_conservative_advancement_traversal_node-inl.h
@@ -233,9 +233,11 @@ BVTesting(int b1, int b2) const
 
   if(this->enable_statistics) this->num_bv_tests++;
   Vector3<S> P1, P2;
-  S d = distance(this->tf2.linear(), this->tf2.translation(), this->model2->getBV(b2).bv, this->model1_bv, &P2, &P1);
+  const Transform3<S> tf = this->tf2.inverse(Eigen::Isometry) * this->tf1;
+  S d = distance(tf.linear(), tf.translation(), this->model2->getBV(b2).bv, this->model1_bv, &P2, &P1);
 
-  this->stack.emplace_back(P1, P2, b1, b2, d);
+  // the mesh first, as in leafTesting() and canStop()
+  this->stack.emplace_back(P2, P1, b2, b1, d);
 
   return d;
 }
@@ -306,6 +308,9 @@ bool initialize(
   node.tf2 = tf2;
   node.nsolver = nsolver;
 
+  node.vertices = model2.vertices;
+  node.tri_indices = model2.tri_indices;
+
   node.w = w;
 
   computeBV(model1, Transform3<S>::Identity(), node.model1_bv);
@@ -333,9 +338,11 @@ BVTesting(int b1, int b2) const
 
   if(this->enable_statistics) this->num_bv_tests++;
   Vector3<S> P1, P2;
-  S d = distance(this->tf2.linear(), this->tf2.translation(), this->model2->getBV(b2).bv, this->model1_bv, &P2, &P1);
+  const Transform3<S> tf = this->tf2.inverse(Eigen::Isometry) * this->tf1;
+  S d = distance(tf.linear(), tf.translation(), this->model2->getBV(b2).bv, this->model1_bv, &P2, &P1);
 
-  this->stack.emplace_back(P1, P2, b1, b2, d);
+  // the mesh first, as in leafTesting() and canStop()
+  this->stack.emplace_back(P2, P1, b2, b1, d);
 
   return d;
 }
@@ -406,6 +413,9 @@ bool initialize(
   node.tf2 = tf2;
   node.nsolver = nsolver;
 
+  node.vertices = model2.vertices;
+  node.tri_indices = model2.tri_indices;
+
   node.w = w;
 
   computeBV(model1, Transform3<S>::Identity(), node.model1_bv);
-- 
2.43.0


From 05adc0f9a70f5fe04be5ffe681e29a2d245fd9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:47 +0000
Subject: [PATCH 089/120] fix: conservative advancement of meshes moved moved
 vertices again and had no motion bounds for the volumes

---
 ...conservative_advancement_func_matrix-inl.h | 276 +++++-------------
 1 file changed, 68 insertions(+), 208 deletions(-)

diff --git a/include/fcl/narrowphase/detail/conservative_advancement_func_matrix-inl.h b/include/fcl/narrowphase/detail/conservative_advancement_func_matrix-inl.h
index e9af921..c222b7e 100644
--- a/include/fcl/narrowphase/detail/conservative_advancement_func_matrix-inl.h
+++ b/include/fcl/narrowphase/detail/conservative_advancement_func_matrix-inl.h
@@ -71,79 +71,28 @@ namespace detail
 {
 
 //==============================================================================
-template<typename BV>
-bool conservativeAdvancement(const BVHModel<BV>& o1,
-                             const MotionBase<typename BV::S>* motion1,
-                             const BVHModel<BV>& o2,
-                             const MotionBase<typename BV::S>* motion2,
-                             const CollisionRequest<typename BV::S>& request,
-                             CollisionResult<typename BV::S>& result,
-                             typename BV::S& toc)
+/// @brief The motion bounds need RSS volumes: a model with other volumes is
+/// copied into tmp
+template <typename BV>
+const BVHModel<OBBRSS<typename BV::S>>& getOBBRSSModel(
+    const BVHModel<BV>& model, BVHModel<OBBRSS<typename BV::S>>& tmp)
 {
   using S = typename BV::S;
 
-  Transform3<S> tf1;
-  Transform3<S> tf2;
-  motion1->getCurrentTransform(tf1);
-  motion2->getCurrentTransform(tf2);
-
-  // whether the first start configuration is in collision
-  if(collide(&o1, tf1, &o2, tf2, request, result))
-  {
-    toc = 0;
-    return true;
-  }
-
-
-  BVHModel<BV>* o1_tmp = new BVHModel<BV>(o1);
-  BVHModel<BV>* o2_tmp = new BVHModel<BV>(o2);
-
-
-  MeshConservativeAdvancementTraversalNode<BV> node;
+  tmp.beginModel(model.num_tris, model.num_vertices);
+  tmp.addSubModel(
+        std::vector<Vector3<S>>(model.vertices, model.vertices + model.num_vertices),
+        std::vector<Triangle>(model.tri_indices, model.tri_indices + model.num_tris));
+  tmp.endModel();
 
-  node.motion1 = motion1;
-  node.motion2 = motion2;
-
-  do
-  {
-    // repeatedly update mesh to global coordinate, so time consuming
-    initialize(node, *o1_tmp, tf1, *o2_tmp, tf2);
-
-    node.delta_t = 1;
-    node.min_distance = std::numeric_limits<S>::max();
-
-    distanceRecurse<S>(&node, 0, 0, nullptr);
-
-    if(node.delta_t <= node.t_err)
-    {
-      // std::cout << node.delta_t << " " << node.t_err << std::endl;
-      break;
-    }
-
-    node.toc += node.delta_t;
-    if(node.toc > 1)
-    {
-      node.toc = 1;
-      break;
-    }
-
-    node.motion1->integrate(node.toc);
-    node.motion2->integrate(node.toc);
-
-    motion1->getCurrentTransform(tf1);
-    motion2->getCurrentTransform(tf2);
-  }
-  while(1);
-
-  delete o1_tmp;
-  delete o2_tmp;
-
-  toc = node.toc;
-
-  if(node.toc < 1)
-    return true;
+  return tmp;
+}
 
-  return false;
+template <typename S>
+const BVHModel<OBBRSS<S>>& getOBBRSSModel(
+    const BVHModel<OBBRSS<S>>& model, BVHModel<OBBRSS<S>>& /*tmp*/)
+{
+  return model;
 }
 
 template<typename BV, typename ConservativeAdvancementOrientedNode>
@@ -218,6 +167,23 @@ bool conservativeAdvancementMeshOriented(const BVHModel<BV>& o1,
   return false;
 }
 
+template<typename BV>
+bool conservativeAdvancement(const BVHModel<BV>& o1,
+                             const MotionBase<typename BV::S>* motion1,
+                             const BVHModel<BV>& o2,
+                             const MotionBase<typename BV::S>* motion2,
+                             const CollisionRequest<typename BV::S>& request,
+                             CollisionResult<typename BV::S>& result,
+                             typename BV::S& toc)
+{
+  using S = typename BV::S;
+
+  BVHModel<OBBRSS<S>> tmp1, tmp2;
+
+  return conservativeAdvancementMeshOriented<OBBRSS<S>, MeshConservativeAdvancementTraversalNodeOBBRSS<S>>(
+        getOBBRSSModel(o1, tmp1), motion1, getOBBRSSModel(o2, tmp2), motion2, request, result, toc);
+}
+
 template<typename Shape1, typename Shape2, typename NarrowPhaseSolver>
 bool conservativeAdvancement(const Shape1& o1,
                              const MotionBase<typename Shape1::S>* motion1,
@@ -287,76 +253,6 @@ bool conservativeAdvancement(const Shape1& o1,
   return false;
 }
 
-template<typename BV, typename Shape, typename NarrowPhaseSolver>
-bool conservativeAdvancement(const BVHModel<BV>& o1,
-                             const MotionBase<typename BV::S>* motion1,
-                             const Shape& o2,
-                             const MotionBase<typename BV::S>* motion2,
-                             const NarrowPhaseSolver* nsolver,
-                             const CollisionRequest<typename BV::S>& request,
-                             CollisionResult<typename BV::S>& result,
-                             typename BV::S& toc)
-{
-  using S = typename BV::S;
-
-  Transform3<S> tf1;
-  Transform3<S> tf2;
-  motion1->getCurrentTransform(tf1);
-  motion2->getCurrentTransform(tf2);
-
-  if(collide(&o1, tf1, &o2, tf2, request, result))
-  {
-    toc = 0;
-    return true;
-  }
-
-  BVHModel<BV>* o1_tmp = new BVHModel<BV>(o1);
-
-  MeshShapeConservativeAdvancementTraversalNode<BV, Shape, NarrowPhaseSolver> node;
-
-  node.motion1 = motion1;
-  node.motion2 = motion2;
-
-  do
-  {
-    // initialize update mesh to global coordinate, so time consuming
-    initialize(node, *o1_tmp, tf1, o2, tf2, nsolver);
-
-    node.delta_t = 1;
-    node.min_distance = std::numeric_limits<S>::max();
-
-    distanceRecurse<S>(&node, 0, 0, nullptr);
-
-    if(node.delta_t <= node.t_err)
-    {
-      break;
-    }
-
-    node.toc += node.delta_t;
-    if(node.toc > 1)
-    {
-      node.toc = 1;
-      break;
-    }
-
-    node.motion1->integrate(node.toc);
-    node.motion2->integrate(node.toc);
-
-    motion1->getCurrentTransform(tf1);
-    motion2->getCurrentTransform(tf2);
-  }
-  while(1);
-
-  delete o1_tmp;
-
-  toc = node.toc;
-
-  if(node.toc < 1)
-    return true;
-
-  return false;
-}
-
 template<typename BV, typename Shape, typename NarrowPhaseSolver, typename ConservativeAdvancementOrientedNode>
 bool conservativeAdvancementMeshShapeOriented(const BVHModel<BV>& o1,
                                               const MotionBase<typename BV::S>* motion1,
@@ -425,6 +321,23 @@ bool conservativeAdvancementMeshShapeOriented(const BVHModel<BV>& o1,
   return false;
 }
 
+template<typename BV, typename Shape, typename NarrowPhaseSolver>
+bool conservativeAdvancement(const BVHModel<BV>& o1,
+                             const MotionBase<typename BV::S>* motion1,
+                             const Shape& o2,
+                             const MotionBase<typename BV::S>* motion2,
+                             const NarrowPhaseSolver* nsolver,
+                             const CollisionRequest<typename BV::S>& request,
+                             CollisionResult<typename BV::S>& result,
+                             typename BV::S& toc)
+{
+  using S = typename BV::S;
+
+  BVHModel<OBBRSS<S>> tmp;
+
+  return detail::conservativeAdvancementMeshShapeOriented<OBBRSS<S>, Shape, NarrowPhaseSolver, MeshShapeConservativeAdvancementTraversalNodeOBBRSS<Shape, NarrowPhaseSolver> >(getOBBRSSModel(o1, tmp), motion1, o2, motion2, nsolver, request, result, toc);
+}
+
 template<typename Shape, typename NarrowPhaseSolver>
 bool conservativeAdvancement(const BVHModel<RSS<typename Shape::S>>& o1,
                              const MotionBase<typename Shape::S>* motion1,
@@ -455,76 +368,6 @@ bool conservativeAdvancement(const BVHModel<OBBRSS<typename Shape::S>>& o1,
   return detail::conservativeAdvancementMeshShapeOriented<OBBRSS<S>, Shape, NarrowPhaseSolver, MeshShapeConservativeAdvancementTraversalNodeOBBRSS<Shape, NarrowPhaseSolver> >(o1, motion1, o2, motion2, nsolver, request, result, toc);
 }
 
-template<typename Shape, typename BV, typename NarrowPhaseSolver>
-bool conservativeAdvancement(const Shape& o1,
-                             const MotionBase<typename BV::S>* motion1,
-                             const BVHModel<BV>& o2,
-                             const MotionBase<typename BV::S>* motion2,
-                             const NarrowPhaseSolver* nsolver,
-                             const CollisionRequest<typename BV::S>& request,
-                             CollisionResult<typename BV::S>& result,
-                             typename BV::S& toc)
-{
-  using S = typename BV::S;
-
-  Transform3<S> tf1;
-  Transform3<S> tf2;
-  motion1->getCurrentTransform(tf1);
-  motion2->getCurrentTransform(tf2);
-
-  if(collide(&o1, tf1, &o2, tf2, request, result))
-  {
-    toc = 0;
-    return true;
-  }
-
-  BVHModel<BV>* o2_tmp = new BVHModel<BV>(o2);
-
-  ShapeMeshConservativeAdvancementTraversalNode<Shape, BV, NarrowPhaseSolver> node;
-
-  node.motion1 = motion1;
-  node.motion2 = motion2;
-
-  do
-  {
-    // initialize update mesh to global coordinate, so time consuming
-    initialize(node, o1, tf1, *o2_tmp, tf2, nsolver);
-
-    node.delta_t = 1;
-    node.min_distance = std::numeric_limits<S>::max();
-
-    distanceRecurse(&node, 0, 0, nullptr);
-
-    if(node.delta_t <= node.t_err)
-    {
-      break;
-    }
-
-    node.toc += node.delta_t;
-    if(node.toc > 1)
-    {
-      node.toc = 1;
-      break;
-    }
-
-    node.motion1->integrate(node.toc);
-    node.motion2->integrate(node.toc);
-
-    motion1->getCurrentTransform(tf1);
-    motion2->getCurrentTransform(tf2);
-  }
-  while(1);
-
-  delete o2_tmp;
-
-  toc = node.toc;
-
-  if(node.toc < 1)
-    return true;
-
-  return false;
-}
-
 template<typename Shape, typename BV, typename NarrowPhaseSolver, typename ConservativeAdvancementOrientedNode>
 bool conservativeAdvancementShapeMeshOriented(const Shape& o1,
                                               const MotionBase<typename BV::S>* motion1,
@@ -592,6 +435,23 @@ bool conservativeAdvancementShapeMeshOriented(const Shape& o1,
   return false;
 }
 
+template<typename Shape, typename BV, typename NarrowPhaseSolver>
+bool conservativeAdvancement(const Shape& o1,
+                             const MotionBase<typename BV::S>* motion1,
+                             const BVHModel<BV>& o2,
+                             const MotionBase<typename BV::S>* motion2,
+                             const NarrowPhaseSolver* nsolver,
+                             const CollisionRequest<typename BV::S>& request,
+                             CollisionResult<typename BV::S>& result,
+                             typename BV::S& toc)
+{
+  using S = typename BV::S;
+
+  BVHModel<OBBRSS<S>> tmp;
+
+  return detail::conservativeAdvancementShapeMeshOriented<Shape, OBBRSS<S>, NarrowPhaseSolver, ShapeMeshConservativeAdvancementTraversalNodeOBBRSS<Shape, NarrowPhaseSolver> >(o1, motion1, getOBBRSSModel(o2, tmp), motion2, nsolver, request, result, toc);
+}
+
 //==============================================================================
 template <typename S, typename Shape, typename NarrowPhaseSolver>
 struct ConservativeAdvancementImpl
-- 
2.43.0


From 45899b9c997e37771b2f50c92916814d5433bbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:14 +0000
Subject: [PATCH 090/120] fix: built-in GJK could still repeat the same steps
 when the distance decreased by rounding only

---
 .../detail/convexity_based_algorithm/gjk-inl.h        | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h
index 438a193..1efa9c1 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h
@@ -156,10 +156,16 @@ typename GJK<S>::Status GJK<S>::evaluate(const MinkowskiDiff<S>& shape_, const V
     }
 
     // the distance has to decrease, or else the iteration has converged up to rounding and would only repeat itself
-    if(project_res.sqr_distance >= 0 && project_res.sqr_distance < rl * rl)
+    Vector3<S> next_ray = Vector3<S>::Zero();
+    for(size_t i = 0; i < curr_simplex.rank; ++i)
+    {
+      if(project_res.encode & (1 << i))
+        next_ray += curr_simplex.c[i]->w * project_res.parameterization[i];
+    }
+    if(project_res.sqr_distance >= 0 && (project_res.encode == 15 || next_ray.squaredNorm() < ray.squaredNorm()))
     {
       next_simplex.rank = 0;
-      ray.setZero();
+      ray = next_ray;
       current = next;
       for(size_t i = 0; i < curr_simplex.rank; ++i)
       {
@@ -167,7 +173,6 @@ typename GJK<S>::Status GJK<S>::evaluate(const MinkowskiDiff<S>& shape_, const V
         {
           next_simplex.c[next_simplex.rank] = curr_simplex.c[i];
           next_simplex.p[next_simplex.rank++] = project_res.parameterization[i]; // weights[i];
-          ray += curr_simplex.c[i]->w * project_res.parameterization[i]; // weights[i];
         }
         else
           free_v[nfree++] = curr_simplex.c[i];
-- 
2.43.0


From f3417e26ccd01abac07c56b6d90d11e835a44af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:38 +0000
Subject: [PATCH 091/120] fix: polynomial continuous collision moved the models
 for good, ignored where they start and stopped at any contact

---
 .../narrowphase/continuous_collision-inl.h    | 67 ++++++++++++-------
 1 file changed, 41 insertions(+), 26 deletions(-)

diff --git a/include/fcl/narrowphase/continuous_collision-inl.h b/include/fcl/narrowphase/continuous_collision-inl.h
index 4f5724e..520dd12 100644
--- a/include/fcl/narrowphase/continuous_collision-inl.h
+++ b/include/fcl/narrowphase/continuous_collision-inl.h
@@ -188,38 +188,53 @@ typename BV::S continuousCollideBVHPolynomial(
 
   using S = typename BV::S;
 
-  const BVHModel<BV>* o1__ = static_cast<const BVHModel<BV>*>(o1_);
-  const BVHModel<BV>* o2__ = static_cast<const BVHModel<BV>*>(o2_);
-
-  // ugly, but lets do it now.
-  BVHModel<BV>* o1 = const_cast<BVHModel<BV>*>(o1__);
-  BVHModel<BV>* o2 = const_cast<BVHModel<BV>*>(o2__);
-  std::vector<Vector3<S>> new_v1(o1->num_vertices);
-  std::vector<Vector3<S>> new_v2(o2->num_vertices);
-
-  for(std::size_t i = 0; i < new_v1.size(); ++i)
-    new_v1[i] = o1->vertices[i] + motion1->getVelocity();
-  for(std::size_t i = 0; i < new_v2.size(); ++i)
-    new_v2[i] = o2->vertices[i] + motion2->getVelocity();
-
-  o1->beginUpdateModel();
-  o1->updateSubModel(new_v1);
-  o1->endUpdateModel(true, true);
-
-  o2->beginUpdateModel();
-  o2->updateSubModel(new_v2);
-  o2->endUpdateModel(true, true);
-
-  MeshContinuousCollisionTraversalNode<BV> node;
-  CollisionRequest<S> c_request;
-
   motion1->integrate(0);
   motion2->integrate(0);
   Transform3<S> tf1;
   Transform3<S> tf2;
   motion1->getCurrentTransform(tf1);
   motion2->getCurrentTransform(tf2);
-  if(!initialize<BV>(node, *o1, tf1, *o2, tf2, c_request))
+
+  // the sweep only finds where the surfaces start to touch
+  CollisionRequest<S> c_request;
+  CollisionResult<S> c_result;
+  if(collide(o1_, tf1, o2_, tf2, c_request, c_result))
+  {
+    result.is_collide = true;
+    result.time_of_contact = 0;
+    result.contact_tf1 = tf1;
+    result.contact_tf2 = tf2;
+    return result.time_of_contact;
+  }
+
+  // The sweep is between two frames of the vertices, in the world frame. The
+  // models of the query are left alone.
+  const auto sweep = [](BVHModel<BV>& o, const Transform3<S>& tf, const Vector3<S>& velocity)
+  {
+    std::vector<Vector3<S>> v(o.num_vertices);
+
+    for(std::size_t i = 0; i < v.size(); ++i)
+      v[i] = tf * o.vertices[i];
+    o.beginUpdateModel();
+    o.updateSubModel(v);
+    o.endUpdateModel(true, true);
+
+    for(std::size_t i = 0; i < v.size(); ++i)
+      v[i] += velocity;
+    o.beginUpdateModel();
+    o.updateSubModel(v);
+    o.endUpdateModel(true, true);
+  };
+  BVHModel<BV> o1(*static_cast<const BVHModel<BV>*>(o1_));
+  BVHModel<BV> o2(*static_cast<const BVHModel<BV>*>(o2_));
+  sweep(o1, tf1, motion1->getVelocity());
+  sweep(o2, tf2, motion2->getVelocity());
+
+  MeshContinuousCollisionTraversalNode<BV> node;
+
+  // all contacts are needed to tell the first
+  c_request.num_max_contacts = std::numeric_limits<std::size_t>::max();
+  if(!initialize<BV>(node, o1, tf1, o2, tf2, c_request))
     return -1.0;
 
   collide(&node);
-- 
2.43.0


From 0dd650b74d3b08a8925b3aac03804831274f279e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:50 +0000
Subject: [PATCH 092/120] fix: the boxes of an OBB and a kIOS stayed behind
 when the volume was moved

---
 include/fcl/geometry/shape/utility-inl.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/fcl/geometry/shape/utility-inl.h b/include/fcl/geometry/shape/utility-inl.h
index 911c93e..8a3f39c 100644
--- a/include/fcl/geometry/shape/utility-inl.h
+++ b/include/fcl/geometry/shape/utility-inl.h
@@ -1141,11 +1141,10 @@ void constructBox(const AABB<S>& bv, const Transform3<S>& tf_bv, Box<S>& box, Tr
 template <typename S>
 void constructBox(const OBB<S>& bv, const Transform3<S>& tf_bv, Box<S>& box, Transform3<S>& tf)
 {
-  FCL_UNUSED(tf_bv);
-
   box = Box<S>(bv.extent * 2);
   tf.linear() = bv.axis;
   tf.translation() = bv.To;
+  tf = tf_bv * tf;
 }
 
 //==============================================================================
@@ -1162,11 +1161,10 @@ void constructBox(const OBBRSS<S>& bv, const Transform3<S>& tf_bv, Box<S>& box,
 template <typename S>
 void constructBox(const kIOS<S>& bv, const Transform3<S>& tf_bv, Box<S>& box, Transform3<S>& tf)
 {
-  FCL_UNUSED(tf_bv);
-
   box = Box<S>(bv.obb.extent * 2);
   tf.linear() = bv.obb.axis;
   tf.translation() = bv.obb.To;
+  tf = tf_bv * tf;
 }
 
 //==============================================================================
-- 
2.43.0


From b6a03e6a8406389bf902decc7f06ff03ce40f24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:50 +0000
Subject: [PATCH 093/120] fix: the box of an RSS was centred at the corner of
 its rectangle

---
 include/fcl/geometry/shape/utility-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/geometry/shape/utility-inl.h b/include/fcl/geometry/shape/utility-inl.h
index 8a3f39c..78f8852 100644
--- a/include/fcl/geometry/shape/utility-inl.h
+++ b/include/fcl/geometry/shape/utility-inl.h
@@ -1099,7 +1099,7 @@ void constructBox(const RSS<S>& bv, Box<S>& box, Transform3<S>& tf)
 {
   box = Box<S>(bv.width(), bv.height(), bv.depth());
   tf.linear() = bv.axis;
-  tf.translation() = bv.To;
+  tf.translation() = bv.center();
 }
 
 //==============================================================================
@@ -1173,7 +1173,7 @@ void constructBox(const RSS<S>& bv, const Transform3<S>& tf_bv, Box<S>& box, Tra
 {
   box = Box<S>(bv.width(), bv.height(), bv.depth());
   tf.linear() = bv.axis;
-  tf.translation() = bv.To;
+  tf.translation() = bv.center();
   tf = tf_bv * tf;
 }
 
-- 
2.43.0


From a7256a9da45d44962583a7ae497a0255b4747c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:02 +0000
Subject: [PATCH 094/120] fix: the inertia of a Convex about its centre of mass
 mixed up unit mass and unit density

---
 include/fcl/geometry/shape/convex-inl.h | 10 ++++++++++
 include/fcl/geometry/shape/convex.h     |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/include/fcl/geometry/shape/convex-inl.h b/include/fcl/geometry/shape/convex-inl.h
index ef3dc75..258a331 100644
--- a/include/fcl/geometry/shape/convex-inl.h
+++ b/include/fcl/geometry/shape/convex-inl.h
@@ -161,6 +161,16 @@ Matrix3<S> Convex<S>::computeMomentofInertia() const {
   return m * (6 / vol_times_six);
 }
 
+//==============================================================================
+template <typename S>
+Matrix3<S> Convex<S>::computeMomentofInertiaRelatedToCOM() const {
+  // Unlike those of other geometries, the inertia of a Convex is that of unit
+  // mass rather than of unit density.
+  const Vector3<S> com = computeCOM();
+  return computeMomentofInertia() -
+         (Matrix3<S>::Identity() * com.squaredNorm() - com * com.transpose());
+}
+
 //==============================================================================
 template <typename S>
 Vector3<S> Convex<S>::computeCOM() const {
diff --git a/include/fcl/geometry/shape/convex.h b/include/fcl/geometry/shape/convex.h
index 41f2cca..7d71853 100644
--- a/include/fcl/geometry/shape/convex.h
+++ b/include/fcl/geometry/shape/convex.h
@@ -158,6 +158,9 @@ public:
   // Documentation inherited.
   Matrix3<S> computeMomentofInertia() const override;
 
+  // Documentation inherited.
+  Matrix3<S> computeMomentofInertiaRelatedToCOM() const override;
+
   // Documentation inherited.
   Vector3<S> computeCOM() const override;
 
-- 
2.43.0


From 79846122d4379107f770ffcd269e87cb5cb283e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:54 +0000
Subject: [PATCH 095/120] fix: the edge walk of a Convex stopped on a face that
 is cut into coplanar faces

---
 include/fcl/geometry/shape/convex-inl.h | 33 ++++++++++++++++---------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/include/fcl/geometry/shape/convex-inl.h b/include/fcl/geometry/shape/convex-inl.h
index 258a331..a27a425 100644
--- a/include/fcl/geometry/shape/convex-inl.h
+++ b/include/fcl/geometry/shape/convex-inl.h
@@ -286,10 +286,19 @@ const Vector3<S>& Convex<S>::findExtremeVertex(const Vector3<S>& v_C) const {
   S extreme_value = v_C.dot(vertices[extreme_index]);
 
   if (find_extreme_via_neighbors_) {
-    bool keep_searching = true;
-    while (keep_searching) {
-      keep_searching = false;
-      const int neighbor_start = neighbors_[extreme_index];
+    // Vertices that share the extreme value found so far (e.g., the vertices of
+    // a face, cut into several coplanar faces, which is perpendicular to v_C)
+    // and whose neighbors have not been examined yet. As the values are rounded,
+    // values this close to each other are considered to be equal.
+    std::vector<int> to_examine{extreme_index};
+    visited[extreme_index] = 1;
+    while (!to_examine.empty()) {
+      const int current_index = to_examine.back();
+      to_examine.pop_back();
+      const S slack =
+          8 * std::numeric_limits<S>::epsilon() *
+          v_C.cwiseAbs().dot(vertices[current_index].cwiseAbs());
+      const int neighbor_start = neighbors_[current_index];
       const int neighbor_count = neighbors_[neighbor_start];
       for (int n_index = neighbor_start + 1;
            n_index <= neighbor_start + neighbor_count; ++n_index) {
@@ -297,14 +306,14 @@ const Vector3<S>& Convex<S>::findExtremeVertex(const Vector3<S>& v_C) const {
         if (visited[neighbor_index]) continue;
         visited[neighbor_index] = 1;
         const S neighbor_value = v_C.dot(vertices[neighbor_index]);
-        // N.B. Testing >= (instead of >) protects us from the (very rare) case
-        // where the *starting* vertex is co-planar with all of its neighbors
-        // *and* the query direction v_C is perpendicular to that plane. With >
-        // we wouldn't walk away from the start vertex. With >= we will walk
-        // away and continue around (although it won't necessarily be the
-        // fastest walk down).
-        if (neighbor_value >= extreme_value) {
-          keep_searching = true;
+        if (neighbor_value > extreme_value + slack) {
+          // We've left the vertices we might still have to examine behind.
+          to_examine.clear();
+        }
+        if (neighbor_value >= extreme_value - slack) {
+          to_examine.push_back(neighbor_index);
+        }
+        if (neighbor_value > extreme_value) {
           extreme_index = neighbor_index;
           extreme_value = neighbor_value;
         }
-- 
2.43.0


From 8ac90a3068cbfb3cbf0aaab042487a831f5c0021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:30 +0000
Subject: [PATCH 096/120] fix: no cost source was recorded for the known cells
 of an octree against a shape

---
 .../fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
index 9c66696..383a374 100644
--- a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
@@ -413,6 +413,7 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeShapeIntersectRecurse(const OcTree<S
           computeBV(box, box_tf, aabb1);
           computeBV(s, tf2, aabb2);
           aabb1.overlap(aabb2, overlap_part);
+          cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * s.cost_density), crequest->num_max_cost_sources);
         }
 
         return crequest->isSatisfied(*cresult);
@@ -436,6 +437,7 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeShapeIntersectRecurse(const OcTree<S
           computeBV(box, box_tf, aabb1);
           computeBV(s, tf2, aabb2);
           aabb1.overlap(aabb2, overlap_part);
+          cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * s.cost_density), crequest->num_max_cost_sources);
         }
       }
 
-- 
2.43.0


From 287cae7dc5570f5318bcda3ea7cbeca7118b1321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:30 +0000
Subject: [PATCH 097/120] fix: a cost source of endless extent was recorded for
 an octree cell that a shape merely touches

---
 .../traversal/octree/octree_solver-inl.h      | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
index 383a374..33c62e3 100644
--- a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
@@ -349,8 +349,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeShapeIntersectRecurse(const OcTree<S
         AABB<S> aabb1, aabb2;
         computeBV(box, box_tf, aabb1);
         computeBV(s, tf2, aabb2);
-        aabb1.overlap(aabb2, overlap_part);
-        cresult->addCostSource(CostSource<S>(overlap_part, tree1->getOccupancyThres() * s.cost_density), crequest->num_max_cost_sources);
+        if(aabb1.overlap(aabb2, overlap_part))
+          cresult->addCostSource(CostSource<S>(overlap_part, tree1->getOccupancyThres() * s.cost_density), crequest->num_max_cost_sources);
       }
     }
 
@@ -412,8 +412,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeShapeIntersectRecurse(const OcTree<S
           AABB<S> aabb1, aabb2;
           computeBV(box, box_tf, aabb1);
           computeBV(s, tf2, aabb2);
-          aabb1.overlap(aabb2, overlap_part);
-          cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * s.cost_density), crequest->num_max_cost_sources);
+          if(aabb1.overlap(aabb2, overlap_part))
+            cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * s.cost_density), crequest->num_max_cost_sources);
         }
 
         return crequest->isSatisfied(*cresult);
@@ -436,8 +436,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeShapeIntersectRecurse(const OcTree<S
           AABB<S> aabb1, aabb2;
           computeBV(box, box_tf, aabb1);
           computeBV(s, tf2, aabb2);
-          aabb1.overlap(aabb2, overlap_part);
-          cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * s.cost_density), crequest->num_max_cost_sources);
+          if(aabb1.overlap(aabb2, overlap_part))
+            cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * s.cost_density), crequest->num_max_cost_sources);
         }
       }
 
@@ -603,8 +603,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeMeshIntersectRecurse(const OcTree<S>
           AABB<S> aabb1;
           computeBV(box, box_tf, aabb1);
           AABB<S> aabb2(tf2 * p1, tf2 * p2, tf2 * p3);
-          aabb1.overlap(aabb2, overlap_part);
-          cresult->addCostSource(CostSource<S>(overlap_part, tree1->getOccupancyThres() * tree2->cost_density), crequest->num_max_cost_sources);
+          if(aabb1.overlap(aabb2, overlap_part))
+            cresult->addCostSource(CostSource<S>(overlap_part, tree1->getOccupancyThres() * tree2->cost_density), crequest->num_max_cost_sources);
         }
       }
 
@@ -670,8 +670,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeMeshIntersectRecurse(const OcTree<S>
           AABB<S> aabb1;
           computeBV(box, box_tf, aabb1);
           AABB<S> aabb2(tf2 * p1, tf2 * p2, tf2 * p3);
-          aabb1.overlap(aabb2, overlap_part);
-    cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * tree2->cost_density), crequest->num_max_cost_sources);
+          if(aabb1.overlap(aabb2, overlap_part))
+            cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * tree2->cost_density), crequest->num_max_cost_sources);
         }
 
         return crequest->isSatisfied(*cresult);
@@ -702,8 +702,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeMeshIntersectRecurse(const OcTree<S>
           AABB<S> aabb1;
           computeBV(box, box_tf, aabb1);
           AABB<S> aabb2(tf2 * p1, tf2 * p2, tf2 * p3);
-          aabb1.overlap(aabb2, overlap_part);
-    cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * tree2->cost_density), crequest->num_max_cost_sources);
+          if(aabb1.overlap(aabb2, overlap_part))
+            cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * tree2->cost_density), crequest->num_max_cost_sources);
         }
       }
 
@@ -870,8 +870,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeIntersectRecurse(const OcTree<S>* tr
       AABB<S> aabb1, aabb2;
       computeBV(box1, box1_tf, aabb1);
       computeBV(box2, box2_tf, aabb2);
-      aabb1.overlap(aabb2, overlap_part);
-      cresult->addCostSource(CostSource<S>(overlap_part, tree1->getOccupancyThres() * tree2->getOccupancyThres()), crequest->num_max_cost_sources);
+      if(aabb1.overlap(aabb2, overlap_part))
+        cresult->addCostSource(CostSource<S>(overlap_part, tree1->getOccupancyThres() * tree2->getOccupancyThres()), crequest->num_max_cost_sources);
     }
 
     return false;
@@ -1000,8 +1000,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeIntersectRecurse(const OcTree<S>* tr
         AABB<S> aabb1, aabb2;
         computeBV(box1, box1_tf, aabb1);
         computeBV(box2, box2_tf, aabb2);
-        aabb1.overlap(aabb2, overlap_part);
-        cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * root2->getOccupancy()), crequest->num_max_cost_sources);
+        if(aabb1.overlap(aabb2, overlap_part))
+          cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * root2->getOccupancy()), crequest->num_max_cost_sources);
       }
 
       return crequest->isSatisfied(*cresult);
@@ -1023,8 +1023,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeIntersectRecurse(const OcTree<S>* tr
         AABB<S> aabb1, aabb2;
         computeBV(box1, box1_tf, aabb1);
         computeBV(box2, box2_tf, aabb2);
-        aabb1.overlap(aabb2, overlap_part);
-        cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * root2->getOccupancy()), crequest->num_max_cost_sources);
+        if(aabb1.overlap(aabb2, overlap_part))
+          cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * root2->getOccupancy()), crequest->num_max_cost_sources);
       }
 
       return false;
-- 
2.43.0


From 3d8b6adb3402fcf346b5b59816973d18f1910de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:30 +0000
Subject: [PATCH 098/120] fix: collisions of an octree with an axis-aligned
 half space were lost as its box has no finite centre

---
 .../detail/traversal/octree/octree_solver-inl.h           | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
index 33c62e3..b0e571f 100644
--- a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
@@ -190,10 +190,8 @@ void OcTreeSolver<NarrowPhaseSolver>::OcTreeShapeIntersect(
   crequest = &request_;
   cresult = &result_;
 
-  AABB<S> bv2;
-  computeBV(s, Transform3<S>::Identity(), bv2);
   OBB<S> obb2;
-  convertBV(bv2, tf2, obb2);
+  computeBV(s, tf2, obb2);
   OcTreeShapeIntersectRecurse(tree, tree->getRoot(), tree->getRootBV(),
                               s, obb2,
                               tf1, tf2);
@@ -215,10 +213,8 @@ void OcTreeSolver<NarrowPhaseSolver>::ShapeOcTreeIntersect(
   crequest = &request_;
   cresult = &result_;
 
-  AABB<S> bv1;
-  computeBV(s, Transform3<S>::Identity(), bv1);
   OBB<S> obb1;
-  convertBV(bv1, tf1, obb1);
+  computeBV(s, tf1, obb1);
   OcTreeShapeIntersectRecurse(tree, tree->getRoot(), tree->getRootBV(),
                               s, obb1,
                               tf2, tf1);
-- 
2.43.0


From 6552dab3d66f5ae877e834dc5dc389474c94a237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:30 +0000
Subject: [PATCH 099/120] fix: of two cost sources of the same cost that start
 at the same corner one was dropped

---
 include/fcl/narrowphase/cost_source-inl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fcl/narrowphase/cost_source-inl.h b/include/fcl/narrowphase/cost_source-inl.h
index abadfc9..a875f05 100644
--- a/include/fcl/narrowphase/cost_source-inl.h
+++ b/include/fcl/narrowphase/cost_source-inl.h
@@ -99,6 +99,10 @@ bool CostSource<S>::operator <(const CostSource& other) const
     if(aabb_min[i] != other.aabb_min[i])
       return aabb_min[i] < other.aabb_min[i];
 
+  for(size_t i = 0; i < 3; ++i)
+    if(aabb_max[i] != other.aabb_max[i])
+      return aabb_max[i] < other.aabb_max[i];
+
   return false;
 }
 
-- 
2.43.0


From 22ec9f7dab2e9786e03e87376a5828918b2be49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:04 +0000
Subject: [PATCH 100/120] fix: an octree without a root recorded cost sources
 that were not asked for

---
 .../detail/traversal/octree/octree_solver-inl.h        | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
index b0e571f..483fb91 100644
--- a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
@@ -331,6 +331,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeShapeIntersectRecurse(const OcTree<S
 {
   if(!root1)
   {
+    if(!crequest->enable_cost) return false;
+
     OBB<S> obb1;
     convertBV(bv1, tf1, obb1);
     if(obb1.overlap(obb2))
@@ -576,6 +578,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeMeshIntersectRecurse(const OcTree<S>
 {
   if(!root1)
   {
+    if(!crequest->enable_cost) return false;
+
     if(tree2->getBV(root2).isLeaf())
     {
       OBB<S> obb1, obb2;
@@ -849,7 +853,11 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeDistanceRecurse(const OcTree<S>* tre
 template <typename NarrowPhaseSolver>
 bool OcTreeSolver<NarrowPhaseSolver>::OcTreeIntersectRecurse(const OcTree<S>* tree1, const typename OcTree<S>::OcTreeNode* root1, const AABB<S>& bv1, const OcTree<S>* tree2, const typename OcTree<S>::OcTreeNode* root2, const AABB<S>& bv2, const Transform3<S>& tf1, const Transform3<S>& tf2) const
 {
-  if(!root1 && !root2)
+  if((!root1 || !root2) && !crequest->enable_cost)
+  {
+    return false;
+  }
+  else if(!root1 && !root2)
   {
     OBB<S> obb1, obb2;
     convertBV(bv1, tf1, obb1);
-- 
2.43.0


From ff60ecd444e24f555ab7cf94b190d6f93488f584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:45 +0000
Subject: [PATCH 101/120] fix: the distance to an octree without a root crashed

---
 .../detail/traversal/octree/octree_solver-inl.h          | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
index 483fb91..7cb9f38 100644
--- a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
@@ -271,6 +271,9 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeShapeDistanceRecurse(const OcTree<S>
                                 const Shape& s, const AABB<S>& aabb2,
                                 const Transform3<S>& tf1, const Transform3<S>& tf2) const
 {
+  // an octree without a single known node
+  if(!root1) return false;
+
   if(!tree1->nodeHasChildren(root1))
   {
     if(tree1->isNodeOccupied(root1))
@@ -488,6 +491,9 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeMeshDistanceRecurse(const OcTree<S>*
                                const BVHModel<BV>* tree2, int root2,
                                const Transform3<S>& tf1, const Transform3<S>& tf2) const
 {
+  // an octree without a single known node
+  if(!root1) return false;
+
   if(!tree1->nodeHasChildren(root1) && tree2->getBV(root2).isLeaf())
   {
     if(tree1->isNodeOccupied(root1))
@@ -766,6 +772,9 @@ else if(!tree2->isFree() && crequest->enable_cost)
 template <typename NarrowPhaseSolver>
 bool OcTreeSolver<NarrowPhaseSolver>::OcTreeDistanceRecurse(const OcTree<S>* tree1, const typename OcTree<S>::OcTreeNode* root1, const AABB<S>& bv1, const OcTree<S>* tree2, const typename OcTree<S>::OcTreeNode* root2, const AABB<S>& bv2, const Transform3<S>& tf1, const Transform3<S>& tf2) const
 {
+  // an octree without a single known node
+  if(!root1 || !root2) return false;
+
   if(!tree1->nodeHasChildren(root1) && !tree2->nodeHasChildren(root2))
   {
     if(tree1->isNodeOccupied(root1) && tree2->isNodeOccupied(root2))
-- 
2.43.0


From 2eb62373014993284c1d44dba89d42c41f6eb2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:54 +0000
Subject: [PATCH 102/120] fix: a free object in an octree without a root
 recorded cost sources

---
 .../narrowphase/detail/traversal/octree/octree_solver-inl.h   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
index 7cb9f38..0eed76a 100644
--- a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
@@ -334,7 +334,7 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeShapeIntersectRecurse(const OcTree<S
 {
   if(!root1)
   {
-    if(!crequest->enable_cost) return false;
+    if(s.isFree() || !crequest->enable_cost) return false;
 
     OBB<S> obb1;
     convertBV(bv1, tf1, obb1);
@@ -584,7 +584,7 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeMeshIntersectRecurse(const OcTree<S>
 {
   if(!root1)
   {
-    if(!crequest->enable_cost) return false;
+    if(tree2->isFree() || !crequest->enable_cost) return false;
 
     if(tree2->getBV(root2).isLeaf())
     {
-- 
2.43.0


From 0a8ae39d7c734b40749ce280f695d29c7e5897fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:24 +0000
Subject: [PATCH 103/120] fix: a cost source was recorded for a free shape
 against a mesh with oriented volumes

---
 .../collision/mesh_shape_collision_traversal_node-inl.h         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h
index d24b467..573ab57 100644
--- a/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h
@@ -253,7 +253,7 @@ void meshShapeCollisionOrientedNodeLeafTesting(
       result.addCostSource(CostSource<S>(overlap_part, cost_density), request.num_max_cost_sources);
     }
   }
-  else if((!model1->isFree() || model2.isFree()) && request.enable_cost)
+  else if((!model1->isFree() && !model2.isFree()) && request.enable_cost)
   {
     if(nsolver->shapeTriangleIntersect(model2, tf2, p1, p2, p3, tf1, nullptr, nullptr, nullptr))
     {
-- 
2.43.0


From 179310f5c977ebb706028b92bf398d3367bb7cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:56 +0000
Subject: [PATCH 104/120] fix: collision and distance queries crashed on models
 without triangles

---
 .../detail/collision_func_matrix-inl.h        | 40 +++++++++----------
 .../detail/distance_func_matrix-inl.h         | 24 +++++------
 ...mesh_octree_collision_traversal_node-inl.h |  3 ++
 ...octree_mesh_collision_traversal_node-inl.h |  3 ++
 .../mesh_octree_distance_traversal_node-inl.h |  3 ++
 .../octree_mesh_distance_traversal_node-inl.h |  3 ++
 6 files changed, 44 insertions(+), 32 deletions(-)

diff --git a/include/fcl/narrowphase/detail/collision_func_matrix-inl.h b/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
index 2135bcb..e577b08 100644
--- a/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
+++ b/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
@@ -191,8 +191,8 @@ std::size_t OcTreeBVHCollide(
     const BVHModel<BV>* obj2 = static_cast<const BVHModel<BV>*>(o2);
     OcTreeSolver<NarrowPhaseSolver> otsolver(nsolver);
 
-    initialize(node, *obj1, tf1, *obj2, tf2, &otsolver, no_cost_request, result);
-    collide(&node);
+    if(initialize(node, *obj1, tf1, *obj2, tf2, &otsolver, no_cost_request, result))
+      collide(&node);
 
     Box<S> box;
     Transform3<S> box_tf;
@@ -212,8 +212,8 @@ std::size_t OcTreeBVHCollide(
     const BVHModel<BV>* obj2 = static_cast<const BVHModel<BV>*>(o2);
     OcTreeSolver<NarrowPhaseSolver> otsolver(nsolver);
 
-    initialize(node, *obj1, tf1, *obj2, tf2, &otsolver, request, result);
-    collide(&node);
+    if(initialize(node, *obj1, tf1, *obj2, tf2, &otsolver, request, result))
+      collide(&node);
   }
 
   return result.numContacts();
@@ -244,8 +244,8 @@ std::size_t BVHOcTreeCollide(
     const OcTree<S>* obj2 = static_cast<const OcTree<S>*>(o2);
     OcTreeSolver<NarrowPhaseSolver> otsolver(nsolver);
 
-    initialize(node, *obj1, tf1, *obj2, tf2, &otsolver, no_cost_request, result);
-    collide(&node);
+    if(initialize(node, *obj1, tf1, *obj2, tf2, &otsolver, no_cost_request, result))
+      collide(&node);
 
     Box<S> box;
     Transform3<S> box_tf;
@@ -265,8 +265,8 @@ std::size_t BVHOcTreeCollide(
     const OcTree<S>* obj2 = static_cast<const OcTree<S>*>(o2);
     OcTreeSolver<NarrowPhaseSolver> otsolver(nsolver);
 
-    initialize(node, *obj1, tf1, *obj2, tf2, &otsolver, request, result);
-    collide(&node);
+    if(initialize(node, *obj1, tf1, *obj2, tf2, &otsolver, request, result))
+      collide(&node);
   }
 
   return result.numContacts();
@@ -338,8 +338,8 @@ struct BVHShapeCollider
       Transform3<S> tf1_tmp = tf1;
       const Shape* obj2 = static_cast<const Shape*>(o2);
 
-      initialize(node, *obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, no_cost_request, result);
-      fcl::detail::collide(&node);
+      if(initialize(node, *obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, no_cost_request, result))
+        fcl::detail::collide(&node);
 
       result.replaceGeometry(obj1_tmp, obj1);
       delete obj1_tmp;
@@ -363,8 +363,8 @@ struct BVHShapeCollider
       Transform3<S> tf1_tmp = tf1;
       const Shape* obj2 = static_cast<const Shape*>(o2);
 
-      initialize(node, *obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, request, result);
-      fcl::detail::collide(&node);
+      if(initialize(node, *obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, request, result))
+        fcl::detail::collide(&node);
 
       result.replaceGeometry(obj1_tmp, obj1);
       delete obj1_tmp;
@@ -399,8 +399,8 @@ std::size_t orientedBVHShapeCollide(
     const BVHModel<BV>* obj1 = static_cast<const BVHModel<BV>* >(o1);
     const Shape* obj2 = static_cast<const Shape*>(o2);
 
-    initialize(node, *obj1, tf1, *obj2, tf2, nsolver, no_cost_request, result);
-    fcl::detail::collide(&node);
+    if(initialize(node, *obj1, tf1, *obj2, tf2, nsolver, no_cost_request, result))
+      fcl::detail::collide(&node);
 
     Box<S> box;
     Transform3<S> box_tf;
@@ -419,8 +419,8 @@ std::size_t orientedBVHShapeCollide(
     const BVHModel<BV>* obj1 = static_cast<const BVHModel<BV>* >(o1);
     const Shape* obj2 = static_cast<const Shape*>(o2);
 
-    initialize(node, *obj1, tf1, *obj2, tf2, nsolver, request, result);
-    fcl::detail::collide(&node);
+    if(initialize(node, *obj1, tf1, *obj2, tf2, nsolver, request, result))
+      fcl::detail::collide(&node);
   }
 
   return result.numContacts();
@@ -545,8 +545,8 @@ struct BVHCollideImpl
     BVHModel<BV>* obj2_tmp = new BVHModel<BV>(*obj2);
     Transform3<S> tf2_tmp = tf2;
 
-    initialize(node, *obj1_tmp, tf1_tmp, *obj2_tmp, tf2_tmp, request, result);
-    collide(&node);
+    if(initialize(node, *obj1_tmp, tf1_tmp, *obj2_tmp, tf2_tmp, request, result))
+      collide(&node);
 
     result.replaceGeometry(obj1_tmp, obj1);
     result.replaceGeometry(obj2_tmp, obj2);
@@ -587,8 +587,8 @@ std::size_t orientedMeshCollide(
   const BVHModel<BV>* obj1 = static_cast<const BVHModel<BV>* >(o1);
   const BVHModel<BV>* obj2 = static_cast<const BVHModel<BV>* >(o2);
 
-  initialize(node, *obj1, tf1, *obj2, tf2, request, result);
-  collide(&node);
+  if(initialize(node, *obj1, tf1, *obj2, tf2, request, result))
+    collide(&node);
 
   return result.numContacts();
 }
diff --git a/include/fcl/narrowphase/detail/distance_func_matrix-inl.h b/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
index a609d38..1331044 100644
--- a/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
+++ b/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
@@ -172,8 +172,8 @@ typename BV::S BVHOcTreeDistance(
   const OcTree<S>* obj2 = static_cast<const OcTree<S>*>(o2);
   OcTreeSolver<NarrowPhaseSolver> otsolver(nsolver);
 
-  initialize(node, *obj1, tf1, *obj2, tf2, &otsolver, request, result);
-  distance(&node);
+  if(initialize(node, *obj1, tf1, *obj2, tf2, &otsolver, request, result))
+    distance(&node);
 
   return result.min_distance;
 }
@@ -196,8 +196,8 @@ typename BV::S OcTreeBVHDistance(
   const BVHModel<BV>* obj2 = static_cast<const BVHModel<BV>*>(o2);
   OcTreeSolver<NarrowPhaseSolver> otsolver(nsolver);
 
-  initialize(node, *obj1, tf1, *obj2, tf2, &otsolver, request, result);
-  distance(&node);
+  if(initialize(node, *obj1, tf1, *obj2, tf2, &otsolver, request, result))
+    distance(&node);
 
   return result.min_distance;
 }
@@ -246,8 +246,8 @@ struct BVHShapeDistancer
     Transform3<S> tf1_tmp = tf1;
     const Shape* obj2 = static_cast<const Shape*>(o2);
 
-    initialize(node, *obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, request, result);
-    ::fcl::distance(&node);
+    if(initialize(node, *obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, request, result))
+      ::fcl::distance(&node);
 
     if(result.o1 == obj1_tmp) result.o1 = obj1;
     delete obj1_tmp;
@@ -271,8 +271,8 @@ typename Shape::S orientedBVHShapeDistance(
   const BVHModel<BV>* obj1 = static_cast<const BVHModel<BV>* >(o1);
   const Shape* obj2 = static_cast<const Shape*>(o2);
 
-  initialize(node, *obj1, tf1, *obj2, tf2, nsolver, request, result);
-  distance(&node);
+  if(initialize(node, *obj1, tf1, *obj2, tf2, nsolver, request, result))
+    distance(&node);
 
   return result.min_distance;
 }
@@ -361,8 +361,8 @@ struct BVHDistanceImpl
     BVHModel<BV>* obj2_tmp = new BVHModel<BV>(*obj2);
     Transform3<S> tf2_tmp = tf2;
 
-    initialize(node, *obj1_tmp, tf1_tmp, *obj2_tmp, tf2_tmp, request, result);
-    distance(&node);
+    if(initialize(node, *obj1_tmp, tf1_tmp, *obj2_tmp, tf2_tmp, request, result))
+      distance(&node);
     if(result.o1 == obj1_tmp) result.o1 = obj1;
     if(result.o2 == obj2_tmp) result.o2 = obj2;
     delete obj1_tmp;
@@ -400,8 +400,8 @@ typename BV::S orientedMeshDistance(
   const BVHModel<BV>* obj1 = static_cast<const BVHModel<BV>* >(o1);
   const BVHModel<BV>* obj2 = static_cast<const BVHModel<BV>* >(o2);
 
-  initialize(node, *obj1, tf1, *obj2, tf2, request, result);
-  distance(&node);
+  if(initialize(node, *obj1, tf1, *obj2, tf2, request, result))
+    distance(&node);
 
   return result.min_distance;
 }
diff --git a/include/fcl/narrowphase/detail/traversal/octree/collision/mesh_octree_collision_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/octree/collision/mesh_octree_collision_traversal_node-inl.h
index 9602cdc..d570edd 100644
--- a/include/fcl/narrowphase/detail/traversal/octree/collision/mesh_octree_collision_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/octree/collision/mesh_octree_collision_traversal_node-inl.h
@@ -86,6 +86,9 @@ bool initialize(
     const CollisionRequest<typename BV::S>& request,
     CollisionResult<typename BV::S>& result)
 {
+  if(model1.getModelType() != BVH_MODEL_TRIANGLES)
+    return false;
+
   node.request = request;
   node.result = &result;
 
diff --git a/include/fcl/narrowphase/detail/traversal/octree/collision/octree_mesh_collision_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/octree/collision/octree_mesh_collision_traversal_node-inl.h
index c3ddd85..543ba17 100644
--- a/include/fcl/narrowphase/detail/traversal/octree/collision/octree_mesh_collision_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/octree/collision/octree_mesh_collision_traversal_node-inl.h
@@ -86,6 +86,9 @@ bool initialize(
     const CollisionRequest<typename BV::S>& request,
     CollisionResult<typename BV::S>& result)
 {
+  if(model2.getModelType() != BVH_MODEL_TRIANGLES)
+    return false;
+
   node.request = request;
   node.result = &result;
 
diff --git a/include/fcl/narrowphase/detail/traversal/octree/distance/mesh_octree_distance_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/octree/distance/mesh_octree_distance_traversal_node-inl.h
index 456ccd6..62a16f3 100644
--- a/include/fcl/narrowphase/detail/traversal/octree/distance/mesh_octree_distance_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/octree/distance/mesh_octree_distance_traversal_node-inl.h
@@ -86,6 +86,9 @@ bool initialize(
     const DistanceRequest<typename BV::S>& request,
     DistanceResult<typename BV::S>& result)
 {
+  if(model1.getModelType() != BVH_MODEL_TRIANGLES)
+    return false;
+
   node.request = request;
   node.result = &result;
 
diff --git a/include/fcl/narrowphase/detail/traversal/octree/distance/octree_mesh_distance_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/octree/distance/octree_mesh_distance_traversal_node-inl.h
index 56571be..bc2d7e1 100644
--- a/include/fcl/narrowphase/detail/traversal/octree/distance/octree_mesh_distance_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/octree/distance/octree_mesh_distance_traversal_node-inl.h
@@ -86,6 +86,9 @@ bool initialize(
     const DistanceRequest<typename BV::S>& request,
     DistanceResult<typename BV::S>& result)
 {
+  if(model2.getModelType() != BVH_MODEL_TRIANGLES)
+    return false;
+
   node.request = request;
   node.result = &result;
 
-- 
2.43.0


From b617ef296d07899dcdbe94af9b568d14558a2242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:27 +0000
Subject: [PATCH 105/120] fix: an inverted cost source was recorded for
 primitives that touch although their boxes do not

---
 .../mesh_collision_traversal_node-inl.h       | 24 +++++++++----------
 .../mesh_shape_collision_traversal_node-inl.h | 16 ++++++-------
 .../shape_collision_traversal_node-inl.h      |  8 +++----
 .../shape_mesh_collision_traversal_node-inl.h |  8 +++----
 4 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/collision/mesh_collision_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/collision/mesh_collision_traversal_node-inl.h
index 0a2731f..12961d9 100644
--- a/include/fcl/narrowphase/detail/traversal/collision/mesh_collision_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/collision/mesh_collision_traversal_node-inl.h
@@ -184,8 +184,8 @@ void MeshCollisionTraversalNode<BV>::leafTesting(int b1, int b2) const
     if(is_intersect && this->request.enable_cost)
     {
       AABB<S> overlap_part;
-      AABB<S>(p1, p2, p3).overlap(AABB<S>(q1, q2, q3), overlap_part);
-      this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
+      if(AABB<S>(p1, p2, p3).overlap(AABB<S>(q1, q2, q3), overlap_part))
+        this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
     }
   }
   else if((!this->model1->isFree() && !this->model2->isFree()) && this->request.enable_cost)
@@ -193,8 +193,8 @@ void MeshCollisionTraversalNode<BV>::leafTesting(int b1, int b2) const
     if(Intersect<S>::intersect_Triangle(p1, p2, p3, q1, q2, q3))
     {
       AABB<S> overlap_part;
-      AABB<S>(p1, p2, p3).overlap(AABB<S>(q1, q2, q3), overlap_part);
-      this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
+      if(AABB<S>(p1, p2, p3).overlap(AABB<S>(q1, q2, q3), overlap_part))
+        this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
     }
   }
 }
@@ -604,8 +604,8 @@ void meshCollisionOrientedNodeLeafTesting(
     if(is_intersect && request.enable_cost)
     {
       AABB<S> overlap_part;
-      AABB<S>(tf1 * p1, tf1 * p2, tf1 * p3).overlap(AABB<S>(tf2 * q1, tf2 * q2, tf2 * q3), overlap_part);
-      result.addCostSource(CostSource<S>(overlap_part, cost_density), request.num_max_cost_sources);
+      if(AABB<S>(tf1 * p1, tf1 * p2, tf1 * p3).overlap(AABB<S>(tf2 * q1, tf2 * q2, tf2 * q3), overlap_part))
+        result.addCostSource(CostSource<S>(overlap_part, cost_density), request.num_max_cost_sources);
     }
   }
   else if((!model1->isFree() && !model2->isFree()) && request.enable_cost)
@@ -613,8 +613,8 @@ void meshCollisionOrientedNodeLeafTesting(
     if(Intersect<S>::intersect_Triangle(p1, p2, p3, q1, q2, q3, R, T))
     {
       AABB<S> overlap_part;
-      AABB<S>(tf1 * p1, tf1 * p2, tf1 * p3).overlap(AABB<S>(tf2 * q1, tf2 * q2, tf2 * q3), overlap_part);
-      result.addCostSource(CostSource<S>(overlap_part, cost_density), request.num_max_cost_sources);
+      if(AABB<S>(tf1 * p1, tf1 * p2, tf1 * p3).overlap(AABB<S>(tf2 * q1, tf2 * q2, tf2 * q3), overlap_part))
+        result.addCostSource(CostSource<S>(overlap_part, cost_density), request.num_max_cost_sources);
     }
   }
 }
@@ -697,8 +697,8 @@ void meshCollisionOrientedNodeLeafTesting(
     if(is_intersect && request.enable_cost)
     {
       AABB<S> overlap_part;
-      AABB<S>(tf1 * p1, tf1 * p2, tf1 * p3).overlap(AABB<S>(tf2 * q1, tf2 * q2, tf2 * q3), overlap_part);
-      result.addCostSource(CostSource<S>(overlap_part, cost_density), request.num_max_cost_sources);
+      if(AABB<S>(tf1 * p1, tf1 * p2, tf1 * p3).overlap(AABB<S>(tf2 * q1, tf2 * q2, tf2 * q3), overlap_part))
+        result.addCostSource(CostSource<S>(overlap_part, cost_density), request.num_max_cost_sources);
     }
   }
   else if((!model1->isFree() && !model2->isFree()) && request.enable_cost)
@@ -706,8 +706,8 @@ void meshCollisionOrientedNodeLeafTesting(
     if(Intersect<S>::intersect_Triangle(p1, p2, p3, q1, q2, q3, tf))
     {
       AABB<S> overlap_part;
-      AABB<S>(tf1 * p1, tf1 * p2, tf1 * p3).overlap(AABB<S>(tf2 * q1, tf2 * q2, tf2 * q3), overlap_part);
-      result.addCostSource(CostSource<S>(overlap_part, cost_density), request.num_max_cost_sources);
+      if(AABB<S>(tf1 * p1, tf1 * p2, tf1 * p3).overlap(AABB<S>(tf2 * q1, tf2 * q2, tf2 * q3), overlap_part))
+        result.addCostSource(CostSource<S>(overlap_part, cost_density), request.num_max_cost_sources);
     }
   }
 }
diff --git a/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h
index 573ab57..f8c4c2d 100644
--- a/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h
@@ -108,8 +108,8 @@ void MeshShapeCollisionTraversalNode<BV, Shape, NarrowPhaseSolver>::leafTesting(
       AABB<S> overlap_part;
       AABB<S> shape_aabb;
       computeBV(*(this->model2), this->tf2, shape_aabb);
-      AABB<S>(p1, p2, p3).overlap(shape_aabb, overlap_part);
-      this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
+      if(AABB<S>(p1, p2, p3).overlap(shape_aabb, overlap_part))
+        this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
     }
   }
   if((!this->model1->isFree() && !this->model2->isFree()) && this->request.enable_cost)
@@ -119,8 +119,8 @@ void MeshShapeCollisionTraversalNode<BV, Shape, NarrowPhaseSolver>::leafTesting(
       AABB<S> overlap_part;
       AABB<S> shape_aabb;
       computeBV(*(this->model2), this->tf2, shape_aabb);
-      AABB<S>(p1, p2, p3).overlap(shape_aabb, overlap_part);
-      this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
+      if(AABB<S>(p1, p2, p3).overlap(shape_aabb, overlap_part))
+        this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
     }
   }
 }
@@ -249,8 +249,8 @@ void meshShapeCollisionOrientedNodeLeafTesting(
       AABB<S> overlap_part;
       AABB<S> shape_aabb;
       computeBV(model2, tf2, shape_aabb);
-      /* bool res = */ AABB<S>(tf1 * p1, tf1 * p2, tf1 * p3).overlap(shape_aabb, overlap_part);
-      result.addCostSource(CostSource<S>(overlap_part, cost_density), request.num_max_cost_sources);
+      if(AABB<S>(tf1 * p1, tf1 * p2, tf1 * p3).overlap(shape_aabb, overlap_part))
+        result.addCostSource(CostSource<S>(overlap_part, cost_density), request.num_max_cost_sources);
     }
   }
   else if((!model1->isFree() && !model2.isFree()) && request.enable_cost)
@@ -260,8 +260,8 @@ void meshShapeCollisionOrientedNodeLeafTesting(
       AABB<S> overlap_part;
       AABB<S> shape_aabb;
       computeBV(model2, tf2, shape_aabb);
-      /* bool res = */ AABB<S>(tf1 * p1, tf1 * p2, tf1 * p3).overlap(shape_aabb, overlap_part);
-      result.addCostSource(CostSource<S>(overlap_part, cost_density), request.num_max_cost_sources);
+      if(AABB<S>(tf1 * p1, tf1 * p2, tf1 * p3).overlap(shape_aabb, overlap_part))
+        result.addCostSource(CostSource<S>(overlap_part, cost_density), request.num_max_cost_sources);
     }
   }
 }
diff --git a/include/fcl/narrowphase/detail/traversal/collision/shape_collision_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/collision/shape_collision_traversal_node-inl.h
index 1044999..c72ddc2 100644
--- a/include/fcl/narrowphase/detail/traversal/collision/shape_collision_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/collision/shape_collision_traversal_node-inl.h
@@ -122,8 +122,8 @@ leafTesting(int, int) const
       computeBV(*model1, this->tf1, aabb1);
       computeBV(*model2, this->tf2, aabb2);
       AABB<S> overlap_part;
-      aabb1.overlap(aabb2, overlap_part);
-      this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
+      if(aabb1.overlap(aabb2, overlap_part))
+        this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
     }
   }
   else if((!model1->isFree() && !model2->isFree()) && this->request.enable_cost)
@@ -134,8 +134,8 @@ leafTesting(int, int) const
       computeBV(*model1, this->tf1, aabb1);
       computeBV(*model2, this->tf2, aabb2);
       AABB<S> overlap_part;
-      aabb1.overlap(aabb2, overlap_part);
-      this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
+      if(aabb1.overlap(aabb2, overlap_part))
+        this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
     }
   }
 }
diff --git a/include/fcl/narrowphase/detail/traversal/collision/shape_mesh_collision_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/collision/shape_mesh_collision_traversal_node-inl.h
index d4fbdfb..091e182 100644
--- a/include/fcl/narrowphase/detail/traversal/collision/shape_mesh_collision_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/collision/shape_mesh_collision_traversal_node-inl.h
@@ -112,8 +112,8 @@ void ShapeMeshCollisionTraversalNode<Shape, BV, NarrowPhaseSolver>::leafTesting(
       AABB<S> overlap_part;
       AABB<S> shape_aabb;
       computeBV(*(this->model1), this->tf1, shape_aabb);
-      AABB<S>(p1, p2, p3).overlap(shape_aabb, overlap_part);
-      this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
+      if(AABB<S>(p1, p2, p3).overlap(shape_aabb, overlap_part))
+        this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
     }
   }
   else if((!this->model1->isFree() && !this->model2->isFree()) && this->request.enable_cost)
@@ -123,8 +123,8 @@ void ShapeMeshCollisionTraversalNode<Shape, BV, NarrowPhaseSolver>::leafTesting(
       AABB<S> overlap_part;
       AABB<S> shape_aabb;
       computeBV(*(this->model1), this->tf1, shape_aabb);
-      AABB<S>(p1, p2, p3).overlap(shape_aabb, overlap_part);
-      this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
+      if(AABB<S>(p1, p2, p3).overlap(shape_aabb, overlap_part))
+        this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
     }
   }
 }
-- 
2.43.0


From 9c283eb0a3bd2e2b15969e0a1b7808b714dd04be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:24 +0000
Subject: [PATCH 106/120] fix: HierarchyTree::update with a velocity did not
 compile

---
 include/fcl/broadphase/detail/hierarchy_tree-inl.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/fcl/broadphase/detail/hierarchy_tree-inl.h b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
index 5ee1bcd..f4ddba3 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
@@ -174,26 +174,22 @@ template <typename S, typename BV>
 struct UpdateImpl
 {
   static bool run(
-      const HierarchyTree<BV>& tree,
+      HierarchyTree<BV>& tree,
       typename HierarchyTree<BV>::NodeType* leaf,
       const BV& bv,
       const Vector3<S>& /*vel*/,
       S /*margin*/)
   {
-    if(leaf->bv.contain(bv)) return false;
-    tree.update_(leaf, bv);
-    return true;
+    return tree.update(leaf, bv);
   }
 
   static bool run(
-      const HierarchyTree<BV>& tree,
+      HierarchyTree<BV>& tree,
       typename HierarchyTree<BV>::NodeType* leaf,
       const BV& bv,
       const Vector3<S>& /*vel*/)
   {
-    if(leaf->bv.contain(bv)) return false;
-    tree.update_(leaf, bv);
-    return true;
+    return tree.update(leaf, bv);
   }
 };
 
-- 
2.43.0


From 45a72aa295d2cc44fd39145a9bdc3b966f736b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:08 +0000
Subject: [PATCH 107/120] fix: boxes of octree cells got octomap's occupancy
 threshold instead of the one set

---
 include/fcl/geometry/octree/octree-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/geometry/octree/octree-inl.h b/include/fcl/geometry/octree/octree-inl.h
index f50fe81..29b2363 100644
--- a/include/fcl/geometry/octree/octree-inl.h
+++ b/include/fcl/geometry/octree/octree-inl.h
@@ -251,7 +251,7 @@ std::vector<std::array<S, 6>> OcTree<S>::toBoxes() const
       S y = it.getY();
       S z = it.getZ();
       S c = (*it).getOccupancy();
-      S t = tree->getOccupancyThres();
+      S t = getOccupancyThres();
 
       std::array<S, 6> box = {{x, y, z, size, c, t}};
       boxes.push_back(box);
-- 
2.43.0


From dec69957dea8983daf1c0e070172932776134fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:23 +0000
Subject: [PATCH 108/120] fix: unknown cells of an unrotated octree got the
 occupancy threshold as density in DynamicAABBTreeCollisionManager

---
 include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h b/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
index 937347d..bf28118 100644
--- a/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
@@ -198,7 +198,7 @@ bool collisionRecurse_(
           tf2.translation() = translation2;
           constructBox(root2_bv, tf2, *box, box_tf);
 
-          box->cost_density = tree2->getOccupancyThres(); // thresholds are 0, 1, so uncertain
+          box->cost_density = tree2->getDefaultOccupancy();
 
           CollisionObject<S> obj2(std::shared_ptr<CollisionGeometry<S>>(box), box_tf);
           return callback(obj1, &obj2, cdata);
-- 
2.43.0


From 6e73f057b603344a2a747e27649bb55c738cc3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:21 +0000
Subject: [PATCH 109/120] fix: distance of a dynamic AABB tree manager to an
 empty octree crashed

---
 include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h       | 1 +
 include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h b/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
index bf28118..46180d5 100644
--- a/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
@@ -480,6 +480,7 @@ template <typename S>
 FCL_EXPORT
 bool distanceRecurse(typename DynamicAABBTreeCollisionManager<S>::DynamicAABBNode* root1, const OcTree<S>* tree2, const typename OcTree<S>::OcTreeNode* root2, const AABB<S>& root2_bv, const Transform3<S>& tf2, void* cdata, DistanceCallBack<S> callback, S& min_dist)
 {
+  if(!root2) return false; // the octree is empty
   if(tf2.linear().isIdentity())
     return distanceRecurse_(root1, tree2, root2, root2_bv, tf2.translation(), cdata, callback, min_dist);
   else
diff --git a/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h b/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
index b127b8a..ab65cf4 100644
--- a/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
+++ b/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
@@ -715,6 +715,7 @@ template <typename S>
 FCL_EXPORT
 bool distanceRecurse(typename DynamicAABBTreeCollisionManager_Array<S>::DynamicAABBNode* nodes1, size_t root1_id, const OcTree<S>* tree2, const typename OcTree<S>::OcTreeNode* root2, const AABB<S>& root2_bv, const Transform3<S>& tf2, void* cdata, DistanceCallBack<S> callback, S& min_dist)
 {
+  if(!root2) return false; // the octree is empty
   if(tf2.linear().isIdentity())
     return distanceRecurse_(nodes1, root1_id, tree2, root2, root2_bv, tf2.translation(), cdata, callback, min_dist);
   else
-- 
2.43.0


From 94596fc13398781a6efaec8c51f39594d0b2ef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:11 +0000
Subject: [PATCH 110/120] fix: a copy of a BVHModel shared the state of its
 splitter and fitter, so that concurrent queries of one mesh raced

---
 include/fcl/geometry/bvh/BVH_model-inl.h           | 11 +++++++++--
 include/fcl/geometry/bvh/detail/BV_fitter.h        |  6 ++++++
 include/fcl/geometry/bvh/detail/BV_fitter_base.h   |  5 +++++
 include/fcl/geometry/bvh/detail/BV_splitter.h      |  6 ++++++
 include/fcl/geometry/bvh/detail/BV_splitter_base.h |  5 +++++
 5 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index 18ffd2d..9e0ffc0 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -85,12 +85,19 @@ BVHModel<BV>::BVHModel(const BVHModel<BV>& other)
     num_tris(other.num_tris),
     num_vertices(other.num_vertices),
     build_state(other.build_state),
-    bv_splitter(other.bv_splitter),
-    bv_fitter(other.bv_fitter),
+    bv_splitter(other.bv_splitter->clone()),
+    bv_fitter(other.bv_fitter->clone()),
     num_tris_allocated(other.num_tris),
     num_vertices_allocated(other.num_vertices),
     num_vertex_updated(other.num_vertex_updated)
 {
+  // The copy gets its own splitter and fitter: collision queries build the tree
+  // of a copy, possibly at the same time in several threads.
+  if(!bv_splitter)
+    bv_splitter = other.bv_splitter;
+  if(!bv_fitter)
+    bv_fitter = other.bv_fitter;
+
   if(other.vertices)
   {
     vertices = new Vector3<S>[num_vertices];
diff --git a/include/fcl/geometry/bvh/detail/BV_fitter.h b/include/fcl/geometry/bvh/detail/BV_fitter.h
index c78c523..a14ba81 100644
--- a/include/fcl/geometry/bvh/detail/BV_fitter.h
+++ b/include/fcl/geometry/bvh/detail/BV_fitter.h
@@ -80,6 +80,12 @@ public:
   /// @brief Clear the geometry primitive data
   void clear();
 
+  /// @brief A fitter of the same kind
+  std::shared_ptr<BVFitterBase<BV>> clone() const
+  {
+    return std::make_shared<BVFitter<BV>>();
+  }
+
 private:
 
   Vector3<S>* vertices;
diff --git a/include/fcl/geometry/bvh/detail/BV_fitter_base.h b/include/fcl/geometry/bvh/detail/BV_fitter_base.h
index 3e10fbb..3f94927 100644
--- a/include/fcl/geometry/bvh/detail/BV_fitter_base.h
+++ b/include/fcl/geometry/bvh/detail/BV_fitter_base.h
@@ -43,6 +43,7 @@
 #include "fcl/math/bv/kIOS.h"
 #include "fcl/math/bv/OBBRSS.h"
 #include <iostream>
+#include <memory>
 
 namespace fcl
 {
@@ -69,6 +70,10 @@ public:
 
   /// @brief clear the temporary data generated.
   virtual void clear() = 0;
+
+  /// @brief A fitter that works the same way but shares no state with this one,
+  /// or nullptr if there is no way to make one
+  virtual std::shared_ptr<BVFitterBase<BV>> clone() const { return nullptr; }
 };
 
 } // namespace detail
diff --git a/include/fcl/geometry/bvh/detail/BV_splitter.h b/include/fcl/geometry/bvh/detail/BV_splitter.h
index 7480f77..25035c1 100644
--- a/include/fcl/geometry/bvh/detail/BV_splitter.h
+++ b/include/fcl/geometry/bvh/detail/BV_splitter.h
@@ -88,6 +88,12 @@ public:
   /// @brief Clear the geometry data set before
   void clear();
 
+  /// @brief A splitter with the same split method
+  std::shared_ptr<BVSplitterBase<BV>> clone() const
+  {
+    return std::make_shared<BVSplitter<BV>>(split_method);
+  }
+
 private:
 
   /// @brief The axis based on which the split decision is made. For most BV,
diff --git a/include/fcl/geometry/bvh/detail/BV_splitter_base.h b/include/fcl/geometry/bvh/detail/BV_splitter_base.h
index 893c2be..81bd64c 100644
--- a/include/fcl/geometry/bvh/detail/BV_splitter_base.h
+++ b/include/fcl/geometry/bvh/detail/BV_splitter_base.h
@@ -42,6 +42,7 @@
 #include "fcl/geometry/bvh/BVH_internal.h"
 #include "fcl/math/bv/kIOS.h"
 #include "fcl/math/bv/OBBRSS.h"
+#include <memory>
 #include <vector>
 #include <iostream>
 
@@ -75,6 +76,10 @@ public:
 
   /// @brief Clear the geometry data set before
   virtual void clear() = 0;
+
+  /// @brief A splitter that follows the same rule but shares no state with this
+  /// one, or nullptr if there is no way to make one
+  virtual std::shared_ptr<BVSplitterBase<BV>> clone() const { return nullptr; }
 };
 
 } // namespace detail
-- 
2.43.0


From f7b5c32711de20720a822eebb059e21061528521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:01 +0000
Subject: [PATCH 111/120] fix: a signed distance with nearest points crashed
 where a mesh or an octree is only touched

---
 include/fcl/narrowphase/distance-inl.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/fcl/narrowphase/distance-inl.h b/include/fcl/narrowphase/distance-inl.h
index 3244631..578cd3d 100644
--- a/include/fcl/narrowphase/distance-inl.h
+++ b/include/fcl/narrowphase/distance-inl.h
@@ -160,7 +160,6 @@ typename NarrowPhaseSolver::S distance(
     CollisionResult<S> collision_result;
 
     collide(o1, tf1, o2, tf2, nsolver, collision_request, collision_result);
-    assert(collision_result.isCollision());
 
     std::size_t index = static_cast<std::size_t>(-1);
     S max_pen_depth = std::numeric_limits<S>::min();
@@ -174,9 +173,14 @@ typename NarrowPhaseSolver::S distance(
       }
     }
     result.min_distance = -max_pen_depth;
-    assert(index != static_cast<std::size_t>(-1));
 
-    if (request.enable_nearest_points)
+    // Where the two just touch, the collision routine may find no contact, or none
+    // of positive depth.
+    if (index == static_cast<std::size_t>(-1) && collision_result.isCollision())
+      index = 0;
+
+    if (request.enable_nearest_points
+        && index != static_cast<std::size_t>(-1))
     {
       const Vector3<S>& pos = collision_result.getContact(index).pos;
       result.nearest_points[0] = pos;
-- 
2.43.0


From 3c072b2acf260803c1f3fa36630c07b5ae2dba19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:33 +0000
Subject: [PATCH 112/120] fix: queries of an interval tree shared one stack, so
 that concurrent const queries of an IntervalTreeCollisionManager raced

---
 .../fcl/broadphase/detail/interval_tree-inl.h | 39 ++++++++-----------
 include/fcl/broadphase/detail/interval_tree.h |  6 ---
 2 files changed, 16 insertions(+), 29 deletions(-)

diff --git a/include/fcl/broadphase/detail/interval_tree-inl.h b/include/fcl/broadphase/detail/interval_tree-inl.h
index 22daa40..ea1d63c 100644
--- a/include/fcl/broadphase/detail/interval_tree-inl.h
+++ b/include/fcl/broadphase/detail/interval_tree-inl.h
@@ -41,6 +41,7 @@
 #include "fcl/broadphase/detail/interval_tree.h"
 
 #include <algorithm>
+#include <vector>
 
 namespace fcl {
 namespace detail {
@@ -64,12 +65,6 @@ IntervalTree<S>::IntervalTree()
   root->key = root->high = root->max_high = std::numeric_limits<double>::max();
   root->red = false;
   root->stored_interval = nullptr;
-
-  /// the following are used for the query function
-  recursion_node_stack_size = 128;
-  recursion_node_stack = (it_recursion_node<S>*)malloc(recursion_node_stack_size*sizeof(it_recursion_node<S>));
-  recursion_node_stack_top = 1;
-  recursion_node_stack[0].start_node = nullptr;
 }
 
 //==============================================================================
@@ -108,7 +103,6 @@ IntervalTree<S>::~IntervalTree()
   }
   delete nil;
   delete root;
-  free(recursion_node_stack);
 }
 
 //==============================================================================
@@ -515,7 +509,9 @@ std::deque<SimpleInterval<S>*> IntervalTree<S>::query(S low, S high)
   IntervalTreeNode<S>* x = root->left;
   bool run = (x != nil);
 
-  current_parent = 0;
+  // the stack belongs to the query: several may run at the same time
+  std::vector<it_recursion_node<S>> recursion_node_stack(1);
+  unsigned int current_parent = 0;
 
   while(run)
   {
@@ -526,29 +522,26 @@ std::deque<SimpleInterval<S>*> IntervalTree<S>::query(S low, S high)
     }
     if(x->left != nil && x->left->max_high >= low)
     {
-      if(recursion_node_stack_top == recursion_node_stack_size)
-      {
-        recursion_node_stack_size *= 2;
-        recursion_node_stack = (it_recursion_node<S> *)realloc(recursion_node_stack, recursion_node_stack_size * sizeof(it_recursion_node<S>));
-        if(recursion_node_stack == nullptr)
-          abort();
-      }
-      recursion_node_stack[recursion_node_stack_top].start_node = x;
-      recursion_node_stack[recursion_node_stack_top].try_right_branch = false;
-      recursion_node_stack[recursion_node_stack_top].parent_index = current_parent;
-      current_parent = recursion_node_stack_top++;
+      it_recursion_node<S> node;
+      node.start_node = x;
+      node.try_right_branch = false;
+      node.parent_index = current_parent;
+      current_parent = recursion_node_stack.size();
+      recursion_node_stack.push_back(node);
       x = x->left;
     }
     else
       x = x->right;
 
     run = (x != nil);
-    while((!run) && (recursion_node_stack_top > 1))
+    while((!run) && (recursion_node_stack.size() > 1))
     {
-      if(recursion_node_stack[--recursion_node_stack_top].try_right_branch)
+      const it_recursion_node<S> node = recursion_node_stack.back();
+      recursion_node_stack.pop_back();
+      if(node.try_right_branch)
       {
-        x=recursion_node_stack[recursion_node_stack_top].start_node->right;
-        current_parent=recursion_node_stack[recursion_node_stack_top].parent_index;
+        x=node.start_node->right;
+        current_parent=node.parent_index;
         recursion_node_stack[current_parent].try_right_branch = true;
         run = (x != nil);
       }
diff --git a/include/fcl/broadphase/detail/interval_tree.h b/include/fcl/broadphase/detail/interval_tree.h
index 6573520..06fca15 100644
--- a/include/fcl/broadphase/detail/interval_tree.h
+++ b/include/fcl/broadphase/detail/interval_tree.h
@@ -123,12 +123,6 @@ protected:
   void fixupMaxHigh(IntervalTreeNode<S>* node);
 
   void deleteFixup(IntervalTreeNode<S>* node);
-
-private:
-  unsigned int recursion_node_stack_size;
-  it_recursion_node<S>* recursion_node_stack;
-  unsigned int current_parent;
-  unsigned int recursion_node_stack_top;
 };
 
 using IntervalTreef = IntervalTree<float>;
-- 
2.43.0


From 2a7c0dc19296eec747217722e00df1adfec97992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:01 +0000
Subject: [PATCH 113/120] fix: the signed distance of meshes and octrees was
 that of any contact rather than the deepest one, was never negative for two
 meshes, was not returned, and overwrote the result of an earlier query

---
 include/fcl/narrowphase/distance-inl.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/fcl/narrowphase/distance-inl.h b/include/fcl/narrowphase/distance-inl.h
index 578cd3d..e9117ab 100644
--- a/include/fcl/narrowphase/distance-inl.h
+++ b/include/fcl/narrowphase/distance-inl.h
@@ -113,6 +113,9 @@ typename NarrowPhaseSolver::S distance(
 
   S res = std::numeric_limits<S>::max();
 
+  // The result may hold the distance of other objects that are in collision already,
+  // which this query then leaves alone.
+  const bool satisfied = request.isSatisfied(result);
 
   if(object_type1 == OT_GEOM && object_type2 == OT_BVH)
   {
@@ -144,8 +147,8 @@ typename NarrowPhaseSolver::S distance(
   // of collision checking routine. The downside of this workaround is that the
   // pair of nearest points is not guaranteed to be on the surface of the
   // objects.
-  if(res
-     && result.min_distance < static_cast<S>(0)
+  if(!satisfied
+     && result.min_distance <= static_cast<S>(0)
      && request.enable_signed_distance)
   {
     if (std::is_same<NarrowPhaseSolver, detail::GJKSolver_libccd<S>>::value
@@ -156,13 +159,14 @@ typename NarrowPhaseSolver::S distance(
 
     CollisionRequest<S> collision_request;
     collision_request.enable_contact = true;
+    collision_request.num_max_contacts = std::numeric_limits<std::size_t>::max();
 
     CollisionResult<S> collision_result;
 
     collide(o1, tf1, o2, tf2, nsolver, collision_request, collision_result);
 
     std::size_t index = static_cast<std::size_t>(-1);
-    S max_pen_depth = std::numeric_limits<S>::min();
+    S max_pen_depth = 0;
     for (auto i = 0u; i < collision_result.numContacts(); ++i)
     {
       const auto& contact = collision_result.getContact(i);
@@ -173,6 +177,7 @@ typename NarrowPhaseSolver::S distance(
       }
     }
     result.min_distance = -max_pen_depth;
+    res = result.min_distance;
 
     // Where the two just touch, the collision routine may find no contact, or none
     // of positive depth.
-- 
2.43.0


From e86bc43a15163a6613bd571b6f1a468e35c3f189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:15 +0000
Subject: [PATCH 114/120] fix: BVHModel::makeParentRelative did not compile,
 and would have put the RSS of an OBBRSS in the place of its OBB

---
 include/fcl/geometry/bvh/BVH_model-inl.h | 32 ++++++++----------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index 9e0ffc0..c9b74fd 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -1114,11 +1114,8 @@ struct MakeParentRelativeRecurseImpl
   {
     if(!model.bvs[bv_id].isLeaf())
     {
-      MakeParentRelativeRecurseImpl<S, BV> tmp1;
-      tmp1(model, model.bvs[bv_id].first_child, parent_axis, model.bvs[bv_id].getCenter());
-
-      MakeParentRelativeRecurseImpl<S, BV> tmp2;
-      tmp2(model, model.bvs[bv_id].first_child + 1, parent_axis, model.bvs[bv_id].getCenter());
+      run(model, model.bvs[bv_id].first_child, parent_axis, model.bvs[bv_id].getCenter());
+      run(model, model.bvs[bv_id].first_child + 1, parent_axis, model.bvs[bv_id].getCenter());
     }
 
     model.bvs[bv_id].bv = translate(model.bvs[bv_id].bv, -parent_c);
@@ -1188,11 +1185,8 @@ struct MakeParentRelativeRecurseImpl<S, OBB<S>>
     OBB<S>& obb = model.bvs[bv_id].bv;
     if(!model.bvs[bv_id].isLeaf())
     {
-      MakeParentRelativeRecurseImpl<S, OBB<S>> tmp1;
-      tmp1(model, model.bvs[bv_id].first_child, obb.axis, obb.To);
-
-      MakeParentRelativeRecurseImpl<S, OBB<S>> tmp2;
-      tmp2(model, model.bvs[bv_id].first_child + 1, obb.axis, obb.To);
+      run(model, model.bvs[bv_id].first_child, obb.axis, obb.To);
+      run(model, model.bvs[bv_id].first_child + 1, obb.axis, obb.To);
     }
 
     // make self parent relative
@@ -1213,11 +1207,8 @@ struct MakeParentRelativeRecurseImpl<S, RSS<S>>
     RSS<S>& rss = model.bvs[bv_id].bv;
     if(!model.bvs[bv_id].isLeaf())
     {
-      MakeParentRelativeRecurseImpl<S, RSS<S>> tmp1;
-      tmp1(model, model.bvs[bv_id].first_child, rss.axis, rss.To);
-
-      MakeParentRelativeRecurseImpl<S, RSS<S>> tmp2;
-      tmp2(model, model.bvs[bv_id].first_child + 1, rss.axis, rss.To);
+      run(model, model.bvs[bv_id].first_child, rss.axis, rss.To);
+      run(model, model.bvs[bv_id].first_child + 1, rss.axis, rss.To);
     }
 
     // make self parent relative
@@ -1239,19 +1230,16 @@ struct MakeParentRelativeRecurseImpl<S, OBBRSS<S>>
     RSS<S>& rss = model.bvs[bv_id].bv.rss;
     if(!model.bvs[bv_id].isLeaf())
     {
-      MakeParentRelativeRecurseImpl<S, RSS<S>> tmp1;
-      tmp1(model, model.bvs[bv_id].first_child, obb.axis, obb.To);
-
-      MakeParentRelativeRecurseImpl<S, RSS<S>> tmp2;
-      tmp2(model, model.bvs[bv_id].first_child + 1, obb.axis, obb.To);
+      run(model, model.bvs[bv_id].first_child, obb.axis, obb.To);
+      run(model, model.bvs[bv_id].first_child + 1, obb.axis, obb.To);
     }
 
     // make self parent relative
     obb.axis = parent_axis.transpose() * obb.axis;
-    rss.axis = obb.axis;
+    rss.axis = parent_axis.transpose() * rss.axis;
 
     obb.To = (obb.To - parent_c).transpose() * parent_axis;
-    rss.To = obb.To;
+    rss.To = (rss.To - parent_c).transpose() * parent_axis;
   }
 };
 
-- 
2.43.0


From a73264a74afa03fe354cce19284d5e5b86064b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:03 +0000
Subject: [PATCH 115/120] fix: a query through a front list visited the pairs
 that it had just added once more and reported their contacts twice

---
 .../narrowphase/detail/traversal/traversal_recurse-inl.h  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/traversal_recurse-inl.h b/include/fcl/narrowphase/detail/traversal/traversal_recurse-inl.h
index 1c46c1c..7dc2adf 100644
--- a/include/fcl/narrowphase/detail/traversal/traversal_recurse-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/traversal_recurse-inl.h
@@ -489,16 +489,16 @@ void propagateBVHFrontListCollisionRecurse(CollisionTraversalNodeBase<S>* node,
           int c1 = node->getFirstLeftChild(b1);
           int c2 = node->getFirstRightChild(b1);
 
-          collisionRecurse(node, c1, b2, front_list);
-          collisionRecurse(node, c2, b2, front_list);
+          collisionRecurse(node, c1, b2, &append);
+          collisionRecurse(node, c2, b2, &append);
         }
         else
         {
           int c1 = node->getSecondLeftChild(b2);
           int c2 = node->getSecondRightChild(b2);
 
-          collisionRecurse(node, b1, c1, front_list);
-          collisionRecurse(node, b1, c2, front_list);
+          collisionRecurse(node, b1, c1, &append);
+          collisionRecurse(node, b1, c2, &append);
         }
       }
     }
-- 
2.43.0


From c64c0a50f1a63f1e17918764c9e3361030661062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:04 +0000
Subject: [PATCH 116/120] fix: the collision of parent-relative OBB trees
 transposed the rotation into the children of the first tree and missed
 contacts

---
 .../fcl/narrowphase/detail/traversal/traversal_recurse-inl.h  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/traversal_recurse-inl.h b/include/fcl/narrowphase/detail/traversal/traversal_recurse-inl.h
index 7dc2adf..647c334 100644
--- a/include/fcl/narrowphase/detail/traversal/traversal_recurse-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/traversal_recurse-inl.h
@@ -161,7 +161,7 @@ void collisionRecurse(MeshCollisionTraversalNodeOBB<S>* node, int b1, int b2, co
 
     const OBB<S>& bv1 = node->model1->getBV(c1).bv;
 
-    Matrix3<S> Rc = R.transpose() * bv1.axis;
+    Matrix3<S> Rc = bv1.axis.transpose() * R;
     temp = T - bv1.To;
     Vector3<S> Tc = temp.transpose() * bv1.axis;
 
@@ -172,7 +172,7 @@ void collisionRecurse(MeshCollisionTraversalNodeOBB<S>* node, int b1, int b2, co
 
     const OBB<S>& bv2 = node->model1->getBV(c2).bv;
 
-    Rc.noalias() = R.transpose() * bv2.axis;
+    Rc.noalias() = bv2.axis.transpose() * R;
     temp = T - bv2.To;
     Tc[0] = bv2.axis.col(0).dot(temp);
     Tc[1] = bv2.axis.col(1).dot(temp);
-- 
2.43.0


From 8b5d89eb6ef78155a7b19de7661b0faf60018e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:15 +0000
Subject: [PATCH 117/120] fix: the number of triangles of a tessellated sphere
 or ellipsoid follows its area

---
 .../fcl/geometry/geometric_shape_to_BVH_model-inl.h  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/fcl/geometry/geometric_shape_to_BVH_model-inl.h b/include/fcl/geometry/geometric_shape_to_BVH_model-inl.h
index 7fe4386..cfaf1b4 100644
--- a/include/fcl/geometry/geometric_shape_to_BVH_model-inl.h
+++ b/include/fcl/geometry/geometric_shape_to_BVH_model-inl.h
@@ -177,9 +177,9 @@ int generateBVHModel(BVHModel<BV>& model, const Sphere<typename BV::S>& shape, c
   using S = typename BV::S;
 
   S r = shape.radius;
-  S n_low_bound = sqrtf(n_faces_for_unit_sphere / 2.0) * r * r;
-  unsigned int ring = ceil(n_low_bound);
-  unsigned int seg = ceil(n_low_bound);
+  S n_low_bound = std::sqrt(n_faces_for_unit_sphere / 2.0) * r;
+  unsigned int ring = std::max<S>(1, std::ceil(n_low_bound));
+  unsigned int seg = std::max<S>(3, std::ceil(n_low_bound));
 
   return generateBVHModel(model, shape, pose, seg, ring, finalize_model);
 }
@@ -264,10 +264,10 @@ int generateBVHModel(BVHModel<BV>& model, const Ellipsoid<typename BV::S>& shape
   const S& cp = std::pow(shape.radii[2], p);
 
   const S ratio = std::pow((ap * bp + bp * cp + cp * ap) / 3.0, 1.0 / p);
-  const S n_low_bound = std::sqrt(n_faces_for_unit_ellipsoid / 2.0) * ratio;
+  const S n_low_bound = std::sqrt(n_faces_for_unit_ellipsoid / 2.0 * ratio);
 
-  const unsigned int ring = std::ceil(n_low_bound);
-  const unsigned int seg = std::ceil(n_low_bound);
+  const unsigned int ring = std::max<S>(1, std::ceil(n_low_bound));
+  const unsigned int seg = std::max<S>(3, std::ceil(n_low_bound));
 
   return generateBVHModel(model, shape, pose, seg, ring, finalize_model);
 }
-- 
2.43.0


From 75c70a76b9b2c703928b1be483928adfa096713d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:15 +0000
Subject: [PATCH 118/120] fix: thin cylinders and cones are tessellated with at
 least three segments

---
 include/fcl/geometry/geometric_shape_to_BVH_model-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/geometry/geometric_shape_to_BVH_model-inl.h b/include/fcl/geometry/geometric_shape_to_BVH_model-inl.h
index cfaf1b4..0461b07 100644
--- a/include/fcl/geometry/geometric_shape_to_BVH_model-inl.h
+++ b/include/fcl/geometry/geometric_shape_to_BVH_model-inl.h
@@ -347,7 +347,7 @@ int generateBVHModel(BVHModel<BV>& model, const Cylinder<typename BV::S>& shape,
   S h = shape.lz;
 
   const S pi = constants<S>::pi();
-  unsigned int circle_split_tot = circle_split_tot_for_unit_cylinder * r;
+  unsigned int circle_split_tot = std::max<S>(3, circle_split_tot_for_unit_cylinder * r);
   S phid = pi * 2 / circle_split_tot;
 
   S circle_edge = phid * r;
@@ -433,7 +433,7 @@ int generateBVHModel(BVHModel<BV>& model, const Cone<typename BV::S>& shape, con
   S h = shape.lz;
 
   const S pi = constants<S>::pi();
-  unsigned int circle_split_tot = circle_split_tot_for_unit_cone * r;
+  unsigned int circle_split_tot = std::max<S>(3, circle_split_tot_for_unit_cone * r);
   S phid = pi * 2 / circle_split_tot;
 
   S circle_edge = phid * r;
-- 
2.43.0


From 252fced275a9d1c755f0bce2146b003edfdeae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:46 +0000
Subject: [PATCH 119/120] fix: BVHExpand expands every node by the vertices it
 really holds

The nodes of a model hold the primitives in the order of its leaves, not in
the order in which they are stored, and the primitives of a mesh are triangles,
not vertices. The general form did not compile because it used private members.
---
 include/fcl/geometry/bvh/BVH_utility-inl.h | 142 ++++++++++-----------
 1 file changed, 64 insertions(+), 78 deletions(-)

diff --git a/include/fcl/geometry/bvh/BVH_utility-inl.h b/include/fcl/geometry/bvh/BVH_utility-inl.h
index 2196ca4..71de663 100644
--- a/include/fcl/geometry/bvh/BVH_utility-inl.h
+++ b/include/fcl/geometry/bvh/BVH_utility-inl.h
@@ -40,6 +40,8 @@
 
 #include "fcl/geometry/bvh/BVH_utility.h"
 
+#include <vector>
+
 #include "fcl/math/bv/utility.h"
 
 namespace fcl
@@ -55,76 +57,89 @@ extern template
 void BVHExpand(
     BVHModel<RSS<double>>& model, const Variance3<double>* ucs, double r);
 
+namespace detail
+{
+
 //==============================================================================
+/// @brief Collect the expanded positions of all the vertices held by the node
+/// \a id. The nodes of a model hold its primitives in the order of the leaves,
+/// which is not the order in which the primitives are stored, and the primitives
+/// are triangles or points according to the type of the model.
 template <typename S, typename BV>
 FCL_EXPORT
-void BVHExpand(BVHModel<BV>& model, const Variance3<S>* ucs, S r)
+void collectExpandedVertices(
+    const BVHModel<BV>& model,
+    int id,
+    const Variance3<S>* ucs,
+    S r,
+    std::vector<Vector3<S>>& vs)
 {
-  for(int i = 0; i < model.num_bvs; ++i)
+  const BVNode<BV>& bvnode = model.getBV(id);
+
+  if(!bvnode.isLeaf())
   {
-    BVNode<BV>& bvnode = model.getBV(i);
+    collectExpandedVertices(model, bvnode.leftChild(), ucs, r, vs);
+    collectExpandedVertices(model, bvnode.rightChild(), ucs, r, vs);
+    return;
+  }
 
-    BV bv;
-    for(int j = 0; j < bvnode.num_primitives; ++j)
-    {
-      int v_id = bvnode.first_primitive + j;
-      const Variance3<S>& uc = ucs[v_id];
+  const bool is_mesh = (model.getModelType() == BVH_MODEL_TRIANGLES);
+  const int primitive_id = bvnode.primitiveId();
 
-      Vector3<S>& v = model.vertices[bvnode.first_primitive + j];
+  for(int j = 0; j < (is_mesh ? 3 : 1); ++j)
+  {
+    const int v_id
+        = is_mesh ? static_cast<int>(model.tri_indices[primitive_id][j])
+                  : primitive_id;
+    const Variance3<S>& uc = ucs[v_id];
+    const Vector3<S>& v = model.vertices[v_id];
 
-      for(int k = 0; k < 3; ++k)
-      {
-        bv += (v + uc.axis.col(k) * (r * uc.sigma[k]));
-        bv += (v - uc.axis.col(k) * (r * uc.sigma[k]));
-      }
+    for(int k = 0; k < 3; ++k)
+    {
+      vs.push_back(v + uc.axis.col(k) * (r * uc.sigma[k]));
+      vs.push_back(v - uc.axis.col(k) * (r * uc.sigma[k]));
     }
-
-    bvnode.bv = bv;
   }
 }
 
 //==============================================================================
-template <typename S>
+template <typename S, typename BV>
 FCL_EXPORT
-void BVHExpand(
-    BVHModel<OBB<S>>& model,
-    const Variance3<S>* ucs,
-    S r)
+void expandBVH(BVHModel<BV>& model, const Variance3<S>* ucs, S r)
 {
+  std::vector<Vector3<S>> vs;
+
   for(int i = 0; i < model.getNumBVs(); ++i)
   {
-    BVNode<OBB<S>>& bvnode = model.getBV(i);
+    vs.clear();
+    collectExpandedVertices(model, i, ucs, r, vs);
 
-    Vector3<S>* vs = new Vector3<S>[bvnode.num_primitives * 6];
-    // TODO(JS): We could use one std::vector outside of the outter for-loop,
-    // and reuse it rather than creating and destructing the array every
-    // iteration.
+    BV bv;
+    fit(vs.data(), static_cast<int>(vs.size()), bv);
 
-    for(int j = 0; j < bvnode.num_primitives; ++j)
-    {
-      int v_id = bvnode.first_primitive + j;
-      const Variance3<S>& uc = ucs[v_id];
-
-      Vector3<S>&v = model.vertices[bvnode.first_primitive + j];
-
-      for(int k = 0; k < 3; ++k)
-      {
-        const auto index1 = 6 * j + 2 * k;
-        const auto index2 = index1 + 1;
-        vs[index1] = v;
-        vs[index1].noalias() += uc.axis.col(k) * (r * uc.sigma[k]);
-        vs[index2] = v;
-        vs[index2].noalias() -= uc.axis.col(k) * (r * uc.sigma[k]);
-      }
-    }
+    model.getBV(i).bv = bv;
+  }
+}
 
-    OBB<S> bv;
-    fit(vs, bvnode.num_primitives * 6, bv);
+} // namespace detail
 
-    delete [] vs;
+//==============================================================================
+template <typename S, typename BV>
+FCL_EXPORT
+void BVHExpand(BVHModel<BV>& model, const Variance3<S>* ucs, S r)
+{
+  detail::expandBVH(model, ucs, r);
+}
 
-    bvnode.bv = bv;
-  }
+//==============================================================================
+template <typename S>
+FCL_EXPORT
+void BVHExpand(
+    BVHModel<OBB<S>>& model,
+    const Variance3<S>* ucs,
+    S r)
+{
+  detail::expandBVH(model, ucs, r);
 }
 
 //==============================================================================
@@ -135,36 +150,7 @@ void BVHExpand(
     const Variance3<S>* ucs,
     S r)
 {
-  for(int i = 0; i < model.getNumBVs(); ++i)
-  {
-    BVNode<RSS<S>>& bvnode = model.getBV(i);
-
-    Vector3<S>* vs = new Vector3<S>[bvnode.num_primitives * 6];
-    // TODO(JS): We could use one std::vector outside of the outter for-loop,
-    // and reuse it rather than creating and destructing the array every
-    // iteration.
-
-    for(int j = 0; j < bvnode.num_primitives; ++j)
-    {
-      int v_id = bvnode.first_primitive + j;
-      const Variance3<S>& uc = ucs[v_id];
-
-      Vector3<S>&v = model.vertices[bvnode.first_primitive + j];
-
-      for(int k = 0; k < 3; ++k)
-      {
-        vs[6 * j + 2 * k] = v + uc.axis.col(k) * (r * uc.sigma[k]);
-        vs[6 * j + 2 * k + 1] = v - uc.axis.col(k) * (r * uc.sigma[k]);
-      }
-    }
-
-    RSS<S> bv;
-    fit(vs, bvnode.num_primitives * 6, bv);
-
-    delete [] vs;
-
-    bvnode.bv = bv;
-  }
+  detail::expandBVH(model, ucs, r);
 }
 
 } // namespace fcl
-- 
2.43.0


From 151c9d763db956efd47a5708437ea61760391737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:22 +0000
Subject: [PATCH 120/120] fix: unregistering an object that was moved left it
 in the SSaP, interval tree and spatial hashing managers

They looked for it at its present box rather than where they had put it, so that
it stayed behind and could be reported after it was destroyed.
---
 include/fcl/broadphase/broadphase_SSaP-inl.h  | 46 ++-------
 .../broadphase/broadphase_interval_tree-inl.h | 94 +++----------------
 .../broadphase/broadphase_spatialhash-inl.h   |  9 +-
 3 files changed, 26 insertions(+), 123 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_SSaP-inl.h b/include/fcl/broadphase/broadphase_SSaP-inl.h
index df0a24c..a03807f 100644
--- a/include/fcl/broadphase/broadphase_SSaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SSaP-inl.h
@@ -40,6 +40,8 @@
 
 #include "fcl/broadphase/broadphase_SSaP.h"
 
+#include <algorithm>
+
 namespace fcl
 {
 
@@ -102,45 +104,13 @@ void SSaPCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
 {
   setup();
 
-  DummyCollisionObject<S> dummyHigh(AABB<S>(obj->getAABB().max_));
-
-  auto pos_start1 = objs_x.begin();
-  auto pos_end1 = std::upper_bound(pos_start1, objs_x.end(), &dummyHigh, SortByXLow<S>());
-
-  while(pos_start1 < pos_end1)
-  {
-    if(*pos_start1 == obj)
-    {
-      objs_x.erase(pos_start1);
-      break;
-    }
-    ++pos_start1;
-  }
-
-  auto pos_start2 = objs_y.begin();
-  auto pos_end2 = std::upper_bound(pos_start2, objs_y.end(), &dummyHigh, SortByYLow<S>());
-
-  while(pos_start2 < pos_end2)
+  // the object may have been moved since it was sorted in, so that its place in
+  // the arrays does not follow from its AABB
+  for(auto* objs : {&objs_x, &objs_y, &objs_z})
   {
-    if(*pos_start2 == obj)
-    {
-      objs_y.erase(pos_start2);
-      break;
-    }
-    ++pos_start2;
-  }
-
-  auto pos_start3 = objs_z.begin();
-  auto pos_end3 = std::upper_bound(pos_start3, objs_z.end(), &dummyHigh, SortByZLow<S>());
-
-  while(pos_start3 < pos_end3)
-  {
-    if(*pos_start3 == obj)
-    {
-      objs_z.erase(pos_start3);
-      break;
-    }
-    ++pos_start3;
+    const auto it = std::find(objs->begin(), objs->end(), obj);
+    if(it != objs->end())
+      objs->erase(it);
   }
 }
 
diff --git a/include/fcl/broadphase/broadphase_interval_tree-inl.h b/include/fcl/broadphase/broadphase_interval_tree-inl.h
index 7e64532..b24bf09 100644
--- a/include/fcl/broadphase/broadphase_interval_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_interval_tree-inl.h
@@ -40,6 +40,8 @@
 
 #include "fcl/broadphase/broadphase_interval_tree.h"
 
+#include <algorithm>
+
 namespace fcl
 {
 
@@ -54,90 +56,16 @@ void IntervalTreeCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
   // must sorted before
   setup();
 
-  EndPoint p;
-  p.value = obj->getAABB().min_[0];
-  p.minmax = 0;
-  auto start1 = std::lower_bound(endpoints[0].begin(), endpoints[0].end(), p);
-  p.value = obj->getAABB().max_[0];
-  p.minmax = 1;
-  auto end1 = std::upper_bound(start1, endpoints[0].end(), p);
-
-  if(start1 < end1)
-  {
-    unsigned int start_id = start1 - endpoints[0].begin();
-    unsigned int end_id = end1 - endpoints[0].begin();
-    unsigned int cur_id = start_id;
-    for(unsigned int i = start_id; i < end_id; ++i)
-    {
-      if(endpoints[0][i].obj != obj)
-      {
-        if(i == cur_id) cur_id++;
-        else
-        {
-          endpoints[0][cur_id] = endpoints[0][i];
-          cur_id++;
-        }
-      }
-    }
-    if(cur_id < end_id)
-      endpoints[0].erase(endpoints[0].begin() + cur_id, endpoints[0].begin() + end_id);
-  }
-
-  p.value = obj->getAABB().min_[1];
-  p.minmax = 0;
-  auto start2 = std::lower_bound(endpoints[1].begin(), endpoints[1].end(), p);
-  p.value = obj->getAABB().max_[1];
-  p.minmax = 1;
-  auto end2 = std::upper_bound(start2, endpoints[1].end(), p);
-
-  if(start2 < end2)
-  {
-    unsigned int start_id = start2 - endpoints[1].begin();
-    unsigned int end_id = end2 - endpoints[1].begin();
-    unsigned int cur_id = start_id;
-    for(unsigned int i = start_id; i < end_id; ++i)
-    {
-      if(endpoints[1][i].obj != obj)
-      {
-        if(i == cur_id) cur_id++;
-        else
-        {
-          endpoints[1][cur_id] = endpoints[1][i];
-          cur_id++;
-        }
-      }
-    }
-    if(cur_id < end_id)
-      endpoints[1].erase(endpoints[1].begin() + cur_id, endpoints[1].begin() + end_id);
-  }
-
-
-  p.value = obj->getAABB().min_[2];
-  p.minmax = 0;
-  auto start3 = std::lower_bound(endpoints[2].begin(), endpoints[2].end(), p);
-  p.value = obj->getAABB().max_[2];
-  p.minmax = 1;
-  auto end3 = std::upper_bound(start3, endpoints[2].end(), p);
-
-  if(start3 < end3)
+  // the object may have been moved since its end points were sorted in, so that
+  // their places do not follow from its AABB
+  for(auto& points : endpoints)
   {
-    unsigned int start_id = start3 - endpoints[2].begin();
-    unsigned int end_id = end3 - endpoints[2].begin();
-    unsigned int cur_id = start_id;
-    for(unsigned int i = start_id; i < end_id; ++i)
-    {
-      if(endpoints[2][i].obj != obj)
-      {
-        if(i == cur_id) cur_id++;
-        else
-        {
-          endpoints[2][cur_id] = endpoints[2][i];
-          cur_id++;
-        }
-      }
-    }
-    if(cur_id < end_id)
-      endpoints[2].erase(endpoints[2].begin() + cur_id, endpoints[2].begin() + end_id);
+    points.erase(
+        std::remove_if(
+            points.begin(),
+            points.end(),
+            [obj](const EndPoint& point) { return point.obj == obj; }),
+        points.end());
   }
 
   // update the interval tree
diff --git a/include/fcl/broadphase/broadphase_spatialhash-inl.h b/include/fcl/broadphase/broadphase_spatialhash-inl.h
index 8ebd65d..0511839 100644
--- a/include/fcl/broadphase/broadphase_spatialhash-inl.h
+++ b/include/fcl/broadphase/broadphase_spatialhash-inl.h
@@ -99,9 +99,14 @@ void SpatialHashingCollisionManager<S, HashTable>::registerObject(
 template<typename S, typename HashTable>
 void SpatialHashingCollisionManager<S, HashTable>::unregisterObject(CollisionObject<S>* obj)
 {
+  const auto it = obj_aabb_map.find(obj);
+  if(it == obj_aabb_map.end())
+    return;
+
   objs.remove(obj);
 
-  const AABB<S>& obj_aabb = obj->getAABB();
+  // the object may have been moved since it was put into the table
+  const AABB<S>& obj_aabb = it->second;
   AABB<S> overlap_aabb;
 
   if(scene_limit.overlap(obj_aabb, overlap_aabb))
@@ -116,7 +121,7 @@ void SpatialHashingCollisionManager<S, HashTable>::unregisterObject(CollisionObj
     objs_outside_scene_limit.remove(obj);
   }
 
-  obj_aabb_map.erase(obj);
+  obj_aabb_map.erase(it);
 }
 
 //==============================================================================
-- 
2.43.0

