From faee958ee58cb9e6ba571563a892940a1bf271f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 01/13] fix: maintain revived destroyed entities

Entities allocated with exclusive access were counted as owed to maintain,
so an entity created and destroyed before maintain was inserted again.
---
 src/entity/entity_allocator.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/entity/entity_allocator.rs b/src/entity/entity_allocator.rs
index eddf900..12e5a76 100644
--- a/src/entity/entity_allocator.rs
+++ b/src/entity/entity_allocator.rs
@@ -1,5 +1,6 @@
 use crate::entity::Entity;
 use alloc::collections::VecDeque;
+use alloc::vec::Vec;
 use core::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
 
 #[derive(Default, Debug)]
@@ -8,6 +9,7 @@ pub(crate) struct EntityAllocator {
     last_maintained_index: u64,
     recycled: VecDeque<Entity>,
     recycled_since_maintain: AtomicUsize,
+    queued: Vec<Entity>,
 }
 
 impl EntityAllocator {
@@ -16,10 +18,16 @@ impl EntityAllocator {
         let recycled_since_maintain = *self.recycled_since_maintain.get_mut();
 
         if recycled_since_maintain < self.recycled.len() {
-            *self.recycled_since_maintain.get_mut() += 1;
-            Some(self.recycled[self.recycled.len() - recycled_since_maintain - 1])
+            // The entity is not owed to `maintain`.
+            self.recycled
+                .remove(self.recycled.len() - recycled_since_maintain - 1)
         } else if let Ok(index) = u32::try_from(*self.next_index_to_allocate.get_mut()) {
-            *self.next_index_to_allocate.get_mut() += 1;
+            // Remember the entities owed to `maintain`, then skip over the new one.
+            let queued = self.last_maintained_index as u32..index;
+            self.queued.extend(queued.map(Entity::with_index));
+
+            self.last_maintained_index = u64::from(index) + 1;
+            *self.next_index_to_allocate.get_mut() = self.last_maintained_index;
             Some(Entity::with_index(index))
         } else {
             None
@@ -62,6 +70,7 @@ impl EntityAllocator {
 
         self.recycled
             .drain(recycled_range)
+            .chain(self.queued.drain(..))
             .chain(new_index_range.map(|i| Entity::with_index(i as u32)))
     }
 
@@ -70,6 +79,7 @@ impl EntityAllocator {
         self.last_maintained_index = 0;
         self.recycled.clear();
         *self.recycled_since_maintain.get_mut() = 0;
+        self.queued.clear();
     }
 
     fn increment_recycled_since_maintain(&self) -> Option<usize> {
-- 
2.43.0


From adc7874a02bce71eff605a20c614ed207a8000f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 02/13] fix: component slices ignored the start of the group
 range

Slices of queries excluding a child group started at the first component
instead of the first component after the child group.
---
 src/query/query_part.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/query/query_part.rs b/src/query/query_part.rs
index 7d85ab3..0537522 100644
--- a/src/query/query_part.rs
+++ b/src/query/query_part.rs
@@ -257,7 +257,7 @@ where
         _entities: &'a [Entity],
         range: Range<usize>,
     ) -> Self::Slice<'a> {
-        slice::from_raw_parts(data.as_ptr(), range.end - range.start)
+        slice::from_raw_parts(data.as_ptr().add(range.start), range.end - range.start)
     }
 }
 
@@ -336,7 +336,7 @@ where
         _entities: &'a [Entity],
         range: Range<usize>,
     ) -> Self::Slice<'a> {
-        slice::from_raw_parts_mut(data.as_ptr(), range.end - range.start)
+        slice::from_raw_parts_mut(data.as_ptr().add(range.start), range.end - range.start)
     }
 }
 
-- 
2.43.0


From 8eb38060c8dbcc56cfacd88df1f7d9fc6c1c721f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 03/13] fix: grouped queries excluding several components
 yielded partial matches

If a child group adds several components, entities that have some but not all
of them are stored in the parent group past the child group, but must not be
matched by a query that excludes those components.
---
 src/component/component_storage.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/component/component_storage.rs b/src/component/component_storage.rs
index 380e5e4..fc26a00 100644
--- a/src/component/component_storage.rs
+++ b/src/component/component_storage.rs
@@ -287,6 +287,17 @@ impl ComponentStorage {
             return None;
         }
 
+        // If the child group adds several components, entities past it may still have some of them.
+        let new_components = &self.components[child_group.metadata.new_storage_range()];
+
+        if new_components.len() > 1
+            && new_components
+                .iter()
+                .any(|sparse_set| unsafe { (*sparse_set.as_ptr()).len() } != child_group.len)
+        {
+            return None;
+        }
+
         let parent_group = unsafe { self.groups.get_unchecked(usize::from(group_end) - 2) };
         Some(child_group.len..parent_group.len)
     }
-- 
2.43.0


From 3a14fa36fa1c81b48c8b1a3f0cf7d1d3d04315c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 04/13] fix: groups with the maximum arity and layouts with the
 maximum group count panicked

---
 src/component/group_mask.rs   | 12 ++++--------
 src/component/storage_mask.rs |  6 +++---
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/component/group_mask.rs b/src/component/group_mask.rs
index 318ddcb..eafb239 100644
--- a/src/component/group_mask.rs
+++ b/src/component/group_mask.rs
@@ -11,21 +11,17 @@ impl GroupMask {
     #[inline]
     #[must_use]
     pub const fn from_to(from: usize, to: usize) -> Self {
-        assert!(from < MAX_GROUP_COUNT);
-        assert!(to < MAX_GROUP_COUNT);
+        assert!(to <= MAX_GROUP_COUNT);
         assert!(from <= to);
 
-        Self(((1 << (to - from)) - 1) << from)
+        // The intermediate type must be able to hold `1 << MAX_GROUP_COUNT`.
+        Self((((1_u128 << (to - from)) - 1) << from) as u64)
     }
 
     #[inline]
     #[must_use]
     pub const fn skip_from_to(from: usize, to: usize) -> Self {
-        assert!(from < MAX_GROUP_COUNT);
-        assert!(to < MAX_GROUP_COUNT);
-        assert!(from <= to);
-
-        Self(!(((1 << (to - from)) - 1) << from))
+        Self(!Self::from_to(from, to).0)
     }
 
     #[inline]
diff --git a/src/component/storage_mask.rs b/src/component/storage_mask.rs
index e49a44c..1573e5c 100644
--- a/src/component/storage_mask.rs
+++ b/src/component/storage_mask.rs
@@ -10,11 +10,11 @@ impl StorageMask {
     #[inline]
     #[must_use]
     pub fn from_to(from: usize, to: usize) -> Self {
-        assert!(from < MAX_GROUP_ARITY);
-        assert!(to < MAX_GROUP_ARITY);
+        assert!(to <= MAX_GROUP_ARITY);
         assert!(from <= to);
 
-        Self(((1 << (to - from)) - 1) << from)
+        // The intermediate type must be able to hold `1 << MAX_GROUP_ARITY`.
+        Self((((1_u32 << (to - from)) - 1) << from) as u16)
     }
 }
 
-- 
2.43.0


From e9303a44f568790af5733cadd572ddd4a5ec5366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 05/13] fix: grouped queries ignored excluded parts that match
 every entity

Excluding Entity or Option parts matches nothing, but grouped queries and
queries with a single view iterated over all items and returned slices.
---
 src/query/query_all.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/query/query_all.rs b/src/query/query_all.rs
index d1f925c..85d1f45 100644
--- a/src/query/query_all.rs
+++ b/src/query/query_all.rs
@@ -203,6 +203,13 @@ where
         let include_info = self.include_info?;
         let exclude_info = self.exclude_info?;
 
+        // Excluding parts that are present on every entity leaves nothing to match.
+        let (_, exclude_sparse) = E::split_filter_parts(&self.exclude);
+
+        if !E::contains_none_raw(exclude_sparse, usize::MAX) {
+            return None;
+        }
+
         unsafe {
             self.world
                 .components
-- 
2.43.0


From 0e3633961f312c860dbacb1502094c1ba604ba5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 06/13] fix: group layouts depended on the order in which
 groups were added

Adding a group after one of its supersets panicked for compatible groups,
or was accepted for incompatible ones and mixed up the storages of the family.
---
 src/component/group_layout.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/component/group_layout.rs b/src/component/group_layout.rs
index 2fda1b6..ec9ff93 100644
--- a/src/component/group_layout.rs
+++ b/src/component/group_layout.rs
@@ -132,9 +132,9 @@ impl GroupFamily {
                     return true;
                 }
                 Ordering::Greater => {
-                    let is_superset = self.components[prev_arity..arity]
+                    let is_superset = components
                         .iter()
-                        .all(|c| !components.contains(c));
+                        .all(|c| self.components[..arity].contains(c));
 
                     if !is_superset {
                         panic_incompatible_groups(components, &self.components[..arity]);
@@ -149,7 +149,7 @@ impl GroupFamily {
         // Insert new group.
         if let Some(index) = index {
             let next_arity = self.arities[index];
-            self.components[..next_arity].sort_by_cached_key(|c| components.contains(c));
+            self.components[..next_arity].sort_by_key(|c| !components.contains(c));
             self.arities.insert(index, components.len());
         } else {
             for component in components {
-- 
2.43.0


From 8c5ba07699f6f3072036161693428d7c5c19714b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:57 +0000
Subject: [PATCH 07/13] fix: components were dropped again if dropping one of
 them panicked

delete left the dropped component in place of the last one and clear kept the
length of the sparse set.
---
 src/component/component_sparse_set.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/component/component_sparse_set.rs b/src/component/component_sparse_set.rs
index 25fb590..3b41210 100644
--- a/src/component/component_sparse_set.rs
+++ b/src/component/component_sparse_set.rs
@@ -111,11 +111,13 @@ impl ComponentSparseSet {
             });
         }
 
-        let dropped_ptr = self.components.cast::<T>().add(index);
-        dropped_ptr.drop_in_place();
-
+        let removed_ptr = self.components.cast::<T>().add(index);
         let last_ptr = self.components.cast::<T>().add(self.len);
-        last_ptr.copy_to(dropped_ptr, 1);
+
+        // Replace removed component with last component before dropping it, since
+        // dropping may panic.
+        removed_ptr.swap(last_ptr);
+        last_ptr.drop_in_place();
     }
 
     #[inline]
@@ -299,15 +301,9 @@ impl ComponentSparseSet {
     {
         self.sparse.clear();
 
-        if mem::needs_drop::<T>() {
-            for i in 0..self.len {
-                unsafe {
-                    self.components.cast::<T>().add(i).drop_in_place();
-                }
-            }
-        }
-
-        self.len = 0;
+        // Update the length before dropping the components, since dropping may panic.
+        let len = mem::replace(&mut self.len, 0);
+        NonNull::slice_from_raw_parts(self.components.cast::<T>(), len).drop_in_place();
     }
 
     unsafe fn drop_typed<T>(&mut self)
-- 
2.43.0


From 7c9354883366ec468a74c841f0c4315a8f958246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:58 +0000
Subject: [PATCH 08/13] fix: destroyed entities kept components if dropping one
 of them panicked

The remaining sparse sets were neither stripped of the entity nor cleared.
---
 src/component/component_storage.rs | 44 +++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/src/component/component_storage.rs b/src/component/component_storage.rs
index fc26a00..7c6d1c2 100644
--- a/src/component/component_storage.rs
+++ b/src/component/component_storage.rs
@@ -8,7 +8,7 @@ use alloc::vec::Vec;
 use atomic_refcell::AtomicRefCell;
 use core::any::{self, TypeId};
 use core::ops::Range;
-use core::{cmp, mem};
+use core::{cmp, mem, slice};
 use hashbrown::hash_map::Entry;
 use hashbrown::HashMap;
 use rustc_hash::FxBuildHasher;
@@ -140,9 +140,9 @@ impl ComponentStorage {
             ungroup_all(&mut self.components, &mut self.groups, entity);
         }
 
-        for sparse_set in &mut self.components {
-            sparse_set.get_mut().delete_dyn(entity);
-        }
+        for_each_sparse_set(&mut self.components, |sparse_set| {
+            sparse_set.delete_dyn(entity);
+        });
     }
 
     pub fn clear(&mut self) {
@@ -150,9 +150,7 @@ impl ComponentStorage {
             group.len = 0;
         }
 
-        for sparse_set in &mut self.components {
-            sparse_set.get_mut().clear();
-        }
+        for_each_sparse_set(&mut self.components, ComponentSparseSet::clear);
     }
 
     #[must_use]
@@ -332,6 +330,38 @@ pub(crate) struct ComponentMetadata {
     pub group_info: Option<GroupInfo>,
 }
 
+/// Calls `f` for all sparse sets, even if one of the calls panics.
+fn for_each_sparse_set<F>(sparse_sets: &mut [AtomicRefCell<ComponentSparseSet>], f: F)
+where
+    F: FnMut(&mut ComponentSparseSet),
+{
+    struct ForEach<'a, F>(slice::IterMut<'a, AtomicRefCell<ComponentSparseSet>>, F)
+    where
+        F: FnMut(&mut ComponentSparseSet);
+
+    impl<F> ForEach<'_, F>
+    where
+        F: FnMut(&mut ComponentSparseSet),
+    {
+        fn run(&mut self) {
+            for sparse_set in self.0.by_ref() {
+                (self.1)(sparse_set.get_mut());
+            }
+        }
+    }
+
+    impl<F> Drop for ForEach<'_, F>
+    where
+        F: FnMut(&mut ComponentSparseSet),
+    {
+        fn drop(&mut self) {
+            self.run();
+        }
+    }
+
+    ForEach(sparse_sets.iter_mut(), f).run();
+}
+
 #[cold]
 #[inline(never)]
 pub(crate) fn panic_missing_comp<T>() -> ! {
-- 
2.43.0


From 3a5ea8f1bf6f8d212854f3000384ef1ae5eecd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 09/13] fix: entities were left ungrouped if an operation on
 their components panicked

An unregistered component, a panicking drop or a panicking iterator stopped the
operation before all components of the entity were stored and grouped.
---
 src/component/component_set.rs | 70 +++++++++-------------------------
 1 file changed, 19 insertions(+), 51 deletions(-)

diff --git a/src/component/component_set.rs b/src/component/component_set.rs
index 7b629d8..11dc5a9 100644
--- a/src/component/component_set.rs
+++ b/src/component/component_set.rs
@@ -44,7 +44,7 @@ macro_rules! impl_component_set {
             unsafe fn insert(world: &mut World, entity: Entity, components: Self) {
                 let mut group_mask = GroupMask::EMPTY;
 
-                $({
+                let sparse_sets = ($({
                     let metadata = world
                         .components
                         .metadata
@@ -57,11 +57,15 @@ macro_rules! impl_component_set {
                         world
                             .components
                             .components
-                            .get_unchecked_mut(metadata.storage_index)
-                            .get_mut()
-                            .insert(entity, components.$idx);
+                            .get_unchecked(metadata.storage_index)
+                            .as_ptr()
                     }
-                })*
+                },)*);
+
+                // Dropped after the entity is grouped, since dropping may panic.
+                let _replaced = unsafe {
+                    ($((*sparse_sets.$idx).insert(entity, components.$idx),)*)
+                };
 
                 if group_mask != GroupMask::EMPTY {
                     unsafe {
@@ -104,17 +108,13 @@ macro_rules! impl_component_set {
                 components.into_iter().for_each(|components| {
                     let entity = world.entities.create();
 
-                    unsafe {$(
-                        (*sparse_sets.$idx).insert(entity, components.$idx);
-                    )*}
-                });
-
-                let new_entities = unsafe {
-                    world.entities.as_slice().get_unchecked(start_entity..)
-                };
+                    // Dropped after the entity is grouped, since dropping may panic.
+                    let _replaced = unsafe {
+                        ($((*sparse_sets.$idx).insert(entity, components.$idx),)*)
+                    };
 
-                if group_mask != GroupMask::EMPTY {
-                    for &entity in new_entities {
+                    // The iterator may panic before it produces the next entity.
+                    if group_mask != GroupMask::EMPTY {
                         unsafe {
                             group(
                                 &mut world.components.components,
@@ -124,9 +124,9 @@ macro_rules! impl_component_set {
                             );
                         }
                     }
-                }
+                });
 
-                new_entities
+                unsafe { world.entities.as_slice().get_unchecked(start_entity..) }
             }
 
             unsafe fn remove(world: &mut World, entity: Entity) -> Self::Remove {
@@ -167,40 +167,8 @@ macro_rules! impl_component_set {
             }
 
             unsafe fn delete(world: &mut World, entity: Entity) {
-                let mut group_mask = GroupMask::EMPTY;
-
-                let sparse_sets = ($({
-                    let metadata = world
-                        .components
-                        .metadata
-                        .get(&TypeId::of::<$Comp>())
-                        .unwrap_or_else(|| panic_missing_comp::<$Comp>());
-
-                    group_mask |= metadata.delete_mask;
-
-                    unsafe {
-                        world
-                            .components
-                            .components
-                            .get_unchecked(metadata.storage_index)
-                            .as_ptr()
-                    }
-                },)*);
-
-                unsafe {
-                    if group_mask != GroupMask::EMPTY {
-                        ungroup(
-                            &mut world.components.components,
-                            &mut world.components.groups,
-                            group_mask,
-                            entity,
-                        );
-                    }
-
-                    $(
-                        (*sparse_sets.$idx).delete::<$Comp>(entity);
-                    )*
-                }
+                // Drop the components after all of them are removed, since dropping may panic.
+                drop(Self::remove(world, entity));
             }
         }
     };
-- 
2.43.0


From 391a0b326978384c5ebfd3e4645c9d0e0821835f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:36 +0000
Subject: [PATCH 10/13] fix: grouping swapped the versions of sparse slots

Moving an entity into or out of a group swapped the whole sparse slots, so two
entities with different versions exchanged their versions and lost their
components.
---
 src/component/component_sparse_set.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/component/component_sparse_set.rs b/src/component/component_sparse_set.rs
index 3b41210..03a370d 100644
--- a/src/component/component_sparse_set.rs
+++ b/src/component/component_sparse_set.rs
@@ -282,11 +282,20 @@ impl ComponentSparseSet {
         debug_assert!(dense_b < self.len);
         debug_assert_ne!(dense_a, dense_b);
 
-        // Swap entities.
+        // Swap entities. Sparse slots must keep the versions of their entities.
         let entity_a = self.entities.add(dense_a).as_mut();
         let entity_b = self.entities.add(dense_b).as_mut();
-        self.sparse
-            .swap_nonoverlapping(entity_a.sparse(), entity_b.sparse());
+
+        *self.sparse.get_unchecked_mut(entity_a.sparse()) = Some(SparseVecSlot {
+            index: dense_b as u32,
+            version: entity_a.version,
+        });
+
+        *self.sparse.get_unchecked_mut(entity_b.sparse()) = Some(SparseVecSlot {
+            index: dense_a as u32,
+            version: entity_b.version,
+        });
+
         mem::swap(entity_a, entity_b);
 
         // Swap components.
-- 
2.43.0


From c9ea0900e7875b971693f23a9d4e4c19d6ef3cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 11/13] hook: reach the limits of the entity allocator (cfg
 sparsey_verif)

---
 src/entity/entity_allocator.rs | 72 ++++++++++++++++++++++++++++++++++
 src/entity/entity_storage.rs   |  8 ++++
 src/entity/mod.rs              |  4 ++
 3 files changed, 84 insertions(+)

diff --git a/src/entity/entity_allocator.rs b/src/entity/entity_allocator.rs
index 12e5a76..9f59117 100644
--- a/src/entity/entity_allocator.rs
+++ b/src/entity/entity_allocator.rs
@@ -119,3 +119,75 @@ impl EntityAllocator {
         None
     }
 }
+
+/// Access to otherwise unreachable states, for verification only.
+#[allow(unexpected_cfgs)]
+#[cfg(sparsey_verif)]
+mod verif {
+    use super::EntityAllocator;
+    use crate::entity::{Entity, Version};
+    use crate::world::World;
+    use alloc::vec::Vec;
+
+    impl EntityAllocator {
+        /// Marks all indexes below `next_index` as used.
+        pub(crate) fn verif_skip_to(&mut self, next_index: u64) {
+            *self.next_index_to_allocate.get_mut() = next_index;
+            self.last_maintained_index = next_index;
+        }
+
+        /// Sets the versions of all entities that wait to be reused.
+        pub(crate) fn verif_set_recycled_version(&mut self, version: Version) {
+            self.recycled.iter_mut().for_each(|e| e.version = version);
+        }
+    }
+
+    impl World {
+        /// Marks all indexes below `next_index` as used.
+        pub fn verif_skip_to(&mut self, next_index: u64) {
+            self.entities.verif_allocator().verif_skip_to(next_index);
+        }
+
+        /// Sets the versions of all entities that wait to be reused.
+        pub fn verif_set_recycled_version(&mut self, version: Version) {
+            self.entities
+                .verif_allocator()
+                .verif_set_recycled_version(version);
+        }
+    }
+
+    /// The entity allocator on its own.
+    #[derive(Default, Debug)]
+    pub struct VerifAllocator(EntityAllocator);
+
+    #[allow(missing_docs)]
+    impl VerifAllocator {
+        pub fn skip_to(&mut self, next_index: u64) {
+            self.0.verif_skip_to(next_index);
+        }
+
+        pub fn allocate(&mut self) -> Option<Entity> {
+            self.0.allocate()
+        }
+
+        pub fn allocate_atomic(&self) -> Option<Entity> {
+            self.0.allocate_atomic()
+        }
+
+        pub fn recycle(&mut self, entity: Entity) {
+            self.0.recycle(entity);
+        }
+
+        pub fn maintain(&mut self) -> Vec<Entity> {
+            self.0.maintain().collect()
+        }
+
+        pub fn reset(&mut self) {
+            self.0.reset();
+        }
+    }
+}
+
+#[allow(unexpected_cfgs)]
+#[cfg(sparsey_verif)]
+pub use self::verif::VerifAllocator;
diff --git a/src/entity/entity_storage.rs b/src/entity/entity_storage.rs
index 2ff3103..0773e2a 100644
--- a/src/entity/entity_storage.rs
+++ b/src/entity/entity_storage.rs
@@ -70,3 +70,11 @@ impl EntityStorage {
         self.entities.clear();
     }
 }
+
+#[allow(unexpected_cfgs)]
+#[cfg(sparsey_verif)]
+impl EntityStorage {
+    pub(crate) fn verif_allocator(&mut self) -> &mut EntityAllocator {
+        &mut self.allocator
+    }
+}
diff --git a/src/entity/mod.rs b/src/entity/mod.rs
index 8d08d2c..e1c1b99 100644
--- a/src/entity/mod.rs
+++ b/src/entity/mod.rs
@@ -7,6 +7,10 @@ mod sparse_vec;
 
 pub use self::sparse_vec::*;
 
+#[allow(unexpected_cfgs)]
+#[cfg(sparsey_verif)]
+pub use self::entity_allocator::VerifAllocator;
+
 pub(crate) use self::entity_allocator::*;
 pub(crate) use self::entity_sparse_set::*;
 pub(crate) use self::entity_storage::*;
-- 
2.43.0


From 230b0233ff8769bbfa8af0ce6072bbeb7de13366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 12/13] fix: groups rejected for spanning families were added
 to some of them

---
 src/component/group_layout.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/component/group_layout.rs b/src/component/group_layout.rs
index ec9ff93..383167f 100644
--- a/src/component/group_layout.rs
+++ b/src/component/group_layout.rs
@@ -44,6 +44,19 @@ impl GroupLayout {
             "Groups must have at most {MAX_GROUP_ARITY} component types",
         );
 
+        // Check before changing any family, so that a rejected group leaves the
+        // layout as it was.
+        let overlapping = self
+            .families
+            .iter()
+            .filter(|f| f.components.iter().any(|c| components.contains(c)))
+            .count();
+
+        assert!(
+            overlapping <= 1,
+            "Groups families may not have any component types in common",
+        );
+
         let successes = self
             .families
             .iter_mut()
@@ -52,11 +65,6 @@ impl GroupLayout {
 
         if successes == 0 {
             self.families.push(GroupFamily::new(components));
-        } else {
-            assert_eq!(
-                successes, 1,
-                "Groups families may not have any component types in common",
-            );
         }
     }
 
-- 
2.43.0


From df6d334190bf1ca67b685dccf5102e7785b61015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:28 +0000
Subject: [PATCH 13/13] fix: set_layout lost all components if the layout had
 too many groups

---
 src/component/component_storage.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/component/component_storage.rs b/src/component/component_storage.rs
index 7c6d1c2..9916e68 100644
--- a/src/component/component_storage.rs
+++ b/src/component/component_storage.rs
@@ -1,7 +1,7 @@
 use crate::component::{
     group, ungroup_all, Component, ComponentData, ComponentSparseSet, Group, GroupInfo,
     GroupLayout, GroupMask, GroupMetadata, NonZeroStorageMask, QueryGroupInfo, QueryMask,
-    StorageMask, View, ViewMut,
+    StorageMask, View, ViewMut, MAX_GROUP_COUNT,
 };
 use crate::entity::Entity;
 use alloc::vec::Vec;
@@ -35,6 +35,18 @@ impl ComponentStorage {
     }
 
     pub unsafe fn set_layout(&mut self, layout: &GroupLayout, entities: &[Entity]) {
+        // Check before extracting the sparse sets, so that they are not lost.
+        let group_count = layout
+            .families()
+            .iter()
+            .map(|family| family.arities().len())
+            .sum::<usize>();
+
+        assert!(
+            group_count <= MAX_GROUP_COUNT,
+            "Group layouts must have at most {MAX_GROUP_COUNT} groups",
+        );
+
         let mut sparse_sets = self.extract_sparse_sets();
 
         for family in layout.families() {
-- 
2.43.0

