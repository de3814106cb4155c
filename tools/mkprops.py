#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run after editing)."""
import json, os
E="src/entity/"; C="src/component/"; Q="src/query/"; W="src/world/"
def P(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
                     mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook))
props=[
P("C01","Entity handles are unique and dead entities stay dead",
  "Every handle returned by create, extend or create_atomic differs from every handle that world handed out before (until reset), and a destroyed entity is never alive again: no later create, create_atomic, maintain, destroy or clear makes its handle refer to a live entity. Recycled indexes come back with a strictly newer version.",
  ["histories","inputs"],"all histories of create/create_atomic/maintain/destroy/clear/extend, all 64-bit handles passed to destroy",
  "tests create and destroy two or three entities in a fixed order; uniqueness and no-resurrection quantify over every interleaving of deferred and immediate creation with destruction",
  [E+"entity_allocator.rs",E+"entity_storage.rs",E+"mod.rs",W+"mod.rs"],
  [("EntityAllocator::allocate/recycle/maintain",E+"entity_allocator.rs"),("Version::next",E+"mod.rs")],
  [("recycled","queue of (index, next version) available for reuse",E+"entity_allocator.rs"),("last_maintained_index/recycled_since_maintain","what maintain still owes",E+"entity_allocator.rs")],
  ["World::create","World::create_atomic","World::maintain","World::destroy","World::contains_entity"]),
P("C02","Liveness queries agree with the history of operations",
  "At every point the set of live entities is exactly those created (or queued and then maintained) and not since destroyed or cleared: contains_entity is true for exactly those handles, entities() lists each exactly once, is_empty agrees, and destroy reports whether the handle was live. A handle whose index or version does not match a live entity is never accepted.",
  ["histories","inputs"],"all histories of entity operations and all possible handles (any index, any version)",
  "tests check a few fixed handles; forged or stale handles and removal orders are not sampled",
  [E+"entity_sparse_set.rs",E+"sparse_vec.rs",E+"entity_storage.rs",W+"mod.rs"],
  [("swap-remove with slot fix-up",E+"entity_sparse_set.rs"),("version filter in SparseVec",E+"sparse_vec.rs")],
  [("sparse slots","index -> (dense index, version)",E+"sparse_vec.rs")],
  ["World::entities","World::contains_entity","World::is_empty","World::destroy"]),
P("C03","Concurrent deferred creation hands out distinct entities",
  "Entities obtained from create_atomic by any number of threads sharing the world are pairwise distinct, distinct from every live entity, and not alive before maintain; the next maintain makes exactly those entities alive, whatever the interleaving of the threads and however often a weak compare-and-swap fails.",
  ["schedules","histories"],"all interleavings of the atomic steps of concurrent create_atomic calls from every small allocator state, including spurious CAS failures",
  "no test calls create_atomic from more than one thread; lost updates show only in particular interleavings",
  [E+"entity_allocator.rs",E+"entity_storage.rs"],
  [("CAS loops on the two allocation counters",E+"entity_allocator.rs"),("maintain drains what was handed out",E+"entity_allocator.rs")],
  [("recycled_since_maintain, next_index_to_allocate","atomic allocation cursors",E+"entity_allocator.rs")],
  ["World::create_atomic","World::maintain"]),
P("C04","Components behave as a per-entity map keyed by live handles",
  "After any history of create, insert, remove, delete and destroy, each live entity has exactly the components (and values) it was last given and not since lost; insert overwrites, remove returns the current values of exactly those components, and operations on one entity or component never change another. Dead, stale or forged handles have no components, are refused by insert and ignored by remove and delete.",
  ["histories","inputs"],"all operation histories, all component values, all handles",
  "the CRUD tests use fixed short sequences with live handles; they cannot cover index reuse, swap-remove orders or arbitrary handles",
  [C+"component_sparse_set.rs",C+"component_set.rs",C+"component_storage.rs",C+"view.rs",W+"mod.rs",E+"sparse_vec.rs"],
  [("swap_remove of entities, components and slots in lock-step",C+"component_sparse_set.rs"),("strip on destroy",C+"component_storage.rs")],
  [("sparse/entities/components","slot table and parallel dense arrays",C+"component_sparse_set.rs")],
  ["World::insert","World::remove","World::delete","World::destroy","World::borrow"]),
P("C05","Group layout never changes what the world contains or answers",
  "Two worlds that differ only in their group layout and receive the same operations give the same answers: same components per entity, same values, same set of entities for every query, same success flags. Grouping affects only storage order and the availability of slices.",
  ["histories","configurations","inputs"],"all operation histories under every small family of nested or disjoint groups, including group steps that add several components",
  "the iterator test uses one fixed layout and one fixed population; group/ungroup transitions depend on which component arrives or leaves last",
  [C+"group.rs",C+"group_mask.rs",C+"group_info.rs",C+"component_storage.rs",C+"component_set.rs",Q+"query_all.rs"],
  [("group/ungroup swap entities across the group boundary",C+"group.rs"),("group_range selects dense iteration",C+"component_storage.rs")],
  [("group.len","number of entities in the group prefix",C+"group.rs"),("insert/delete/skip masks","which groups a change can affect",C+"component_storage.rs")],
  ["World::query_all","World::query_one","World::remove"]),
P("C06","Query iteration yields exactly the matching entities, each once",
  "Iterating a query over at least one required component yields every live entity that has all got and included components and none of the excluded ones, exactly once, each with its own component values and with Some for optional components exactly when present; mutable items alias the stored values. Iterator adaptors (next, fold, for_each, size_hint) agree.",
  ["histories","configurations","inputs"],"all populations reachable within the bound, all query shapes covered (get/include/exclude/optional/entity, dense and sparse paths)",
  "the iterator test checks counts for a few queries over one population",
  [Q+"query_all.rs",Q+"query_part.rs",Q+"mod.rs",Q+"iter/dense_iter.rs",Q+"iter/sparse_iter.rs",Q+"iter/mod.rs"],
  [("iterate the shortest required entity list and filter",Q+"mod.rs"),("dense range when a group matches",C+"component_storage.rs")],
  None,["QueryAll::iter","QueryAll::for_each","QueryAll::include","QueryAll::exclude"]),
P("C07","Single-entity queries agree with the stored components",
  "For every handle, query_one with any get, include and exclude filters matches (contains, get, map) exactly when that handle is that of an entity having all got and included components and none of the excluded ones, and then returns that entity's values; stale or forged handles never match a query with a required component, and optional parts give the component of exactly the handle asked for, or none. World::contains agrees.",
  ["histories","inputs"],"all handles (any index and version) in all populations within the bound",
  "tests query only freshly created live handles",
  [Q+"query_one.rs",Q+"query_part.rs",Q+"mod.rs",C+"view.rs"],
  [("contains_all/contains_none and versioned sparse lookup",Q+"mod.rs")],
  None,["World::query_one","World::contains","QueryOne::get","QueryOne::map"]),
P("C08","Slices are aligned, complete and match iteration",
  "When slice() returns slices for a query, they have equal length, position i of every slice belongs to the same entity, and together they list exactly the entities (with their values) that iterating the same query yields; it returns slices whenever the query is exactly a whole group (or one ungrouped-filter component), including the form that excludes the single component a child group adds.",
  ["histories","configurations","inputs"],"all populations and group layouts within the bound, queries with and without include/exclude filters",
  "no existing test calls slice() with a filter; misalignment needs a non-empty child group",
  [Q+"query_part.rs",Q+"query_all.rs",C+"component_storage.rs"],
  [("slice_raw over the group range",Q+"query_part.rs"),("include/exclude_group_range",C+"component_storage.rs")],
  None,["QueryAll::slice"]),
P("C09","Group layouts accept exactly legal families, up to the stated limits",
  "Adding a group of 2 to 16 distinct components succeeds, whatever the order of groups and of components inside them, exactly when afterwards any two groups connected through shared components (directly or through other groups) are contained one in the other; otherwise it panics, as does a group of more than 16 distinct components, and a rejected group leaves the layout as it was. Groups of fewer than two distinct components are ignored. A world can be built from any accepted layout of up to 64 groups (more panic) and behaves as specified, also at the limits of 16 components and 64 groups.",
  ["configurations","inputs"],"all sequences of groups over a small universe of component types; boundary sizes 16 and 64",
  "tests build one fixed layout; order independence and the limits are never exercised",
  [C+"group_layout.rs",C+"storage_mask.rs",C+"group_mask.rs",C+"component_storage.rs",W+"builder.rs"],
  [("GroupLayout::add_group_dyn / GroupFamily merge",C+"group_layout.rs")],
  None,["GroupLayout::builder","GroupLayout::add_group_dyn","World::new"]),
P("C10","Changing the layout or registering types preserves the world's data",
  "set_layout on a populated world keeps every entity, component and value and every registration (adding those of the layout), and afterwards the world behaves as if it had been built with that layout; a layout that is rejected for its number of groups leaves the world as it was; registering reports newness correctly and never disturbs existing data. A builder's world has the last layout set, any groups added after that, and every registration, whatever the order of the builder's calls. Using an unregistered component panics instead of returning wrong data and changes no component.",
  ["histories","configurations","inputs"],"all pairs of small layouts, all populations within the bound, further operations after the change",
  "no test calls set_layout on a populated world",
  [C+"component_storage.rs",W+"mod.rs",W+"builder.rs",C+"group.rs"],
  [("extract_sparse_sets and regroup every entity",C+"component_storage.rs")],
  [("metadata","type -> storage index, masks, group info",C+"component_storage.rs")],
  ["World::set_layout","World::register","World::is_registered","World::builder"]),
P("C11","Every component value is dropped exactly once and nothing leaks",
  "Each component value moved into the world is either returned to the caller or dropped exactly once: on overwrite, delete, destroy, clear, reset or when the world is dropped, never earlier, never twice. When the world is gone, all memory it allocated is released.",
  ["histories","configurations"],"all operation histories within the bound, drop-tracking, zero-sized and heap-owning component types",
  "tests use plain Copy components and never observe drops",
  [C+"component_sparse_set.rs",C+"component_set.rs",C+"component_storage.rs"],
  [("delete/clear_typed/drop_typed and replace on insert",C+"component_sparse_set.rs")],
  None,["World::remove","World::delete","World::destroy","World::clear","World::reset","drop(World)"]),
P("C12","No safe operation sequence causes undefined behaviour",
  "No sequence of safe API calls reads or writes outside live allocations, uses freed or uninitialised memory, produces misaligned or dangling references, or frees memory wrongly, for components of any size and alignment (zero-sized and over-aligned included), as storages grow from empty through several reallocations and shrink again.",
  ["histories","inputs","configurations"],"all operation histories within the bound, component layouts 0..64 bytes with alignments 1..64, growth across several capacity steps",
  "unsafe code misbehaves silently in ordinary test runs; growth boundaries and odd layouts are not covered",
  [C+"component_sparse_set.rs",E+"sparse_vec.rs",C+"group.rs",Q+"query_part.rs",C+"view.rs"],
  [("hand-written allocation of the dense arrays",C+"component_sparse_set.rs"),("unchecked indexing guarded by sparse slots",E+"sparse_vec.rs")],
  None,["whole public API"]),
P("C13","Views and queries follow shared-xor-exclusive borrowing",
  "At run time a component type is either borrowed exclusively once or shared any number of times: a conflicting borrow, query or view always panics without changing anything, a compatible one always succeeds, and releasing a view or query makes the type available again.",
  ["histories","configurations"],"all nestings of shared and exclusive views and queries over a few component types within the bound",
  "tests never create conflicting borrows",
  [C+"component_storage.rs",C+"view.rs",Q+"query_part.rs"],
  [("one reference-counted cell per component storage",C+"component_storage.rs")],
  None,["World::borrow","World::borrow_mut","World::query_all","World::query_one"]),
P("C14","clear and reset empty the world completely and leave it usable",
  "After clear or reset the world has no live entities and no components, all earlier handles are dead, and pending deferred creations are discarded; after clear, new handles never coincide with earlier ones, while after reset allocation starts over as in a new world. In both cases every later operation behaves as in a fresh world with the same layout and registrations.",
  ["histories"],"all histories before and after clear/reset within the bound, including pending deferred creations",
  "one test clears a small world once and checks emptiness only",
  [W+"mod.rs",E+"entity_storage.rs",E+"entity_allocator.rs",C+"component_storage.rs"],
  [("EntityStorage::clear/reset, ComponentStorage::clear",E+"entity_storage.rs")],
  None,["World::clear","World::reset"]),
P("C15","extend is equivalent to creating entities one by one",
  "extend with any number of component tuples (including none) leaves the world in the same observable state as calling create for each in order, including grouping, and returns exactly the new entities in creation order; only those new entities are affected.",
  ["histories","inputs","configurations"],"all lengths and prior histories within the bound, grouped and ungrouped component tuples",
  "no test compares extend with create on a world with history or groups",
  [C+"component_set.rs",W+"mod.rs"],
  [("ComponentSet::extend",C+"component_set.rs")],
  None,["World::extend"]),
P("C16","Handle and version ordering, equality and successor are consistent",
  "For all handles, equality means same index and same version, equal handles hash alike, ordering is total and consistent with equality and compares versions before indexes, and the next version is the numeric successor with none after the last; handles rebuilt from their parts are equal to the original.",
  ["inputs"],"all pairs and triples of 64-bit handles and all versions",
  "an input space of 2^128 pairs; no existing test compares handles",
  [E+"mod.rs"],
  [("Ord for Entity, Version::next",E+"mod.rs")],
  None,["Entity","Version"]),
P("C17","The public sparse vector is a versioned map",
  "A sparse vector maps sparse indexes to versioned dense indexes: lookups, membership, removal and swapping by handle or by raw index agree with a map from index to (version, dense) after any sequence of its safe operations, for any index up to the tested size, and growing never disturbs existing entries; a handle with the wrong version is never found or removed.",
  ["histories","inputs"],"all operation sequences within the bound, all handle values, slots allocated at arbitrary indexes up to the stated size",
  "no test uses the sparse vector directly",
  [E+"sparse_vec.rs"],
  [("slot vector with version filter, power-of-two growth",E+"sparse_vec.rs")],
  None,["SparseVec"]),
P("C18","Parallel iteration visits the same items as sequential iteration",
  "With the parallel feature, par_iter and par_for_each visit exactly the items that sequential iteration of the same query visits, each exactly once and with the same values, however the work is split and in whatever order the pieces run.",
  ["schedules","histories","configurations"],"all splittings and execution orders of the work pieces within the bound, dense and sparse queries",
  "no test enables the parallel feature",
  [Q+"par_iter/dense_par_iter.rs",Q+"par_iter/sparse_par_iter.rs",Q+"par_iter/mod.rs",Q+"query_all.rs"],
  [("DenseParIter producer splitting, SparseParIter filter_map",Q+"par_iter/dense_par_iter.rs")],
  None,["QueryAll::par_iter","QueryAll::par_for_each"]),
P("C19","Exhausting the identifier space never reissues a handle",
  "When an index has reached its last version it is retired instead of wrapping, and when all indexes are used up creation fails with a panic; no handle is ever issued twice because an index or version counter overflowed, for immediate as well as deferred creation.",
  ["histories","inputs"],"allocator states within a few steps of the last index and last version, all short histories from there",
  "reaching the limits takes 2^32 operations; no test gets near",
  [E+"entity_allocator.rs",E+"mod.rs"],
  [("u32::try_from(next index), Version::next() == None",E+"entity_allocator.rs")],
  [("next_index_to_allocate","64-bit cursor compared with u32::MAX",E+"entity_allocator.rs")],
  ["World::create","World::create_atomic","World::destroy"],
  "set the allocator cursor / version close to the limit (guarded hook)"),
P("C20","A panicking user callback never corrupts the world",
  "If user code called by the world panics (the iterator passed to extend, a component's drop, or a closure passed to a query) and the panic is caught, no value is dropped twice, no freed memory is used and all borrows are released; entities and components not involved in the failed operation keep their values and later operations work on them.",
  ["fault_sequences","histories"],"a panic at every possible callback position within the bound, followed by further operations",
  "no test injects panics",
  [C+"component_set.rs",C+"component_sparse_set.rs",Q+"query_all.rs",Q+"query_one.rs"],
  [("order of bookkeeping and user callbacks",C+"component_sparse_set.rs")],
  None,["World::extend","World::delete","World::clear","QueryAll::for_each"]),
P("C21","Views agree with the stored components and write through to them",
  "A shared or exclusive view of a component type lists exactly the entities that have it, each once and at the same position as its value; contains, get and indexing find the value for exactly the handles of those entities (indexing panics for any other), for stale and forged handles nothing; len and is_empty agree. Writing through get_mut, indexing or the mutable slice changes exactly the addressed values, visible to every later view and query.",
  ["histories","configurations","inputs"],"all populations and layouts within the bound, all handles, all component values",
  "tests look up fresh live handles in views of small worlds; stale handles on reused indexes and positions after swap-removal are not sampled",
  [C+"view.rs",C+"component_sparse_set.rs",E+"sparse_vec.rs",C+"component_storage.rs"],
  [("versioned lookup of the dense index",C+"component_sparse_set.rs"),("typed access to the dense arrays",C+"view.rs")],
  [("sparse/entities/components","slot table and parallel dense arrays",C+"component_sparse_set.rs")],
  ["World::borrow","World::borrow_mut","View::get","ViewMut::get_mut","Index<Entity> for View"]),
P("C22","Indexes of destroyed entities are used again before new ones",
  "As long as the index of a destroyed entity waits to be reused (it was not retired at its last version), create, extend and create_atomic use a waiting index rather than a new one, and new indexes are taken in order from 0. So a world that never has more than n entities alive or deferred uses only indexes below n, unless cleared; after reset indexes start from 0 again.",
  ["histories"],"all histories of create/create_atomic/extend/destroy/maintain/reset within the bound",
  "reuse is tested for one destroyed entity; a lost index only shows as slow growth towards exhaustion",
  [E+"entity_allocator.rs",E+"entity_storage.rs",W+"mod.rs"],
  [("recycled queue shared by immediate and deferred creation",E+"entity_allocator.rs")],
  [("recycled","queue of (index, next version) available for reuse",E+"entity_allocator.rs"),("recycled_since_maintain","how many of them are promised to deferred entities",E+"entity_allocator.rs")],
  ["World::create","World::create_atomic","World::extend","Entity::index"]),
P("C23","Group information tells exactly which component types are stored together",
  "Borrowing a view with group information, shared or exclusive, gives information for exactly the component types that belong to some group of the world's current layout, whatever the world contains and whatever was registered, cleared or laid out before. The information of several views, added up one by one or query by query in any order and association, has a sum exactly if there is at most one view or all views belong to one family of nested groups; the sum carries group information exactly if it has a grouped view, and adding an empty query changes nothing.",
  ["configurations","histories","inputs"],"all layouts of the bound, all sequences of views and all ways to add them up, any lengths",
  "tests never look at group information; a wrong sum shows only for particular families, orders and mixtures of grouped and ungrouped views",
  [C+"group_info.rs",C+"component_storage.rs",C+"group_layout.rs",W+"mod.rs"],
  [("QueryGroupInfo::add_view/add_query, GroupInfo::add_group",C+"group_info.rs"),("metadata written by set_layout",C+"component_storage.rs")],
  [("group_start/group_end/storage_mask","family, groups and position of a component type",C+"group_info.rs")],
  ["World::borrow_with_group_info","World::borrow_with_group_info_mut","QueryGroupInfo::add_query","QueryGroupInfo::add_view","GroupInfo::add_group"]),
]
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in props: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(props))
