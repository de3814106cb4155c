"""What each check explores. Parameter ids are those of rt::param in the harness crate."""
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ASSUMPTIONS = [
    "rustc's LLVM IR (opt-level 1, overflow and debug assertions on) means what the executor takes it to mean; "
    "sampled paths are replayed on the natively compiled code and must compute the same values",
    "the allocator never fails and returns blocks at distinct, exactly aligned addresses",
    "Z3 4.8.12 answers correctly",
]


def known_findings():
    p = f"{HERE}/known_findings.txt"
    if not os.path.exists(p):
        return set()
    return {l.split("known: ", 1)[1].strip() for l in open(p) if l.startswith("known: ")}


PROPS = {}


def prop(pid, bounds, outside, harnesses, assumptions=()):
    PROPS[pid] = {"bounds": bounds, "outside": outside, "harnesses": harnesses, "assumptions": list(assumptions)}


def H(entry, what, reach, quick=None, thorough=None, **kw):
    return {"entry": entry, "what": what, "reach": reach, "quick": quick or {}, "thorough": thorough or {}, **kw}


# worlds of many entities
LONG = dict(max_steps=400_000_000)
BIG = ("; tuples of 5 to 16 component types in 4 layouts, one entity lacking any one of them; also worlds of 300 and of 65700 entities whose components follow a fixed pattern, then operations at 4 positions "
       "(around 256 or 65536, first and last)")


def big(entry, k, reach):
    return [H(entry, "hundreds of entities", [1, 2, *reach], {2: 300, 1: 2, 4: 255}, {2: 300, 1: 3, 4: 255}),
            H(entry, "more than 65536 entities", [1, 2, *reach] if k else [1, *reach], {2: 65700, 1: k, 4: 4}, {2: 65700, 1: 1, 4: 255}, **LONG)]


# a single large world: 2 entities, 1 operations, 4 layouts
def B(n, k=0, lay=255, **kw):
    return {2: n, 1: k, 4: lay, **{int(a[1:]): b for a, b in kw.items()}}


prop("C01",
     "histories of 7 operations (quick) or 9 (thorough) out of create, create_atomic, extend by two, destroy of any "
     "issued handle, maintain, clear, at most 16 handles, followed by maintain and create; histories of 5 (thorough 6) with components, groups, "
     "set_layout and reset as well; 300 and 65700 entities destroyed in a fixed order, then created again, immediately or deferred",
     "longer histories; exhausted identifiers (C19); concurrent create_atomic (C03)",
     [H("h_c01_hist", "no handle is issued twice or comes back to life", [1, 2], {1: 7}, {1: 9}),
      H("h_c01_hist", "entities with components", [1, 2, 4, 5], {1: 5, 9: 1, 4: 4}, {1: 6, 9: 1, 4: 4}),
      H("h_c01_big", "hundreds of entities", [1], B(300), B(1000)),
      H("h_c01_big", "more than 65536 entities", [1], B(65700), B(65700), **LONG)])
prop("C02",
     "histories of 5 operations (quick) or 7 (thorough) as in C01, then a destroy of a fully symbolic handle "
     "(any 32-bit index and any non-zero 32-bit version), at most 16 issued handles; worlds of 300 and of 65700 entities, "
     "2 and 1 (thorough 3 and 2) out of destroy, destroy and create, create_atomic and maintain at 4 positions",
     "longer histories; more handles in long histories",
     [H("h_c02_hist", "liveness queries against the model", [1, 2], {1: 5}, {1: 7}),
      H("h_c02_hist", "entities with components, reset, set_layout", [1, 2, 4, 5], {1: 4, 9: 1, 4: 4}, {1: 5, 9: 1, 4: 4}),
      H("h_c02_big", "hundreds of entities", [1, 2], {2: 300, 1: 2, 4: 1}, {2: 300, 1: 3, 4: 1}),
      H("h_c02_big", "more than 65536 entities", [1, 2], {2: 65700, 1: 1, 4: 1}, {2: 65700, 1: 2, 4: 1}, **LONG)])

THR = dict(crate="harness_threads")
prop("C03", "a world of up to 2 or 3 entities, any of them destroyed, and up to 1 entity already deferred; two threads of two or three "
     "create_atomic calls, or three of one call, or two beside a thread that reads; every interleaving of their atomic "
     "accesses; at most one spurious failure of a weak compare-exchange per schedule where stated (parameter 1000); then one of five "
     "operations, maintain, create. Parameters: 1 = entities, 2 = deferred, 3 = threads, 4 = calls per thread, 5 = a reader",
     "more threads, calls and spurious failures; memory orderings weaker than sequential consistency; threads that mutate components",
     [H("h_c03_threads", "two threads of two calls", [1], {1: 3, 2: 1, 3: 2, 4: 2}, {1: 4, 2: 2, 3: 2, 4: 2}, **THR),
      H("h_c03_threads", "with a spurious failure", [1], {1: 2, 2: 1, 3: 2, 4: 2, 1000: 1}, {1: 3, 2: 1, 3: 2, 4: 2, 1000: 2}, **THR),
      H("h_c03_threads", "three threads", [1], {1: 3, 2: 1, 3: 3, 4: 1}, {1: 2, 2: 0, 3: 3, 4: 1, 1000: 2}, **THR),
      H("h_c03_threads", "beside a reader", [1, 3], {1: 3, 2: 1, 3: 3, 4: 1, 5: 1}, {1: 2, 2: 1, 3: 3, 4: 2, 5: 1}, **THR),
      H("h_c03_threads", "two threads of three calls", [1], {1: 1, 2: 0, 3: 2, 4: 3}, {1: 3, 2: 1, 3: 2, 4: 3}, **THR)],
     ["atomic accesses are sequentially consistent, and threads switch only at them"])
THR = dict(crate="harness_threads")
# Parameters of the model (harness/src/model.rs): 1 operations, 2 initial entities, 3 mask of component kinds,
# 4 mask of group layouts, 7 indexes recycled at most beforehand.
POP = ("a world with one of 8 group layouts over 4 component types (none, one group, nested chains of two and three "
       "groups, two families); initial entities with every subset of the components and symbolic values; then "
       "create / insert / remove / delete (every non-empty subset, symbolic values) / destroy on any issued handle, or extend "
       "by two, clear and create, deferred creation and insert")
OUT = "more entities, operations, component types or groups than stated per harness"


def P(n, k, kinds=15, lay=255, age=1, **kw):
    return {2: n, 1: k, 3: kinds, 4: lay, 7: age, **{int(a[1:]): b for a, b in kw.items()}}


# A small set of operations on entities created with the first two or three components: param 15 of the model.
HISTL = "; longer histories out of creating entities with 2 or 3 components, 4 inserts, removes and deletes of fixed components, destroy"


def L(k, lay=4, **kw):
    return P(0, k, 7, lay, 0, a15=1, **kw)


prop("C04", POP + HISTL + "; parameters per harness: 1 = operations, 2 = initial entities, 3 = component mask, 4 = layout mask, "
     "7 = indexes recycled before" + BIG, OUT + "; panicking callbacks (C20)",
     [H("h_c04_hist", "components per entity after any history", [1, 40], P(2, 1), P(2, 2)),
      H("h_c04_hist", "more operations", [1, 40], P(1, 2, 15, 0b01000100), P(1, 3, 7, 0b01000100)),
      H("h_c04_hist", "more operations on two nested groups", [1, 40], P(2, 2, 7, 4, 0), P(3, 2, 7, 4)),
      H("h_c04_hist", "more entities", [1, 40], P(4, 1, 7, 4, 0), P(5, 1, 7, 12, 0)),
      H("h_c04_hist", "longer histories", [1, 40], L(6), L(7)),
      H("h_c04_hist", "longer histories with other groups", [1, 40], L(5, 0b11100000), L(6, 0b11100000)),
      H("h_c04_any", "fully symbolic handle", [1, 2, 3], P(2, 0, 15, 0b01110100), P(2, 1, 7, 0b01000100)),
      H("h_c04_any", "fully symbolic handle after an operation", [1, 2, 3, 40], P(1, 1, 7, 0b01010110), P(1, 1)),
      H("h_c04_any", "fully symbolic handle after longer histories", [1, 2, 3, 40], L(4), L(5, 0b01000100)),
      H("h_c04_dup", "tuples naming a component twice", [1], P(2, 0, 7, 0b01010110, 0, a8=1), P(2, 0, a8=2)),
      H("h_c04_arity", "tuples of 5 to 16 types", [1, 2, 3]),
      *big("h_c04_big", 1, [])])
WIDE = ("; also six component types in 6 layouts (two chains of nested groups, a chain and a pair, three pairs, one chain of two, "
        "three or five groups) with 2 to 4 fixed entities, then entities with any of 64 component sets, then insert / remove / delete of one "
        "of 10 tuples or destroy")
prop("C05", POP + HISTL + ", applied to a grouped and an ungrouped world; then 25 query shapes, views, single-entity queries" + WIDE + "; also worlds of 300 and of 65700 entities, then an operation on the former", OUT,
     [H("h_c05_diff", "same answers with and without groups", [1], P(2, 0), P(3, 0)),
      H("h_c05_diff", "after an operation", [1], P(1, 1), P(2, 1)),
      H("h_c05_diff", "more entities", [1], P(3, 0, 7, 0b00101000, 0), P(4, 1, 7, 0b00101000, 0)),
      H("h_c05_diff", "more entities in nested groups, an operation", [1], P(3, 1, 7, 0b100, 0), P(4, 1, 7, 0b100, 0)),
      H("h_c05_diff", "longer histories", [1], L(4, 0b01000110), L(5, 0b11111110)),
      H("h_c05_wide", "six component types, several families of nested groups", [1, 40], {2: 0, 1: 1, 9: 4}, {2: 0, 1: 2, 9: 3}),
      H("h_c05_wide", "six component types, a symbolic entity", [1, 40], {2: 1, 1: 1, 9: 2, 4: 0b100001}, {2: 1, 1: 1, 9: 3}),
      H("h_c05_big", "hundreds of entities", [1, 2], B(300, 1), B(300, 2)),
      H("h_c05_big", "more than 65536 entities", [1], B(65700, 0, 4), B(65700, 1, 4), **LONG)])
prop("C06", POP + HISTL + "; then the query shapes of the harness" + BIG, OUT,
     [H("h_c06_iter", "next, fold, for_each, size_hint", [1], P(2, 0), P(3, 0, 15, 255, 0)),
      H("h_c06_iter", "after an operation", [1, 40], P(1, 1, 15, 255, 0), P(2, 1)),
      H("h_c06_iter", "more entities", [1], P(3, 0, 7, 0b00101000, 0), P(4, 1, 7, 0b00101000, 0)),
      H("h_c06_iter", "more entities in nested groups, an operation", [1, 40], P(3, 1, 7, 0b100, 0), P(4, 1, 7, 0b100, 0)),
      H("h_c06_iter", "longer histories", [1, 40], L(4, 0b11100110), L(6)),
      H("h_c06_mut", "mutable items alias the stored values", [1, 40], P(1, 1), P(2, 1)),
      H("h_c06_mut", "mutable items, more entities", [1], P(3, 0, 7, 0b00111100, 0), P(3, 0)),
      H("h_c06_mut", "mutable items, longer histories", [1, 40], L(4, 0b01000100), L(5, 0b01100110)),
      H("h_c06_bare", "single-part forms", [1, 40], P(2, 1, 7, 0b00111100), P(2, 1)),
      H("h_c06_odd", "repeated components, redundant and contradictory filters", [1], P(2, 0), P(3, 0)),
      H("h_c06_odd", "the same after longer histories", [1, 40], L(4), L(5, 0b01000110)),
      H("h_c06_odd", "the same after an operation", [1, 40], P(1, 1, 15, 0b01000110, 0), P(2, 1, 7)),
      H("h_c06_arity", "tuples of 5 to 16 types", [1, 2]),
      *big("h_c06_big", 0, [])])
prop("C07", POP + HISTL + "; then single-entity queries of any issued handle and of a fully symbolic handle" + BIG, OUT,
     [H("h_c07_one", "contains, get, map agree with the components", [1], P(2, 0), P(3, 0)),
      H("h_c07_one", "after an operation", [1, 40], P(1, 1), P(2, 1)),
      H("h_c07_one", "after longer histories", [1, 40], L(4, 0b01000100), L(5, 0b01100110)),
      H("h_c07_opt", "optional parts", [1, 2, 40], P(2, 1, 15, 0b01001100), P(2, 1)),
      H("h_c07_mut", "mutable items and nested filters", [1, 2, 40], P(2, 1, 7, 0b01111100), P(2, 1)),
      H("h_c07_arity", "tuples of 5 to 16 types", [1, 2, 3]),
      H("h_c07_mut", "the same after longer histories", [1, 2, 40], L(5), L(6)),
      *big("h_c07_big", 0, [])])
prop("C08", POP + HISTL + "; then 27 query shapes, shared and mutable" + WIDE + BIG, OUT,
     [H("h_c08_slice", "slices complete, aligned and available", [1, 2, 3, 4, 5], P(2, 0), P(3, 0)),
      H("h_c08_slice", "after an operation", [1, 2, 3, 4, 5, 40], P(1, 1), P(2, 1)),
      H("h_c08_slice", "longer histories", [1, 2, 3, 4, 5, 40], L(5), L(6, 0b01000100)),
      H("h_c08_slice", "longer histories with other groups", [1, 2, 4, 5, 40], L(4, 0b11101010), L(5, 0b11111111)),
      H("h_c08_slice", "more entities", [1, 2, 3, 4, 5], P(4, 0, 7, 0b00101100, 0), P(4, 1, 7, 0b00101000, 0)),
      H("h_c08_slice", "more entities in nested groups, an operation", [1, 2, 3, 4, 5, 40], P(3, 1, 7, 0b100, 0), P(4, 1, 7, 0b100, 0)),
      H("h_c08_odd", "repeated components, redundant and contradictory filters", [1, 2], P(2, 0), P(3, 0)),
      H("h_c08_odd", "the same after an operation", [1, 2, 40], P(1, 1, 15, 0b01000110, 0), P(2, 1, 7)),
      H("h_c08_wide", "six component types, several families of nested groups", [1, 2, 3, 4, 40], {2: 0, 1: 1, 9: 4}, {2: 0, 1: 2, 9: 3}),
      H("h_c08_wide", "six component types, a symbolic entity", [1, 2, 3, 4, 40], {2: 1, 1: 1, 9: 2, 4: 0b100001}, {2: 1, 1: 1, 9: 3}),
      H("h_c08_arity", "tuples of 5 to 16 types", [1, 2, 3]),
      *big("h_c08_big", 0, [3]),
      H("h_c08_mut", "mutable slices", [1, 40], P(1, 1), P(2, 1)),
      H("h_c08_mut", "mutable slices, more entities", [1], P(3, 0, 7, 0b00101100, 0), P(4, 0, 7, 255, 0)),
      H("h_c08_mut", "mutable slices, longer histories", [1, 40], L(4, 0b01000100), L(5, 0b01100110))])
prop("C09", "any sequence of 3 (quick: 4 without building a world) groups out of the 16 subsets of 4 component types, "
     "listed in different orders and with repetitions; groups of 14 to 17 types out of 76, also listed with repetitions; 62 to 65 groups",
     "other mixtures of groups near the limits",
     [H("h_c09_family", "acceptance", [1, 3], {10: 4, 12: 0, 11: 1}, {10: 5, 12: 0, 11: 1}),
      H("h_c09_family", "accepted layouts work", [1, 2, 3], {10: 3, 1: 0, 2: 0}, {10: 3, 1: 0, 2: 2}),
      H("h_c09_family", "accepted layouts work after an operation", [1, 2, 3, 40], {10: 2, 1: 1, 2: 0}, {10: 3, 1: 1, 2: 0}),
      H("h_c09_typed", "typed interface and builder", [1, 2, 3, 40], {10: 2, 1: 1, 2: 0}, {10: 2, 1: 1, 2: 1}),
      H("h_c09_arity", "16 components are the limit", [1, 2, 3], {}),
      H("h_c09_count", "64 groups are the limit", [1, 2, 3, 4], {})])
prop("C10", POP + HISTL + ", before and after set_layout from any to any layout; also worlds of 300 and of 65700 entities, 3 and 1 pairs of layouts", OUT,
     [H("h_c10_layout", "layout change on a populated world", [1], P(2, 0), P(3, 0)),
      H("h_c10_layout", "operations around a layout change", [1, 40], P(1, 1, 7, 0b01001101, 0, p5=0, p6=0b01101101), P(1, 1, 15, p5=1)),
      H("h_c10_layout", "longer histories around a layout change", [1, 40], L(2, 4, p5=3, p6=0b01001001), L(2, 0b01001101, p5=3)),
      H("h_c10_big", "hundreds of entities", [1, 2, 3], B(300, 0, 69, a6=13, a5=1), B(300, 1, 255, a6=255, a5=1)),
      H("h_c10_big", "more than 65536 entities", [1], B(65700, 0, 4, a6=2, a5=0), B(65700, 0, 255, a6=6, a5=1), **LONG),
      H("h_c10_twice", "repeated layout changes", [1], {3: 7, 4: 0b01001101, 6: 0b01101100}, {}),
      H("h_c10_limit", "layouts of 63 to 66 groups", [1, 2], {}),
      H("h_c10_register", "registration, use of unregistered types", [1], P(1, 0), P(2, 0, 7)),
      H("h_c10_builder", "any 3 (thorough 4) builder calls", [1, 2], {10: 3, 1: 0, 2: 0}, {10: 4, 1: 0, 2: 0})])
prop("C13", "sequences of 5 (thorough 6) borrows, out of 11 kinds of views and queries over 3 types, and releases; "
     "12 self-conflicting queries and borrows nested in running queries; two threads (thorough three) with one of 6 "
     "borrows each, in every interleaving of their atomic accesses", "longer sequences; more types",
     [H("h_c13_seq", "borrow conflicts", [1, 2, 3, 4], {1: 5, 4: 4}, {1: 6, 4: 4}),
      H("h_c13_self", "conflicts within a query", [1], P(1, 0), P(2, 0)),
      H("h_c13_threads", "two threads", [1, 2, 3], {3: 2, 6: 6}, **THR),
      H("h_c13_threads", "three threads", [1, 2, 3], {3: 3, 6: 2}, {3: 3, 6: 4}, **THR)],
     ["in the harness with threads, atomic accesses are sequentially consistent"])
prop("C14", POP + HISTL + ", pending deferred creations; clear or reset; then creations and an operation; 300 entities and up to 300 deferred ones, then 300 more", OUT,
     [H("h_c14_clear", "clear", [1, 2], P(1, 0, 15, 255, p5=1), P(1, 1, 15, p5=2)),
      H("h_c14_clear", "clear with more entities", [1, 2, 40], P(2, 1, 3, 0b100, p5=1), P(3, 1, 3, 0b100, p5=2)),
      H("h_c14_reset", "reset against a new world", [1, 2], P(1, 0, 15, 255, 0, p5=1), P(1, 1, 15, p5=1)),
      H("h_c14_reset", "reset with more entities", [1, 2], P(2, 0, 3, 0b100, p5=2), P(3, 1, 3, 0b100, p5=2)),
      H("h_c14_big", "hundreds of entities", [1, 2], B(300, 0, 68), B(300, 1, 255)),
      H("h_c14_clear", "clear after longer histories", [1, 2, 40], L(1, 0b01000100, p5=1, p6=2), L(1, 0b01000110, p5=1, p6=3)),
      H("h_c14_reset", "reset after longer histories", [1, 2], L(1, 4, p5=1, p6=2), L(1, 4, p5=1, p6=3))])
prop("C15", POP + HISTL + "; then extend by 0 to 3 tuples (up to 11 in one harness) of every type, iterators with and without known length "
     "or with loose size hints, against create one by one; 300 tuples, up to 65700 entities", OUT,
     [H("h_c15_extend", "extend against create", [1, 2, 3], P(1, 0, 7, 0b01101100), P(2, 0)),
      H("h_c15_extend", "all component types", [1], P(0, 0, 15, 255, 0), P(1, 0)),
      H("h_c15_extend", "operations afterwards", [1], P(0, 1, 3, 0b100, 0), P(1, 1, 7, 0b1100)),
      H("h_c15_extend", "longer histories", [1, 2, 3], L(0, 4, a5=3, p6=3), L(1, 0b01000100, a5=3, p6=3)),
      H("h_c15_extend", "loose size hints", [1, 2, 3], P(1, 0, 3, 0b100, 0, a8=4), P(1, 0, 7, 0b1100, 1, a8=4)),
      H("h_c15_big", "hundreds of tuples", [1, 3], B(300, 0, 255, a5=300), B(300, 1, 255, a5=300)),
      H("h_c15_big", "beyond 65536 entities", [1, 3], B(65400, 0, 4, a5=300), B(65400, 1, 255, a5=300), **LONG),
      H("h_c15_extend", "longer iterators", [1, 3], P(0, 0, 1, 2, 0, a5=12), P(0, 0, 3, 6, 0, a5=12, a8=4))])
prop("C16", "none on the values: three fully symbolic handles, two fully symbolic versions", "Debug output",
     [H("h_c16_entity", "equality, order, hash, parts", [1], {}), H("h_c16_version", "order, successor", [1, 2], {})])
prop("C17", "3 operations with indexes out of 6 (thorough 4 out of 5) around the sizes at which the vector grows, symbolic versions and dense indexes, "
     "lookups with fully symbolic handles and raw indexes; growth: any index below 70 (thorough 140) and then any of 20 others",
     "longer histories, indexes above 140",
     [H("h_c17_hist", "sparse vector against a map", [1, 2, 3, 4], {1: 3, 2: 6}, {1: 4, 2: 5}),
      H("h_c17_hist", "longer histories", [1, 2, 3, 4], {1: 4, 2: 3}, {1: 5, 2: 3}),
      H("h_c17_grow", "growth", [1, 2, 3], {2: 70}, {2: 140})])
prop("C11", "drop-tracked values of 4 kinds (1 byte, boxed, zero-sized, over-aligned), 8 group layouts; initial entities "
     "with every subset; then create, insert, remove, delete (every subset), destroy, clear, reset, set_layout, extend, "
     "repeated types in a tuple, replacement through views and queries; up to 10 entities for growth; 300 entities and one operation", OUT + "; panics (C20)",
     [H("h_c11_hist", "each value dropped exactly once, in time; no leak", [1, 2, 3, 4], P(2, 1, 15), P(3, 1, 15)),
      H("h_c11_hist", "more operations", [1, 2, 3, 4], P(1, 2, 7, 0b00010100), P(1, 2)),
      H("h_c11_big", "hundreds of entities", [1, 2], B(300), B(1000)),
      H("h_c11_grow", "growth and shrinking", [1], {2: 11}, {2: 12})])
# in harnesses of other properties, whose assertions are theirs
UB = dict(only=("ub",))
prop("C12", "5 component types (over-aligned, zero-sized over-aligned, 160 bytes, 1 and 3 bytes), 6 layouts; worlds of 0 to 17 "
     "entities (34 for some layouts) of any two alternating component sets, shrunk by any of 5 patterns, relaid out, grown again; components for two of 34 entities (thorough 130) of any index; 14 unusual "
     "safe calls with a fully symbolic handle; the harnesses of C06, C07, C08, C10, C14, C15, C20 and C21 with small populations; every memory access checked against the bounds, lifetime and initialisation of its block",
     "exhausted memory; data races (C03); Debug formatting; pointer provenance and aliasing rules beyond block bounds",
     [H("h_c12_grow", "growth, alignment, slices", [1, 2], {2: 18, 4: 63}, {2: 35, 4: 63}),
      H("h_c12_grow", "layout changes", [1, 2], {2: 5, 4: 255}, {2: 9, 4: 255}),
      H("h_c12_grow", "more entities", [1, 2], {2: 35, 4: 16}, {2: 66, 4: 48}),
      H("h_c12_sparse", "slots allocated in leaps", [1], {2: 34, 4: 5}, {2: 130, 4: 63}),
      H("h_c12_odd", "unusual safe calls", [1], {4: 63}, {4: 63}),
      H("h_c06_iter", "queries after an operation", [1, 40, 41], P(1, 1, 7, 0b01001110, 1), P(2, 1), **UB),
      H("h_c06_mut", "mutable queries", [1], P(2, 0, 15, 0b01110110, 0), P(1, 1), **UB),
      H("h_c07_mut", "single-entity queries", [1], P(1, 1, 7, 0b01000100, 1), P(2, 1), **UB),
      H("h_c08_slice", "slices of queries", [1, 2, 3], P(3, 0, 7, 0b01101100, 0), P(1, 1), **UB),
      H("h_c08_mut", "mutable slices of queries", [1, 40], P(1, 1, 7, 0b01001110, 1), P(2, 1), **UB),
      H("h_c21_view", "views", [1], P(2, 0, 7, 0b01000100, 0), P(1, 1), **UB),
      H("h_c10_layout", "layout change", [1], P(2, 0, 7, 255, 0, p6=0b01101101), P(1, 1), **UB),
      H("h_c10_register", "unregistered types", [1], P(1, 0, 7), P(1, 0), **UB),
      H("h_c14_reset", "reset", [1, 2], P(1, 0, 7, 0b01000100, 0, p5=1), P(1, 1, 7, 255, 0, p5=1), **UB),
      H("h_c15_extend", "extend", [1], P(1, 0, 3, 0b01000100, 1, a8=4), P(1, 0), **UB),
      H("h_c20_call", "panicking callbacks", [1, 2, 3], P(1, 0, 7, 0b01000100), P(1, 0), **UB),
      H("h_c20_drop", "panicking destructors", [1], P(1, 0, 7, 0b01000100), P(1, 0), **UB),
      H("h_c04_arity", "tuples of 5 to 16 types", [1, 2, 3], **UB),
      H("h_c06_arity", "queries of 5 to 16 types", [1, 2], **UB),
      H("h_c10_big", "hundreds of entities", [1, 3], B(300, 0, 5, a6=12, a5=1), B(300, 1, 69, a6=13, a5=1), **UB)])
prop("C20", "a destructor, iterator, closure or unregistered type panics at any point of one operation on up to 2 entities "
     "with every subset of drop-tracked components, 8 group layouts; then queries, another operation, clear",
     OUT + "; two panics at once (abort)",
     [H("h_c20_drop", "a destructor panics", [1, 2, 3, 4, 9], P(1, 0), P(2, 0)),
      H("h_c20_drop", "a destructor panics, more entities", [1, 2, 3, 4, 9], P(2, 0, 7, 0b00100100), P(3, 0, 7, 0b00100100)),
      H("h_c20_call", "iterators, closures and missing registrations panic", [1, 2, 3], P(1, 0, 15, 0b01101100), P(2, 0)),
      H("h_c20_call", "the same, more entities", [1, 2, 3], P(2, 0, 3, 0b00100110), P(3, 0, 7, 0b00000100))])
PAR = dict(crate="harness_par")
prop("C18", POP + HISTL + "; then 12 query shapes consumed in 5 ways (par_for_each, for_each, collect, reduce and count, the two "
     "kinds of ParIter with enumerate, rev, skip, unzip), mutating queries, queries without the entity; 300 entities with at most two stolen halves. 1 to 3 rayon "
     "threads (thorough up to 8); at every join either half runs first and either may count as stolen",
     OUT + "; two pieces running at the same instant (they access disjoint items, which is what is checked); rayon-core's thread pool "
     "is replaced by the stand-in in harness_par/rayon-core, the rest of rayon is the real one",
     [H("h_c18_shared", "same items", [1, 2, 3, 4], P(2, 0), P(2, 0, p8=8, p9=4), **PAR),
      H("h_c18_shared", "after an operation", [1, 2, 3, 4, 40], P(1, 1), P(2, 1, 7), **PAR),
      H("h_c18_shared", "more entities", [1, 2, 3, 4], P(3, 0, 7, 0b00101100, 0), P(4, 0, 7, 0b00101100, 0), **PAR),
      H("h_c18_shared", "more entities of two types", [1, 2, 3, 4], P(5, 0, 3, 4, 0), P(7, 0, 3, 4, 0, p8=8), **PAR),
      H("h_c18_mut", "each item is changed once", [1], P(2, 0), P(2, 1, 7), **PAR),
      H("h_c18_mut", "more entities", [1], P(4, 0, 3, 12, 0), P(6, 0, 3, 12, 0), **PAR),
      H("h_c18_bare", "without the entity", [1], P(2, 0), P(2, 1), **PAR),
      H("h_c18_shared", "longer histories", [1, 2, 3, 4, 40], L(3, 0b01000110), L(4, 0b01100110), **PAR),
      H("h_c18_big", "hundreds of entities, at most two (thorough three) stolen halves", [1], B(300, 0, 68, a11=2), B(300, 0, 68, a11=3), **PAR),
      H("h_c18_mut", "longer histories", [1, 40], L(4, 0b01000100), L(5, 4), **PAR)])
prop("C19", "the allocator with 0 to 3 (thorough 5) indexes left and up to 2 earlier indexes of any version: histories of 6 "
     "(thorough 8) allocations, deferred allocations, recyclings, maintain; a single allocation at any cursor; worlds without free indexes: 3 "
     "(thorough 4) operations; an index recycled at any version three times (thorough 5)",
     "worlds that really hold 2^32 indexes; concurrent exhaustion (the compare-and-swap loops are C03's)",
     [H("h_c19_alloc", "allocator near its limits", [1, 2, 3, 4, 5], {1: 6, 2: 4}, {1: 8, 2: 6}, crate="harness_limits"),
      H("h_c19_cursor", "any cursor", [1, 2, 3], crate="harness_limits"),
      H("h_c19_world", "world without free indexes", [1, 2, 3, 4], {1: 3, 3: 3, 4: 6}, {1: 4, 3: 3, 4: 6}, crate="harness_limits"),
      H("h_c19_version", "versions run out", [1, 2, 3], {1: 3}, {1: 5}, crate="harness_limits")],
     ["the hook puts the allocator into a state that a world would reach after about 2^32 operations"])
HOOKS = {"guard": "cfg sparsey_verif (RUSTFLAGS)",
         "enable": "harness_limits (C19) is built with RUSTFLAGS='--cfg sparsey_verif'; all other checks build /repo without it",
         "source_commits": ["c9ea0900e7875b971693f23a9d4e4c19d6ef3cba"]}
prop("C21", POP + HISTL + "; then the shared views (both ways to borrow) and the exclusive views of any kind: every accessor for every issued "
     "handle and for a fully symbolic one, writes through slices, references, indexing and a symbolic handle; also worlds of 300 and of 65700 entities", OUT + "; Debug output",
     [H("h_c21_view", "views agree with the components", [1, 2, 3, 4], P(2, 0, 15, 0b01100010, 0), P(2, 0)),
      H("h_c21_view", "after an operation", [1, 2, 3, 4, 40], P(1, 1, 7, 0b01000110, 0), P(1, 1)),
      H("h_c21_view", "on reused indexes", [1, 2, 3, 4, 40], P(1, 1, 7, 0b110, 1), P(2, 1, 7, 0b01000110)),
      H("h_c21_view", "more entities", [1, 2, 3, 4], P(3, 0, 7, 0b100, 0), P(4, 0, 7, 0b01000110, 0)),
      H("h_c21_view", "longer histories", [1, 2, 3, 4, 40], L(4), L(5, 0b01000100)),
      H("h_c21_big", "hundreds of entities", [1, 2], B(300, 1, 69), B(300, 2, 69)),
      H("h_c21_big", "more than 65536 entities", [1], B(65700, 0, 4), B(65700, 1, 4), **LONG)])
prop("C22", "histories of 7 operations (quick) or 9 (thorough) out of create, create_atomic, extend by two, destroy of any issued "
     "handle, maintain and reset, at most 16 handles, then creation (immediate or deferred) until no index waits, and one more; 300 and 65700 entities destroyed in a fixed order, then created again, immediately or deferred",
     "longer histories; clear (which gives up the indexes of live entities); indexes retired at the last version (C19)",
     [H("h_c22_reuse", "waiting indexes are used before new ones", [1, 2, 3], {1: 7}, {1: 9}),
      H("h_c22_reuse", "entities with components", [1, 2, 3, 4], {1: 5, 9: 1, 4: 4}, {1: 6, 9: 1, 4: 4}),
      H("h_c22_big", "hundreds of entities", [1], B(300), B(1000)),
      H("h_c22_big", "more than 65536 entities", [1], B(65700), B(65700), **LONG)])
prop("C23", "layouts of up to 2 (thorough 3) of the 16 subsets of 4 component types, changed to another by set_layout, cleared, reset; up to 3 "
     "views in any order with fully symbolic lengths, split at any two points into three queries; two views out of 13 types under layouts of 1 to 64 groups",
     "sums of more than three views; more than one change of the layout",
     [H("h_c23_info", "sums of group information", [1, 2, 3, 4], {10: 2, 11: 1}, {10: 3, 11: 1}),
      H("h_c23_info", "after a change of layout, clear, reset, delete", [1, 2, 3, 5], {10: 1, 11: 5, 5: 1}, {10: 2, 11: 5, 5: 1}),
      H("h_c23_many", "layouts of many groups", [1, 2, 3, 4], {})])
