#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that long lines stay reviewable)."""
import json, os
I, H, P, C = "inputs", "histories", "programs", "configurations"
props = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": a, "where": b} for a, b in mech],
                     "observe_at": observe, "hook_needed": hook}}
    if state: d["anchors"]["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in state]
    props.append(d)

RAW, INT, SEL, NRM, TIN, TRE, BND = ("src/raw_interval.rs", "src/interval.rs", "src/selection.rs",
    "src/normalize.rs", "src/tine.rs", "src/tine_tree.rs", "src/bound.rs")

p("C01", "Every interval constructor selects exactly the points its bounds describe",
  "Over any finite ordered point type, an interval built by any constructor or conversion (bound pairs, open/closed/half-open forms, one-sided and full forms, a point, the standard range types, an un-normalized interval) contains exactly the points lying between its bounds under their inclusive/exclusive kinds, and no others. Bounds in the wrong order, or bounds with no point strictly between them (including exclusive bounds at the type's extremes), give the empty interval; a half-open form with identical bounds gives that single point. No constructor panics.",
  [I], "all constructors x all bound values of the point type, in particular the type's minimum and maximum, neighbouring values and reversed bounds",
  "Doc examples build a handful of i32 intervals around -3..7; type extremes, neighbouring exclusive bounds and other point types are never built.",
  [INT, RAW, NRM], [("Interval constructors and From impls", "src/interval.rs"), ("RawInterval::new and named constructors", "src/raw_interval.rs"), ("normalization of each bound shape", "src/normalize.rs")],
  ["Interval::contains", "Interval::lower_bound", "Interval::upper_bound", "Interval::is_empty", "Interval::iter"])

p("C02", "Intervals with the same points are the same value",
  "Any two intervals over a finite point type that contain the same points compare equal, hash equally and answer every query identically, no matter which constructors, conversions or set operations produced them; intervals with different points compare unequal. A non-empty interval always reports inclusive finite bounds that are its own first and last points, and an interval without points is always recognised as empty.",
  [I, H], "all pairs of construction recipes (constructors followed by set operations) over finite point types",
  "Tests compare a few constructor pairs; no test compares single-point or point-free intervals reached through exclusive bounds or through operations.",
  [INT, NRM], [("normalizing every constructor and operation result", "src/interval.rs"), ("Normalize::normalize", "src/normalize.rs")],
  ["Interval ==", "Hash", "Interval::is_empty", "Interval::is_degenerate", "Interval::lower_bound", "Interval::upper_bound"])

p("C03", "Interval set operations are exact on points",
  "For any two intervals over a finite point type, the pieces produced by complement, union, intersection and difference together contain exactly the points that set algebra prescribes, no point is produced by two pieces, and every piece is itself a well-formed normalized interval. The overlap test is true exactly when the two intervals share a point.",
  [I], "all pairs of intervals, including empty, single-point, full, adjacent, nested, disjoint ones and ones touching the type's extremes",
  "The un-normalized tests use three fixed endpoints; the interval doc examples have one case per operation and never touch the extremes or empty results.",
  [INT, RAW, NRM], [("Interval::complement/intersect/union/minus/intersects", "src/interval.rs"), ("RawInterval set operations", "src/raw_interval.rs"), ("bound combination", "src/bound.rs")],
  ["results of complement, union, intersect, minus, intersects"])

p("C04", "Interval enclosure is the smallest covering interval",
  "The enclosure of two intervals over a finite point type is the smallest interval containing every point of both (so enclosing with an empty interval changes nothing), and it does not depend on argument order. The closure of an interval is the interval itself.",
  [I], "all pairs of intervals over finite point types",
  "One doc example; enclose tests use fixed endpoints of the un-normalized type only.",
  [INT, RAW, BND], [("Interval::enclose/closure", "src/interval.rs"), ("RawInterval::enclose", "src/raw_interval.rs"), ("least_union/greatest_union", "src/bound.rs")],
  ["Interval::enclose", "Interval::closure"])

p("C05", "Interval queries agree with the interval's points",
  "For every interval over a finite point type, however built, the membership, emptiness, single-point, more-than-one-point, bound, infimum/supremum, size and conversion-to-option queries answer as the set of points dictates: the bounds are the first and last point, the size is their difference, and all of them are absent for the empty interval. Because finite intervals are kept closed, every one is bounded on both sides and closed, none is half-open or half-closed, a non-empty one is not open and is closed on both sides. Two intervals are adjacent exactly when the upper bound of one equals the lower bound of the other.",
  [I, H], "all intervals reachable by constructors and set operations",
  "Doc examples query intervals built directly from closed forms; single-point intervals reached through exclusive bounds or operations are never queried.",
  [INT, RAW, NRM], [("Interval query methods", "src/interval.rs"), ("bound accessors", "src/raw_interval.rs")],
  ["Interval::contains/is_empty/is_degenerate/is_proper/is_*open/is_*closed/is_*bounded/size/infimum/supremum/into_non_empty/is_adjacent_to"])

p("C06", "Iterating an interval yields exactly its points, from either end",
  "Iterating an interval over a finite point type yields each of its points exactly once, in increasing order from the front and decreasing order from the back; for any interleaving of front and back steps the two ends meet without skipping, repeating or inventing a point, and an exhausted iterator stays exhausted. Borrowed and owned iteration agree, including for intervals that reach the type's minimum or maximum.",
  [I, H], "all intervals x all interleavings of next/next_back calls",
  "Two doc examples iterate (3,7) in one direction only; no test mixes ends, reaches an extreme or iterates a point-free interval.",
  [INT], [("Interval Iter next/next_back", "src/interval.rs")],
  ["Interval::iter", "IntoIterator for Interval and &Interval"],
  state=[("inner", "the part of the interval not yet yielded", "src/interval.rs Iter")])

p("C07", "Selection set operations are exact on points",
  "For any two selections over a finite point type, however they were built, the complement, union, intersection and difference are the selections containing exactly the points set algebra prescribes, and the overlap test is true exactly when a point is shared. The operands are left unchanged.",
  [I, H], "all pairs of selections with any number of pieces, produced by any history of operations",
  "Tests and doc examples only combine single-interval selections; nothing combines two multi-piece selections or feeds the result of one operation into another.",
  [SEL, TRE, TIN], [("Selection::complement/intersect/union/minus/intersects", "src/selection.rs"), ("TineTree whole-tree operations", "src/tine_tree.rs"), ("boundary merging", "src/tine.rs")],
  ["Selection::contains", "Selection::iter", "Selection::interval_iter", "Selection::intersects"])

p("C08", "In-place selection edits behave like edits of a set of points",
  "Starting from any selection, after every step of any sequence of in-place unions, intersections and differences with arbitrary intervals the selection contains exactly the points an ordinary set would contain after the same steps. No step panics, and the state it leaves accepts any further step.",
  [H, I], "all finite histories of in-place edits with all intervals of the point type",
  "Tests apply one edit to a one-interval selection; the structure has to be valid after every prefix of every edit history.",
  [SEL, TRE, TIN, NRM], [("Selection::*_in_place", "src/selection.rs"), ("TineTree::*_in_place and split helpers", "src/tine_tree.rs"), ("denormalize before insert", "src/normalize.rs")],
  ["Selection::contains", "Selection::interval_iter", "Selection::iter"],
  state=[("tree of boundary markers", "ordered interval boundaries of the current set", "src/tine_tree.rs")])

p("C09", "Selections with the same points are the same value",
  "Two selections over a finite point type that contain the same points compare equal, hash equally and answer every query identically, whatever histories of construction, in-place edits and set operations produced them; selections with different points compare unequal. Consequently algebraic identities (double complement, De Morgan, absorption, commutativity, associativity, distributivity, difference as intersection with the complement) hold as equalities of values.",
  [H, I], "all pairs of histories that reach the same point set (and pairs that do not)",
  "No test compares selections reached by different routes.",
  [SEL, TRE, NRM], [("derived equality and hash over the tree", "src/selection.rs, src/tine_tree.rs"), ("denormalized storage", "src/selection.rs")],
  ["Selection ==", "Hash"])

p("C10", "A selection lists its maximal intervals in order, from either end",
  "The intervals listed by a selection are non-empty, normalized, in increasing order, pairwise disjoint and not even adjacent (a point of the type lies between neighbours), and together contain exactly the selection's points. The borrowed and owned listings agree, reverse listing is the exact reverse, and any interleaving of front and back steps yields each interval exactly once and then stays exhausted.",
  [H, I], "all selections reachable by any history x all interleavings of next/next_back",
  "Doc examples list one or two intervals forward only; reverse and mixed listing are untested, as are selections whose pieces are one point apart.",
  [SEL, TRE], [("IntervalIter/IntoIntervalIter", "src/selection.rs"), ("tree Iter/IntoIter with saved boundaries", "src/tine_tree.rs")],
  ["Selection::interval_iter", "Selection::into_interval_iter"])

p("C11", "A selection iterates its points exactly once, from either end",
  "Iterating a selection over a finite point type yields each of its points exactly once, in increasing order from the front and decreasing order from the back; under any interleaving of front and back steps the fronts stay increasing, the backs stay decreasing, they never cross, nothing is skipped or repeated, and an exhausted iterator stays exhausted. Borrowed and owned iteration agree.",
  [H, I], "all selections x all interleavings of next/next_back calls",
  "No test iterates the points of a selection with more than one piece, backwards, or from both ends.",
  [SEL, INT, TRE], [("Selection Iter/IntoIter", "src/selection.rs"), ("Interval Iter", "src/interval.rs")],
  ["Selection::iter", "IntoIterator for Selection and &Selection"],
  state=[("current", "the interval being walked", "src/selection.rs Iter/IntoIter")])

p("C12", "Selection queries agree with the selection's points",
  "For every selection over a finite point type, however reached: membership, emptiness and fullness answer as the set of points dictates; the lower and upper bound are inclusive at its first and last point and absent only when it is empty; the enclosure and the closure are the interval from its first to its last point. Every selection is bounded on both sides; infimum and supremum depend only on the points and are the extreme point or its outer neighbour, absent only when the selection is empty or reaches that end of the type.",
  [H, I], "all selections reachable by any history x all query methods and probe points",
  "Doc examples query single-interval selections of i32; emptiness and fullness after operations, closure, and type extremes are untested.",
  [SEL, TRE], [("Selection query methods", "src/selection.rs"), ("TineTree::enclose/closure/is_full/contains", "src/tine_tree.rs")],
  ["Selection::contains/is_empty/is_full/lower_bound/upper_bound/infimum/supremum/enclose/closure/is_*bounded"])

p("C13", "Building a selection from a collection gives the union, in any order",
  "A selection collected from any sequence of points, collected from or extended by any sequence of intervals, or converted from one interval contains exactly the union of what was supplied, and the result is the same value for every ordering, duplication and grouping of the input, including empty intervals in it. A selection built from the points or intervals of another selection equals it.",
  [I, H], "all sequences of points and of intervals, with permutations, duplicates and splits",
  "No test collects more than one item; order independence quantifies over permutations.",
  [SEL, TRE], [("FromIterator/Extend/From impls", "src/selection.rs"), ("union_in_place", "src/tine_tree.rs")],
  ["Selection::from_iter", "Selection::extend", "Selection::from"])

p("C14", "Normalizing and denormalizing never change which points are selected",
  "For every un-normalized interval over a finite point type, normalizing it and denormalizing it each keep exactly the same points. Normalizing gives the unique form of that point set (empty, one point, or two inclusive bounds in order), denormalizing a non-empty normalized interval gives its broadest form with no inclusive bound, and both are idempotent and undo each other up to normal form.",
  [I], "all interval shapes x all bound values, including the type's extremes and point types with one or two values",
  "No test calls denormalization directly; only the closed form is reached through selections, and the one-sided forms are never denormalized.",
  [NRM], [("Normalize for RawInterval", "src/normalize.rs")],
  ["RawInterval::normalized/denormalized/normalize/denormalize", "RawInterval::contains"])

p("C15", "Stepping through an integer type is exact and stops at its ends",
  "For every built-in integer type the declared minimum and maximum are the type's own, the successor (predecessor) of a value is the value plus (minus) one, it is absent exactly at the maximum (minimum), and the two undo each other; no value panics.",
  [I], "all values of all twelve built-in integer types",
  "No test calls the stepping operations directly; the extremes are never reached.",
  [NRM], [("std_integer_countable_impl", "src/normalize.rs")],
  ["Finite::pred", "Finite::succ", "Finite::MINIMUM", "Finite::MAXIMUM"])

p("C16", "Un-normalized intervals represent exactly the given bounds",
  "Over any ordered point type, an un-normalized interval built from two bounds contains exactly the points satisfying both bounds, reports those bounds (and their points as infimum and supremum) back, and is reported empty when the bounds are out of order or both exclusive at one point; two bounds at the same point with at least one inclusive give that point. Rebuilding an interval from its reported bounds gives an equal interval, and its closure adds exactly its finite excluded end points.",
  [I], "all bound pairs over any totally ordered point type",
  "Tests use three constants; the statement is for every pair of bounds and every point type.",
  [RAW], [("RawInterval constructors, accessors, contains, closure", "src/raw_interval.rs")],
  ["RawInterval::new/contains/lower_bound/upper_bound/infimum/supremum/is_empty/is_full/closure"])

p("C17", "Un-normalized interval set operations are exact on any ordered line",
  "Over any ordered point type, read as a dense line, the complement, union, intersection and difference of un-normalized intervals contain exactly the prescribed points in disjoint non-empty pieces, the enclosure is the smallest interval containing both operands, and the overlap test is true exactly when the intersection is non-empty. Two intervals are adjacent exactly when an upper bound of one and a lower bound of the other lie at the same point and at least one of them includes it.",
  [I], "all pairs of un-normalized intervals of all eleven shapes, with every relative placement of up to four end points",
  "Tests enumerate shapes but only three relative placements of the end points (nested, left, right), with no coinciding end points of different kind on both sides.",
  [RAW, BND], [("RawInterval set operations", "src/raw_interval.rs"), ("Bound combination and adjacency", "src/bound.rs")],
  ["RawInterval::complement/union/intersect/minus/enclose/intersects/is_adjacent_to"])

p("C18", "Bulk interval operations fold the pairwise ones over the whole sequence",
  "Over any sequence of un-normalized intervals, in any order, the bulk union contains exactly the points of all of them, the bulk intersection exactly the points common to all (everything for no interval), and the bulk enclosure is the smallest interval containing them all (empty for no interval).",
  [I], "all sequences of un-normalized intervals, including empty sequences and sequences with empty or full members",
  "The bulk operations have no tests at all.",
  [RAW], [("RawInterval::union_all/intersect_all/enclose_all", "src/raw_interval.rs")],
  ["RawInterval::union_all/intersect_all/enclose_all"])

p("C19", "Combining bounds matches combining the half-lines they delimit",
  "For any two lower bounds the least-union gives the bound of the union of the two upward half-lines and the greatest-intersect that of their intersection; for any two upper bounds the greatest-union and the least-intersect do the same for downward half-lines, at equal points choosing by inclusion. Each combination is commutative, associative and idempotent; the bound accessors, mapping and kind transfer preserve the kind and the point, and a fallback given as a closure is computed only for the infinite bound.",
  [I], "all pairs and triples of bounds over any ordered point type",
  "The combinations have no direct tests; they are reached only through three fixed endpoint layouts.",
  [BND], [("least/greatest union/intersect, accessors", "src/bound.rs")],
  ["Bound methods"])

p("C20", "Boundary markers merge exactly at their point",
  "A boundary marker of an interval tree records, for its point, whether points just below, at, and just above it are selected; merging two markers at the same point by union, intersection or difference gives the marker for the combined record (or nothing when no boundary remains there), and inverting one negates the record. Markers order by their point with the unbounded lower marker first and the unbounded upper marker last, and an interval's markers are its lower then its upper boundary.",
  [I], "all pairs of boundary markers at the same point, all interval shapes",
  "Markers have no direct tests; combinations with an excluded-point marker are not reached by the tree tests.",
  [TIN], [("Tine::union/intersect/minus/invert/from_raw_interval/Ord", "src/tine.rs")],
  ["Tine methods"])

p("C21", "Interval-tree edits are exact after every step of any history",
  "Starting from an empty or any other un-normalized interval tree over any ordered point type read as a dense line, after every step of any sequence of in-place unions, intersections and differences with arbitrary intervals the tree contains exactly the points set algebra prescribes, and no step panics.",
  [H, I], "all finite histories of in-place edits with intervals of all eleven shapes, with coinciding end points",
  "Tests apply one edit to a one-interval tree in three relative placements, plus a few fixed aggregation sequences.",
  [TRE, TIN], [("union/intersect/minus_in_place, split helpers", "src/tine_tree.rs"), ("boundary merging", "src/tine.rs")],
  ["TineTree::contains", "TineTree::interval_iter"],
  state=[("ordered set of boundary markers", "boundaries of the selected points", "src/tine_tree.rs")])

p("C22", "Whole-tree operations and queries are exact",
  "For any two un-normalized interval trees over any ordered point type read as a dense line, complement, union, intersection and difference contain exactly the prescribed points and leave the operands unchanged. Membership, emptiness, fullness, the overall bounds, the enclosure (smallest covering interval) and the closure of a tree agree with its points.",
  [H, I], "all pairs of trees with any number of pieces, reached by any history",
  "Tests combine one-interval trees; complement, enclosure and multi-piece intersections are untested.",
  [TRE, TIN], [("complement/intersect/union/minus/enclose/closure", "src/tine_tree.rs")],
  ["TineTree::complement/intersect/union/minus/contains/is_empty/is_full/enclose/closure/lower_bound/upper_bound"])

p("C23", "An interval tree lists its maximal pieces in order, from either end",
  "The intervals listed by an un-normalized interval tree are non-empty, in increasing order, and maximal (no two could be joined without adding a point), so trees with the same points list the same intervals and compare and hash equal whatever history built them. Collecting intervals in any order gives the tree of their union. Borrowed and owned listings agree and any interleaving of front and back steps yields each interval exactly once, then stays exhausted.",
  [H, I], "all trees reachable by any history x all interleavings of next/next_back; all orderings of collected intervals",
  "Tests list trees forward only and compare as unordered sets.",
  [TRE], [("Iter/IntoIter with saved boundaries", "src/tine_tree.rs"), ("FromIterator/From impls", "src/tine_tree.rs")],
  ["TineTree::interval_iter", "IntoIterator for TineTree", "TineTree ==", "Hash"])

p("C24", "Interval text round-trips and malformed text is rejected",
  "Printing any un-normalized interval whose points print as plain numbers and parsing the text back gives an equal interval; text in interval notation parses to exactly the interval it denotes, with out-of-order bounds giving the empty one. Text without interval structure, or with a bound that is neither a number nor infinite, is rejected with an error; no text makes the parser panic.",
  [I], "all intervals of all numeric point types; all strings",
  "Tests round-trip one fixed interval per shape with small i32 constants; negative and extreme numbers and malformed text are never parsed.",
  [RAW], [("Display and FromStr for RawInterval", "src/raw_interval.rs")],
  ["Display", "FromStr"])

p("C25", "Serialized values come back equal",
  "With serialization support enabled, every bound, un-normalized interval, interval, boundary marker, interval tree and selection deserializes from its own serialized form to an equal value that behaves identically. An interval deserialized from any serialized un-normalized interval is normalized, that is, equal to the interval built from those bounds.",
  [I, C, H], "all values of all serializable types reached by any history, with the serde feature on",
  "No test exercises the serialization feature; it is only type-checked.",
  [BND, RAW, INT, TIN, TRE, SEL], [("serde derives", "src/*.rs")],
  ["serde Serialize/Deserialize"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in props: f.write(json.dumps(d, ensure_ascii=False) + "\n")
