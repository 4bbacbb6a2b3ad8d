#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that ids/titles stay in step with MANIFEST)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

p("C01", "Set operators compute the exact union, intersection and complement",
  "For all time windows (single points, intervals, Rust ranges, multi-interval sets; dates or durations) the results of `|`, `&` and `!` contain a point exactly when set theory says so, whether the operands are passed by value, by reference or through `|=`/`&=`. Touching, overlapping, nested, empty, unbounded and single-tick operands are included, an infinite time point counts as the empty window, and an empty result reports itself as empty.",
  ["inputs"], "all pairs of windows over the whole tick range, every operand kind and operator form",
  "The repository's union tests sample four pairs; its intersection and complementary tests have empty bodies.",
  ["src/ops/union.rs","src/ops/intersect.rs","src/ops/compl.rs","src/ops/range.rs","src/iter/union.rs","src/iter/intersect.rs"],
  [("BitOr/BitAnd/Not impls","src/ops"),("merge state machines","src/iter/union.rs, src/iter/intersect.rs")],
  observe=["TimeWindow::iter of the result","is_empty of the result"])
p("C02", "Every reachable time set is sorted, disjoint, merged and free of empty parts",
  "After any history of operations, the intervals of a time set are in chronological order, non-empty, and separated by at least one missing tick; no part is inverted. Two sets holding the same points are therefore equal and hash alike, whatever histories produced them.",
  ["histories"], "all histories of set operations (construct, |, &, !, collect, truncate, translate, scale, negate; by value and in place)",
  "Needs every operation applied to every output of every other operation; tests apply one or two operations to hand-made values.",
  ["src/wins/timeset.rs","src/ops","src/iter"],
  [("adjacent-interval merging","src/iter/union.rs, src/ops/scaling.rs check_joined_inners, TimeSet::from_iter"),("TimeSet invariant","src/wins/timeset.rs")],
  state=[dict(name="inner interval list",meaning="sorted disjoint intervals",where="src/wins/timeset.rs TimeSet")],
  observe=["TimeSet::iter, ==, Hash"])
p("C03", "Lazy window iterators agree with set theory and keep the iterator contract",
  "Any composition of the iterator combinators union, intersection, complementary, exclusion, translation and scaling yields exactly the intervals of the corresponding set, in chronological order, non-empty and without overlap, and gives the same set as the eager operators. Throughout the iteration the size hint brackets the number of remaining intervals, and an exhausted union, intersection or complementary iterator stays exhausted.",
  ["programs","inputs"], "all expression trees over the combinators and all leaf sets and intervals",
  "The tests never call the iterator module directly; compositions and partially consumed iterators are unreachable by sampling.",
  ["src/iter/union.rs","src/iter/intersect.rs","src/iter/compl.rs","src/iter/excl.rs","src/iter/transl.rs","src/iter/scaling.rs","src/iter/mod.rs"],
  [("two-stream merge state machines","src/iter/union.rs, src/iter/intersect.rs"),("gap iterator","src/iter/compl.rs")],
  observe=["Iterator::next, size_hint, collect, count/last/nth"])
p("C04", "Collecting windows in any order yields their exact union",
  "Collecting any sequence of intervals (unsorted, overlapping, touching, duplicated or empty) or of time sets into a time set produces exactly the union of their points, in canonical form and independent of the order of the sequence.",
  ["inputs"], "all finite sequences of intervals / sets, all permutations",
  "FromIterator has a fast path for sorted input; tests never collect unsorted or empty intervals.",
  ["src/wins/timeset.rs","src/iter/union.rs"],
  [("FromIterator<TimeInterval>, FromIterator<TimeSet>","src/wins/timeset.rs")],
  observe=["collect::<TimeSet<_>>()"])
p("C05", "Containment and overlap agree with point membership",
  "For every pair of windows of any kind, `contains` holds exactly when every point of the right operand belongs to the left one (so every window contains the empty window), and `overlaps` holds exactly when they share at least one point; `overlaps` is symmetric and both agree with the intersection operator.",
  ["inputs"], "all pairs of point/interval/range/set operands",
  "The single containment test probes four points of one set; overlap is never tested.",
  ["src/relns/contain.rs","src/relns/overlap.rs"],
  [("TimeContaining","src/relns/contain.rs"),("TimeOverlapping","src/relns/overlap.rs")],
  observe=["contains","overlaps"])
p("C06", "Equality, hashing and chronological order of windows follow their points",
  "Two windows compare equal exactly when they hold the same points, across all representations, and equal values of one type hash alike. For non-empty windows `<` (`>`) holds exactly when every point of the left operand is strictly before (after) every point of the right one, `<=`/`>=` add equality, `partial_cmp` agrees with all of them, and it is `Equal` exactly when the windows are equal (including empty ones).",
  ["inputs"], "all pairs and triples of windows of any representation",
  "No test compares windows other than by == on two literals.",
  ["src/relns/ordering.rs","src/wins/timeinterval.rs","src/wins/timeset.rs"],
  [("PartialEq/PartialOrd impls","src/relns/ordering.rs"),("derived Hash","src/wins")],
  observe=["==, <, <=, >, >=, partial_cmp, Hash"])
p("C07", "Truncation keeps exactly the requested side and reports changes truthfully",
  "Truncating an interval or a set before (after) a time point removes exactly the points strictly earlier (later) than it and nothing else, whatever the cut point, finite or infinite. The returned flag is true exactly when the set of points changed.",
  ["inputs","histories"], "all windows, all cut points, sequences of truncations",
  "No test calls truncation.",
  ["src/wins/timeinterval.rs","src/wins/timeset.rs"],
  [("TimeTruncation","src/wins/timeinterval.rs, src/wins/timeset.rs")],
  observe=["truncate_before/after result and resulting window"])
p("C08", "Window constructors and descriptive queries describe the actual points",
  "Every constructor (point, interval, before/after, centered, enlarge, ranges, set constructors, negation) yields exactly the documented points, with inverted bounds, or bounds that leave no finite point, yielding the empty window. Emptiness, singleton, boundedness, bounds, convexity, number of convex parts, envelope, is_all and duration agree with those points; an empty window is neither bounded on any side nor 'all'.",
  ["inputs"], "all bounds (finite and infinite) and all windows of any kind",
  "Constructors with infinite or inverted bounds and queries on empty or half-bounded windows are not sampled by the tests.",
  ["src/wins/mod.rs","src/wins/timeinterval.rs","src/wins/timeset.rs","src/ops/range.rs"],
  [("TimeBounds/TimeWindow","src/wins/mod.rs"),("constructors","src/wins/timeinterval.rs, src/wins/timeset.rs"),("range bounds","src/ops/range.rs")],
  observe=["is_empty, is_singleton, is_bounded, lower_bound, upper_bound, convex_count, convex_envelope, is_all, duration"])
p("C09", "Time point arithmetic is exact, saturates to infinity and absorbs infinities",
  "Adding, subtracting, negating and summing durations and timestamps is exact tick arithmetic whenever the result is representable; a result beyond the range becomes the infinity of its sign and an infinite operand absorbs any finite one. Next/previous tick, ordering and the in-place operators are consistent with this arithmetic, infinities are fixed points, and adding opposite infinities is rejected by a panic.",
  ["inputs"], "all pairs of ticks including the extremes and both infinities",
  "Boundary arithmetic at the ends of the 64-bit range is never exercised by the tests.",
  ["src/wins/timevalue.rs","src/wins/timestamp.rs","src/lib.rs"],
  [("Add/Sub/Neg/Sum for TimeValue","src/wins/timevalue.rs"),("Timestamp arithmetic","src/wins/timestamp.rs"),("TimePoint","src/lib.rs")],
  observe=["+, -, +=, -=, sum, just_after, just_before, cmp"])
p("C10", "Translating windows is the exact Minkowski sum or difference",
  "Adding or subtracting a duration, a duration interval or a set of durations to or from points, intervals and sets (dates or durations, also date minus date) yields exactly the set of all pairwise sums or differences, empty for an empty operand; unbounded sides stay unbounded. A bound that leaves the range becomes infinite, and a part that leaves it entirely is dropped from a set, or rejected by a panic where a single interval is due. The in-place operators give the same result as the by-value ones for every window, singletons included.",
  ["inputs"], "all operand pairs, at every scale up to the ends of the range",
  "No test translates a window.",
  ["src/ops/transl.rs","src/iter/transl.rs"],
  [("Add/Sub and assign impls","src/ops/transl.rs"),("lazy translation","src/iter/transl.rs")],
  observe=["resulting window's intervals"])
p("C11", "Scaling durations and duration windows is exact, sign-correct and canonical",
  "Multiplying or dividing a duration by any integer type gives the exact product or truncated quotient, saturating to the infinity of the correct sign, and infinite durations stay infinite under division and non-zero multiplication; float factors give the product or quotient truncated toward zero, exactly wherever a float can hold it and otherwise up to float rounding. Scaling intervals and sets maps bounds the same way (empty stays empty, a bound that leaves the range becomes infinite), swaps them for negative factors, merges parts that meet, and gives identical results by value, in place and with the factor on the left.",
  ["inputs"], "all durations and duration windows times all factors of all 14 numeric types (excluding zero divisors)",
  "No test multiplies or divides anything; factors beyond 64 bits, negative and fractional factors each have their own code path.",
  ["src/ops/scaling.rs","src/iter/scaling.rs"],
  [("per-type Mul/Div macros","src/ops/scaling.rs"),("check_joined_inners","src/ops/scaling.rs")],
  observe=["*, /, *=, /= results"])
p("C12", "Rounding to a period or unit gives the nearest multiple on the right side",
  "For every finite duration or timestamp and positive period, floor is the greatest multiple of the period not after it and ceil the smallest multiple not before it (when representable). Coarsening a duration to years, months, weeks, days, hours, minutes, seconds, millis, micros or nanos gives the multiple of that unit closest to it on the side of zero.",
  ["inputs"], "all finite ticks of both signs, all positive periods, all units",
  "Tests cover nine hand-picked values; wrong rounding shows up only at particular residues of negative values.",
  ["src/wins/timevalue.rs","src/wins/timestamp.rs","src/wins/convert.rs"],
  [("floor/ceil","src/wins/timevalue.rs"),("IntoTimeValue for TimeValue","src/wins/convert.rs")],
  observe=["floor, ceil, years()..nanos()"])
p("C13", "Unit constructors and sub-second accessors are exact and saturate",
  "Building a duration from an integer count of years, months, weeks, days, hours, minutes, seconds or ticks, for every integer type, gives exactly that many ticks (2^30 per second), from millis, micros or nanos the exact value truncated toward zero to a whole tick, and any count beyond the range becomes the infinity of its sign. Whole seconds plus sub-second part (millis, micros, nanos) read back the value to within one nanosecond, and exactly when it is a whole number of nanoseconds, the sub-second part always lying in [0,1s).",
  ["inputs"], "all integer values of all 12 integer types, all units, all ticks",
  "The conversion test checks a few small positive literals; saturation and negative counts are not reached.",
  ["src/wins/timevalue.rs","src/wins/convert.rs"],
  [("from_* constructors","src/wins/timevalue.rs"),("IntoTimeValue macro","src/wins/convert.rs")],
  observe=["as_ticks, as_secs, subsec_*"])
p("C14", "Conversions to and from std and chrono types preserve the instant or duration",
  "Converting durations to and from std and chrono durations, and timestamps to and from chrono date-times of any zone, preserves the value to within one nanosecond each way (exactly, when it is a whole number both of nanoseconds and of ticks) for all values representable on both sides, and preserves order. Durations too large for this crate become the infinity of their sign.",
  ["inputs"], "all representable durations and date-times, both signs, all fixed time-zone offsets",
  "No test converts external values.",
  ["src/wins/timevalue.rs","src/wins/timestamp.rs"],
  [("From impls","src/wins/timevalue.rs, src/wins/timestamp.rs")],
  observe=["From/Into results, to_datetime, to_duration"])
p("C15", "Printed forms denote the value they print",
  "The textual form of a duration parses back, unit by unit, to the same duration within one nanosecond (exactly, when it is a whole number of nanoseconds), with its sign, and infinities print as +oo/-oo. The textual forms of intervals, sets, constraints, graphs and schedules show exactly their parts, in order, with brackets that match open-infinite, singleton and empty windows, and custom date formats print the same fields as chrono would for that instant.",
  ["inputs"], "all durations, timestamps and windows",
  "Tests check a dozen literals; carry between units and rare remainders are not sampled.",
  ["src/wins/format.rs","src/graph/constraints.rs","src/graph/storage.rs","src/graph/scheduler.rs"],
  [("format_duration, Display/Debug impls, format_timeset","src/wins/format.rs")],
  observe=["to_string, {:?}, format_timeset, format_timepoint"])
p("C16", "A time graph always holds the minimal network of the accepted constraints",
  "After every successful addition (single constraint, batch, collected or merged), for every pair of instants the reported time span is exactly the tightest interval implied by all constraints accepted so far: no implied bound is missing and no bound is tighter than implied. This also holds for instants the graph did not contain before, for one-sided and unbounded constraints, and for constraints given in either direction; where implied durations leave the representable range, spans may be wider than implied but never narrower.",
  ["histories"], "all histories of propagate/extend/merge/collect over any number of instants",
  "Propagation correctness depends on the whole matrix state; tests build two three-to-seven-node graphs and assert only the result kind.",
  ["src/graph/propagation.rs","src/graph/storage.rs","src/graph/constraints.rs"],
  [("incremental propagation","src/graph/propagation.rs propagate_lower_bound"),("Floyd-Warshall","src/graph/propagation.rs global_propagation"),("layered matrix index","src/graph/storage.rs")],
  state=[dict(name="bound matrix",meaning="closed matrix of lower bounds",where="src/graph/mod.rs TimeGraph.data")],
  observe=["TimeGraph::timespan, constraint"])
p("C17", "Inconsistency is detected exactly and failures leave the promised state",
  "Adding constraints fails exactly when, together with those already accepted, they admit no assignment of dates, or when a given constraint holds no finite duration. A Recovered failure leaves the graph exactly as it was, a Fatal one leaves it empty (size 0) with no trace of former constraints even if it grows again, and success is reported as Unchanged exactly when neither the size nor any time span changed.",
  ["histories","fault_sequences"], "all histories mixing consistent, redundant, contradictory and empty constraints, self-constraints, growth, and reuse after failures",
  "Tests contain no inconsistent constraint at all.",
  ["src/graph/propagation.rs","src/graph/storage.rs"],
  [("pre-checks in propagate","src/graph/propagation.rs"),("diagonal test in global_propagation","src/graph/propagation.rs"),("result kinds","src/graph/propagation.rs TimePropagation, TimeInconsistencyError")],
  observe=["Result of propagate/extend/merge, then timespan/size"])
p("C18", "The resulting graph does not depend on how constraints were delivered",
  "For every consistent set of constraints, adding them one by one in any order, in one batch, by merging graphs built from any partition, by collecting, or by reversing the direction of a constraint all give graphs with identical time spans. For an inconsistent set every delivery fails.",
  ["inputs","histories"], "all constraint sets, permutations, partitions and directions",
  "Tests use one order and one delivery.",
  ["src/graph/propagation.rs","src/graph/constraints.rs"],
  [("propagate, extend, merge","src/graph/propagation.rs"),("FromIterator/Extend","src/graph/constraints.rs")],
  observe=["TimeGraph::timespan of both graphs"])
p("C19", "Graph lookups and enumerations are complete, consistent and safe",
  "The constraint enumeration lists each constrained pair of distinct instants once with its time span, the enumerations from and to an instant list exactly the distinct instants constrained with it, and a graph rebuilt from the enumeration is identical. Single lookups, instant comparison and distinctness agree with the time spans; size hints always bracket the remaining count; out-of-range instants are answered as unconstrained rather than by a crash.",
  ["inputs","histories"], "all graphs, all instant indexes including out-of-range ones, all iteration states",
  "Tests enumerate one graph and check nothing but the result kind; iterator state and unchecked indexing need arbitrary graphs.",
  ["src/graph/constraints.rs","src/graph/storage.rs"],
  [("TimeConstraintIter/TimeConstraintFromIter","src/graph/constraints.rs"),("unchecked indexing","src/graph/storage.rs")],
  observe=["iter, constraints_from, constraints_to, constraint, timespan, instant_cmp, are_distinct_instants"])
p("C20", "Graph growth, shrinking and reset touch only the instants concerned",
  "Resizing, shrinking and resetting keep every time span between surviving instants exactly, give new instants no constraint at all, and later additions behave as if the removed instants had never been stored. Shrink-to-fit removes exactly the trailing instants that no constraint mentions, shrinking to a size never grows the graph, and reset keeps the size but removes every constraint; an instant or size beyond the capacity is refused by a panic that leaves the graph as it was.",
  ["histories"], "all histories interleaving resize, shrink_to_fit, shrink_to, reset, clone with constraint additions and merges",
  "One test resizes twice before any constraint is added; stale-storage effects need longer histories.",
  ["src/graph/storage.rs"],
  [("layered storage","src/graph/mod.rs"),("resize/shrink/reset","src/graph/storage.rs")],
  state=[dict(name="layered vector",meaning="matrix kept so growing preserves the prefix",where="src/graph/mod.rs TimeGraph.data")],
  observe=["size, timespan"])
p("C21", "The scheduler's agenda holds exactly the dates its constraints support",
  "After every accepted restriction, the slots are exactly the largest sets of dates within the accepted restrictions such that every date of each instant has a supporting date in the slots of every other instant within their time span. Dates out of the range support nothing; hence no representable date of a full assignment is ever lost, and when all restrictions are single intervals the slots are exactly the possible dates.",
  ["histories"], "all consistent graphs and all histories of retain/remove/deadline/startline with interval and multi-interval windows",
  "One test applies a startline and a deadline and checks only the result kinds.",
  ["src/graph/scheduler.rs","src/iter/transl.rs","src/iter/intersect.rs"],
  [("propagate_scheduling","src/graph/scheduler.rs"),("retain/remove/set_deadline/set_startline","src/graph/scheduler.rs")],
  state=[dict(name="schedule",meaning="one slot set per instant",where="src/graph/scheduler.rs TimeScheduler.schedule")],
  observe=["scheduling, schedule, latest_beginning, earliest_ending"])
p("C22", "Scheduler verdicts are truthful and failures leave the agenda untouched",
  "A restriction (retain, remove, deadline, startline) is refused exactly when no full assignment satisfies the graph together with all accepted restrictions and the new one; a refusal is a Recovered failure that leaves every slot unchanged, as does the panic that rejects an unknown instant. Success is reported as Unchanged exactly when no slot changed, cloned schedulers evolve independently, and the earliest-ending and latest-beginning dates match the slots.",
  ["histories","fault_sequences"], "all histories mixing feasible, redundant and infeasible restrictions",
  "No test drives the scheduler into a refusal.",
  ["src/graph/scheduler.rs"],
  [("pre-checks and propagation in retain","src/graph/scheduler.rs"),("set_deadline/set_startline pre-checks","src/graph/scheduler.rs")],
  observe=["Result of retain/remove/set_deadline/set_startline, then schedule()"])
p("C23", "Periodic date sequences are exact progressions obeying the iterator laws",
  "A forward (backward) sequence yields its start date first and then exactly one period later (earlier) each time until the representable range ends, where it stops for good. The aligned variants yield only whole multiples of the period, forward ones starting at the first multiple not before the given date and backward ones within one period of it. Skipping, counting, last and the size hint (both bounds, exactly) agree with stepping one by one from every state, and a non-positive or infinite period or an infinite start is rejected by a panic.",
  ["inputs","histories"], "all start dates, all positive periods, all interleavings of next/nth/size_hint/count/last",
  "No test covers the sequences.",
  ["src/seq/forward.rs","src/seq/backward.rs","src/seq/mod.rs"],
  [("Iterator impls","src/seq/forward.rs, src/seq/backward.rs")],
  observe=["next, nth, count, last, size_hint"])
p("C24", "Serialized time data reads back identical",
  "With the serde feature, serializing any time value, timestamp, interval or set in any serde format (text or binary, self-describing or not, alone or inside other data), and reading it back, gives an equal value with the same bounds and parts, infinities and empty windows included.",
  ["inputs"], "all values of the serializable types",
  "No test serializes anything.",
  ["src/wins/timevalue.rs","src/wins/timestamp.rs","src/wins/timeinterval.rs","src/wins/timeset.rs"],
  [("serde derives","src/wins")],
  observe=["round trips through JSON text, a JSON tree and a compact binary format"])

p("C25", "Lazy combinators read their inputs only as far as needed",
  "Building a union, intersection, complementary, exclusion or translated (by a duration) window iterator, and asking it for its next interval, reads each input at most a few intervals past the one that settles the answer. Hence the combinators work on endless inputs, such as a daily recurring slot, and an intersection (or an exclusion) ends once its (left) input has ended instead of running through the rest of the other. Likewise a union ends at an interval without upper bound.",
  ["inputs"], "all nestings of the combinators over finite and endless ordered window iterators",
  "Every test uses finite inputs, on which reading too far is invisible.",
  ["src/iter/union.rs","src/iter/intersect.rs","src/iter/compl.rs","src/iter/excl.rs","src/iter/transl.rs"],
  [("lazy iterators","src/iter")],
  observe=["number of intervals drawn from each input"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
