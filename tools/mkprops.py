"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
S = "src/aligned_textgrid/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": [S + f for f in files],
                          "state": [{"name": n, "meaning": m, "where": S + w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": S + w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})


p("C01", "Neighbour links always mirror list order",
  "For every interval's list of children, every point tier and every top-level interval tier, each entry's following neighbour is the next entry of that list and its previous neighbour the one before, and the ends of the list are marked by a neighbour labelled '#'. This holds after construction and after every public operation that adds, removes, reassigns, fuses or re-relates entries; an entry taken out of such a list keeps no link into it, and every entry of a tier names that tier as the tier it is in.",
  ["inputs", "histories"],
  "All lists of distinct entries of one class with labels other than '#', of any length, and all sequences of public operations on them.",
  "Tests follow links on a few fixed textgrids after single operations; they cannot cover every list length, every position of an edit and every history of edits.",
  ["mixins/mixins.py", "sequences/sequences.py", "sequences/tiers.py", "points/tiers.py"],
  [("PrecedenceMixins.set_fol / set_prev / set_initial / set_final", "mixins/mixins.py"),
   ("InstanceMixins._set_subset_precedence", "sequences/sequences.py"),
   ("SequenceTier.__set_precedence", "sequences/tiers.py"),
   ("SequencePointTier.__set_precedence", "points/tiers.py")],
  [("fol, prev", "neighbour links", "mixins/mixins.py"), ("intier", "the tier an entry is in", "sequences/sequences.py")],
  ["SequenceInterval.fol/prev", "SequencePoint.fol/prev", "SequenceInterval.intier"])

p("C02", "Entry lists stay in time order and neither lose nor duplicate entries",
  "A list of entries (the list itself, a tier, an interval's children) is always in non-decreasing order of start time, whatever order the entries were supplied in. Adding entries keeps every entry that was there, as the same object, and adds each new one exactly once unless an entry equal in times and label is already there; removing an entry takes out exactly one entry, equal in times and label to the one named, and keeps all others in order.",
  ["inputs", "histories"],
  "All lists of entries of one class and all sequences of construction, append, concat, +, assignment, remove and pop.",
  "Order and content must hold for every list length, insertion position (including time 0 and ties) and history; tests use a few short ordered lists.",
  ["sequence_list.py", "mixins/tiermixins.py", "sequences/tiers.py", "points/tiers.py"],
  [("SequenceList.__init__ / _sort", "sequence_list.py"), ("SequenceList.append", "sequence_list.py"),
   ("SequenceList.__add__ / concat", "sequence_list.py"), ("SequenceList.remove / pop / __contains__", "sequence_list.py")],
  [("_values", "the entries, in order", "sequence_list.py")],
  ["SequenceList iteration", "SequenceTier iteration", "SequenceInterval.subset_list"])

p("C03", "Parent and child relations are mutual and exclusive",
  "An interval names another as its parent exactly when it occurs, once, in that parent's list of children, and then it is within that parent. No interval is ever in two parents' lists, and an interval dropped from a parent's list, replaced in it or moved to another parent has no trace of the old relation.",
  ["inputs", "histories"],
  "All pairs and lists of intervals of adjacent classes, and all histories of setting, appending, assigning, removing, moving, fusing and re-relating.",
  "The relation is stored twice and every operation has to update both sides for any previous owner; tests check single operations on fresh objects.",
  ["sequences/sequences.py", "sequence_list.py", "mixins/within.py"],
  [("set_super_instance / set_subset_list / append_subset_list", "sequences/sequences.py"),
   ("remove_from_subset_list / remove_superset", "sequences/sequences.py"),
   ("SequenceInterval.subset_list setter, pop", "sequences/sequences.py"), ("SequenceList.remove", "sequence_list.py")],
  [("super_instance", "parent", "sequences/sequences.py"), ("_subset_list", "children", "sequences/sequences.py")],
  ["SequenceInterval.super_instance", "SequenceInterval.subset_list", "SequenceInterval.within"])

p("C04", "Relating tiers puts every lower interval under exactly one upper one",
  "When tiers of adjacent classes are related in a group, every interval of the lower tier gets exactly one parent: the upper-tier interval it overlaps most. Nothing supplied is dropped from either tier, for tiers whose intervals nest no time or label changes, and gaps are filled only by new empty-labelled intervals which are in the lower tier and have a parent as well.",
  ["inputs"],
  "All pairs (and chains) of tiers of non-overlapping intervals of adjacent classes, with gaps, with upper intervals without children, in any order of supply.",
  "Boundary handling has to be right for every arrangement of gaps and empty parents; tests use two well-formed recordings.",
  ["sequences/tiers.py", "sequences/sequences.py"],
  [("TierGroup.__init__", "sequences/tiers.py"), ("TierGroup._arrange_tiers", "sequences/tiers.py"), ("SequenceInterval.cleanup", "sequences/sequences.py")],
  (), ["TierGroup tiers", "SequenceInterval.super_instance"])

p("C05", "Cleanup fills every gap and changes nothing else",
  "After cleaning up a tier, a group or a textgrid there are no gaps between consecutive intervals of its tiers; after cleaning up an interval its children (if any) cover it from start to end; and after cleaning up a textgrid all its interval groups span the same time. Every interval that was there before is still there with the same times and label, everything added is empty-labelled, and a second cleanup changes nothing.",
  ["inputs", "histories"],
  "All groups of nested tiers with any pattern of gaps and missing children, and all textgrids of such groups with different extents.",
  "Idempotence and preservation are statements over all gap patterns; tests check two or three layouts.",
  ["sequences/sequences.py", "sequences/tiers.py", "aligned_textgrid.py"],
  [("SequenceInterval.cleanup", "sequences/sequences.py"), ("SequenceTier.cleanup / TierGroup.cleanup / _project_up", "sequences/tiers.py"), ("AlignedTextGrid.cleanup", "aligned_textgrid.py")],
  (), ["tier starts/ends/labels"])

p("C06", "Shifting and concatenation move entries rigidly in time",
  "Shifting an interval, point, list, tier, group or textgrid adds the given amount to every start, end and time in it, once, and changes no label, order or relation. Concatenation keeps the left part as it is and places every entry of the right part, shifted once by the end of the left part, after it.",
  ["inputs", "histories"],
  "All trees of intervals, point tiers and groups and all increments, including negative and fractional ones.",
  "Every entry must move exactly once however it is reachable; tests check a few entries and positive increments.",
  ["sequences/sequences.py", "sequence_list.py", "sequences/tiers.py", "points/points.py", "points/tiers.py", "mixins/tiermixins.py", "aligned_textgrid.py"],
  [("_shift", "sequences/sequences.py"), ("SequenceList._shift / concat", "sequence_list.py"), ("SequenceTier._shift, starts/ends setters", "sequences/tiers.py"),
   ("SequencePointTier._shift, times setter", "points/tiers.py"), ("TierGroupMixins.concat", "mixins/tiermixins.py")],
  (), ["start/end/time of every entry"])

p("C07", "Fusion merges exactly two neighbours",
  "Fusing an interval with its following (or previous) neighbour makes it span both, with the label the label function gives for the two labels in time order, and with the children of both, in time order. The neighbour disappears from its tier and its parent, the next interval over becomes the new neighbour, nothing else changes, and at an edge fusion is refused with no change.",
  ["inputs", "histories"],
  "All intervals with a neighbour, at every position, with any numbers of children on both sides, with and without tier and parent, and any label function.",
  "Position, number of children and surrounding structure vary without bound; tests fuse a few intervals.",
  ["sequences/sequences.py"],
  [("fuse_rightwards / fuse_leftwards", "sequences/sequences.py")],
  (), ["start/end/label/fol/prev/subset_list of the fused interval"])

p("C08", "Time lookups and distances are exact",
  "In a tier of non-overlapping intervals, looking up a time returns the index of the interval that starts at or before and ends after that time, and nothing if there is none. In a non-empty point tier the nearest-point lookup returns an index whose point no other point is closer than, the lookups of groups and textgrids give the answers of their tiers in order, and distances between points are the exact differences of their times.",
  ["inputs"],
  "All tiers and all query times, including boundaries, gaps, times outside the tier, time 0 and negative times.",
  "A lookup must be right for every time and every layout; tests sample a handful of times.",
  ["sequences/tiers.py", "points/tiers.py", "points/points.py", "aligned_textgrid.py"],
  [("SequenceTier.get_interval_at_time", "sequences/tiers.py"), ("SequencePointTier.get_nearest_point_index", "points/tiers.py"),
   ("SequencePoint.fol_distance / prev_distance / distance_from", "points/points.py"), ("get_intervals_at_time", "aligned_textgrid.py")],
  (), ["returned indices"])

p("C09", "Export reproduces every tier, entry, time and label",
  "A tier returned for export has one praatio entry per entry of the tier, in order, with the same times and label, under the requested name or the tier's own. The exported textgrid has one tier per tier of the textgrid, in order, with names that are unique, and a tier whose name is not already taken keeps its name.",
  ["inputs"],
  "All textgrids, including ones with duplicate tier names, names that look like generated ones, and any mix of interval and point groups.",
  "Name collisions and arbitrary contents are unbounded; tests export one or two files.",
  ["sequences/tiers.py", "points/tiers.py", "aligned_textgrid.py", "mixins/mixins.py"],
  [("return_tier", "sequences/tiers.py"), ("return_tier", "points/tiers.py"), ("AlignedTextGrid.return_textgrid", "aligned_textgrid.py"), ("return_interval / return_point", "mixins/mixins.py")],
  (), ["praatio Textgrid returned"])

p("C10", "Class hierarchy links are mutual and cloning isolates textgrids",
  "After setting a superset or subset class, the two classes name each other and no other class pair changes; a class can never be made its own superset or subset, and asking for that is refused with no change. Cloned hierarchies have the same names and depth, link only to their own clones, and changing them never changes the originals.",
  ["inputs", "histories"],
  "All pairs of hierarchy classes and all sequences of class settings and clonings.",
  "Mutual recursion between the two setters must close for every previous state of both classes; tests set each link once.",
  ["sequences/sequences.py", "custom_classes.py"],
  [("HierarchyMixins.set_superset_class / set_subset_class", "sequences/sequences.py"), ("clone_class / get_class_hierarchy", "custom_classes.py")],
  (), ["superset_class", "subset_class"])

p("C11", "Containment paths and ids address exactly one object",
  "Every object that is within another occurs in what that other contains, and its index there is its position. The path of an object is the sequence of those indices from the top, following it down from the textgrid leads back to the same object, and so no two objects of one complete textgrid share an id.",
  ["inputs", "histories"],
  "All textgrids of complete hierarchies after any sequence of edits, and every object in them.",
  "Each edit has to keep both directions of containment for all objects; tests look at ids of single objects in fixed files.",
  ["mixins/within.py", "sequences/sequences.py", "sequences/tiers.py", "points/tiers.py", "aligned_textgrid.py"],
  [("WithinMixins.within / contains / within_index / within_path / id", "mixins/within.py"), ("_set_within", "sequences/sequences.py")],
  (), ["within_index", "within_path", "id"])

p("C12", "Adding and removing a hierarchy level leaves the other levels intact",
  "Interleaving a class adds one tier at the requested place in every group that has the named class, with the times of the tier it copies, with its labels or empty ones as asked, and keeps all other tiers' times and labels, with the classes linked through the new one. Popping a class removes its tier and links the classes above and below, and popping an interleaved class restores the tiers there were before.",
  ["inputs", "histories"],
  "All textgrids of complete nested hierarchies, all classes in them, both directions and both label options.",
  "Every position in every hierarchy and any number of groups must work; tests use the word/phone pair.",
  ["aligned_textgrid.py"],
  [("AlignedTextGrid.interleave_class / pop_class / get_class_by_name", "aligned_textgrid.py")],
  (), ["tier_groups", "entry_classes"])

p("C13", "Data frames list every entry with its own values",
  "Converting an object to a data frame gives one row per lowest-level entry below it (or per entry, without subsets), in order, and in every row the columns of each level hold the label, times and id of the interval of that level the entry belongs to.",
  ["inputs"],
  "All intervals, tiers, groups and textgrids of complete hierarchies, with and without subsets.",
  "Row and column completeness is a statement over all structures; tests check row counts of two files.",
  ["outputs/to_dataframe.py"], [("to_df and helpers", "outputs/to_dataframe.py")], (), ["returned polars.DataFrame"])

p("C14", "Refused operations leave everything unchanged",
  "Setting or appending a parent, child, neighbour, entry or tier of a class that does not fit, an interval as its own neighbour, or a list of new times of the wrong length is refused with an exception, and so are fusing at an edge and popping an entry a tier does not have. After a refusal every list, link, class, time and label is as it was before the call.",
  ["inputs", "histories"],
  "All operands of non-matching classes and all states in which the refused call is made.",
  "Atomicity is about every partial update before the exception, in every state; tests check only that the exception is raised.",
  ["mixins/mixins.py", "mixins/tiermixins.py", "sequences/sequences.py", "sequence_list.py", "sequences/tiers.py"],
  [("class checks in set_*/append*/__add__/concat", "sequences/sequences.py"), ("TierMixins.append/__add__/concat, TierGroupMixins._class_check", "mixins/tiermixins.py"),
   ("SequenceList._entry_class_checker", "sequence_list.py")],
  (), ["exceptions, state after them"])

p("C15", "Validation tells the truth about child timing",
  "Validating an interval returns True exactly when it has no children or no times, or when (to numerical tolerance) its first child starts where it starts, its last child ends where it ends and every child ends where the next starts, and it changes nothing.",
  ["inputs"],
  "All intervals with any number of children at any times.",
  "All three conditions must be detected for every number of children and every kind of mismatch; tests try one of each.",
  ["sequences/sequences.py"], [("InstanceMixins.validate", "sequences/sequences.py")], (), ["returned bool"])

p("C16", "Extents are the exact minimum and maximum of the contents",
  "The xmin and xmax of a tier, group or textgrid are attained by some entry in it, and no entry in it starts before xmin or ends after xmax, whatever the order of entries, tiers and groups; empty tiers are ignored in the extents of groups and textgrids.",
  ["inputs"],
  "All tiers, groups and textgrids of intervals and points, with overlapping, unordered or empty parts.",
  "An extent must bound all entries for all contents; tests compare with one known file.",
  ["sequences/tiers.py", "points/tiers.py", "aligned_textgrid.py"],
  [("SequenceTier.xmin/xmax", "sequences/tiers.py"), ("SequencePointTier.xmin/xmax", "points/tiers.py"), ("TierGroup.xmin/xmax, PointsGroup.xmin/xmax", "sequences/tiers.py"), ("AlignedTextGrid.xmin/xmax", "aligned_textgrid.py")],
  (), ["xmin", "xmax"])

p("C17", "Custom classes come with the names, kinds and order asked for",
  "Creating custom classes returns, in the order asked for by name or by index, one new class per entry of the requested order with that name, of point kind exactly for the positions asked for. The interval classes are linked into one hierarchy in the order in which they were named, with fresh top and bottom classes, and no existing class is changed.",
  ["inputs"],
  "All lists of distinct names, all return orders by name or index, and all sets of point positions.",
  "Permutations and positions grow factorially; tests try two or three.",
  ["custom_classes.py"], [("custom_classes", "custom_classes.py")], (), ["returned classes"])

p("C18", "Levels and turning points at the same time are linked to each other",
  "After relating levels and turning points, a level and a turning point that are each other's nearest and at the same time (to numerical tolerance) name each other, a level with no turning point at its time names none, and every level that falls in a range interval has that interval as its range.",
  ["inputs"],
  "All PoLaR textgrids with distinct point times.",
  "Mutual linking must close for every arrangement of points; tests load one file.",
  ["polar/polar_classes.py", "polar/polar_grid.py"],
  [("Levels.set_turning_point / TurningPoints.set_level", "polar/polar_classes.py"), ("PolarGrid._relate_levels_and_points / _relate_levels_and_ranges", "polar/polar_grid.py")],
  (), ["Levels.turning_point", "TurningPoints.level", "Levels.range_interval"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
