"""Everything the proofs take for granted (printed into the evidence)."""
TRUSTED = [
    "pyvc (/verif/pyvc): front end (CPython ast), symbolic execution of the Python subset, call, frame and loop rules",
    "z3",
    "the stated contracts of Python built-ins, numpy functions and praatio namedtuples in pyvc/npx.py",
]
GENERAL = [
    "times are mathematical reals (floating point rounding and NaN are not modelled); np.allclose is modelled exactly over the reals with its default tolerances",
    "termination is not proved: contracts are partial correctness, mutually recursive functions are verified against each other's contracts",
    "objects have the attribute types of the field table in pyvc/vc.py (FIELDS); attributes are not changed from outside the library and not through __dict__",
    "subclasses (shipped or user-defined) do not override the methods under contract",
    "warnings, printing, docstrings, annotations and text of f-strings are dropped by the extraction",
    "chains of `within` are finite (containment has no cycles); decimal numerals and '-'.join of numerals are injective (id and within_path)",
    "entries have no __eq__ of their own, so list.index and `in` on Python lists of entries go by identity",
    "preconditions of the contracts are discharged at calls between functions under contract; at the API boundary they are the stated domain of the property",
]
H = "histories of up to 8 operations on random worlds of at most 3 groups, 4 levels, about 60 entries"
BOUND = {
    "C01": f"group and textgrid construction and re-relation, fusion, children taken from several parents at once ({H})",
    "C02": f"TierMixins/TierGroup append, concat and +, fusion, construction of tiers ({H})",
    "C03": f"TierGroup.re_relate, fusion, set_subset_list taking children from other parents ({H})",
    "C04": "TierGroup construction and re_relate as a whole: nested and misaligned tiers of up to 4 levels and about 60 intervals",
    "C05": "cleanup of interval, tier, group and textgrid on random worlds with gaps",
    "C06": "concatenation of groups, and that construction establishes the preconditions, on random worlds",
    "C07": "fusion of intervals whose kept time already is the same, or whose children equal each other in times and label; the cleanup that follows; histories",
    "C08": "lookups on whole built textgrids (that construction establishes the preconditions)",
    "C09": "AlignedTextGrid.return_textgrid and the names it makes unique, on random textgrids",
    "C10": "AlignedTextGrid._clone_classes and classes of built textgrids, on random hierarchies",
    "C11": "that construction of groups and textgrids establishes the invariant the proofs start from, on random textgrids",
    "C12": "interleave_class and pop_class as a whole, on random textgrids of up to 4 groups with equal and mixed class sets",
    "C14": "refusals of group and textgrid operations (34 kinds of refused call on random worlds, all reachable objects compared)",
    "C15": "nothing further; the bounded search only supplies failing inputs",
    "C16": "nothing further; the bounded search only supplies failing inputs",
    "C17": "nothing further; the bounded search only supplies failing inputs",
    "C18": "that construction of a PolarGrid establishes the preconditions of the proofs, and `band`, on random polar groups",
}


def for_units(done, prop):
    np_ = sorted({n for r in done.values() for n in r["np"]})
    return GENERAL + (["assumed contracts of built-ins used in these proofs: " + ", ".join(np_)] if np_ else [])
