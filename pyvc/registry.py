"""All contracts, by property."""
import importlib
MODULES = ["c_links", "c_list", "c_tiers", "c_class", "c_within", "c_rel", "c_tierlinks", "c_fuse", "c_polar", "c_grid", "c_shift"]


def all_units():
    out = []
    for m in MODULES:
        out += importlib.import_module(m).units()
    ids = [u.id for u in out]
    assert len(set(ids)) == len(ids), [i for i in ids if ids.count(i) > 1]
    return out


def call_table(units):
    return {(u.recv, u.name): u for u in units if u.assume_at_calls}
