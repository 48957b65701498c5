"""One class per property; see base.Prop."""
import importlib

MODULES = ['cache', 'results', 'bench', 'machine', 'misc', 'ends']
_all = None


def all_props():
    global _all
    if _all is None:
        _all = {}
        for m in MODULES:
            try:
                mod = importlib.import_module('props.' + m)
            except ModuleNotFoundError as e:
                if e.name == 'props.' + m:
                    continue
                raise
            for c in vars(mod).values():
                if isinstance(c, type) and getattr(c, 'ID', None):
                    _all[c.ID] = c
    return _all


def ids():
    return list(all_props())


def get(pid):
    return all_props()[pid]()
