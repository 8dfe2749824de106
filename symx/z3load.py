"""Locates the pre-installed z3 python bindings without exposing the rest of that environment."""
import importlib.util
import os
import sys

_CANDIDATES = ['/opt/veriftools/pyvenv/lib/python3.12/site-packages']


def load():
    if 'z3' in sys.modules:
        return sys.modules['z3']
    for base in _CANDIDATES:
        init = os.path.join(base, 'z3', '__init__.py')
        if os.path.exists(init):
            spec = importlib.util.spec_from_file_location('z3',
                                                          init,
                                                          submodule_search_locations = [os.path.dirname(init)])
            mod = importlib.util.module_from_spec(spec)
            sys.modules['z3'] = mod
            spec.loader.exec_module(mod)
            return mod
    import z3
    return z3
