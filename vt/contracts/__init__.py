import importlib, os, pkgutil
def load():
    C = {}
    here = os.path.dirname(os.path.abspath(__file__))
    for m in sorted(x.name for x in pkgutil.iter_modules([here])):
        mod = importlib.import_module("contracts." + m)
        for k, v in mod.C.items():
            assert k not in C, k
            C[k] = v
    return C
