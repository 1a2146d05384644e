"""Registry of contracts.  A contract is written once, as a function of a checking context E, and is
used three ways: as proof obligations over the instrumented real source (vpy.sym), as a summary of a
helper at its call sites, and as a run-time assertion on the real package (vpy.rac)."""

CASES = {}
SUMMARIES = {}


class Case:
    def __init__(self, cid, prop, fn, funcs, prove, why, trials, seconds, modular):
        self.id, self.prop, self.fn, self.funcs = cid, prop, fn, funcs
        self.prove, self.why, self.trials, self.seconds, self.modular = prove, why, trials, seconds, modular
        self.module = fn.__module__


def case(prop, funcs, prove=True, why="", trials=200, seconds=12, modular=True):
    """prop: property id or list of ids this contract belongs to"""
    props = [prop] if isinstance(prop, str) else list(prop)

    def d(fn):
        cid = fn.__name__
        assert cid not in CASES, cid
        CASES[cid] = Case(cid, props, fn, [funcs] if isinstance(funcs, str) else list(funcs), prove, why, trials, seconds,
                          modular)
        return fn

    return d


def summary(q, verified_by):
    """specification of helper q, used instead of its body at call sites; verified_by: case id that
    proves the body against it"""

    def d(fn):
        SUMMARIES[q] = (fn, verified_by)
        return fn

    return d


def load_all():
    import importlib
    import os
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("contracts." + f[:-3])
    return CASES


class Discard(Exception):
    """the drawn input is outside the precondition"""


class Stop(Exception):
    """nothing more to check on this path"""


META = ("units", "long_name", "standard_name", "missing_value", "description", "history")
_words = {}


def words(modname):
    """identifier-like string literals of a module of the package: names it may look for in metadata"""
    import ast
    import os
    if modname not in _words:
        out = set(META)
        p = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "geocat", "comp", modname + ".py")
        try:
            for n in ast.walk(ast.parse(open(p).read())):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and 2 < len(n.value) < 24 \
                        and n.value.replace("_", "a").replace(" ", "a").isalnum():
                    out.add(n.value)
        except (OSError, SyntaxError):
            pass
        _words[modname] = sorted(out)
    return _words[modname]
