"""shims and symbolic model objects shared by the contracts of the simulation functions"""
import z3
from pyvc import arr, core
from pyvc.core import ctx, Unsupported
from pyvc.loader import Program, Obj, StubModule
from pyvc.loops import PList
from pyvc.sym import Int, Real, Bool, SymInt, SymReal, SymBool, SymStr, band, zint, zreal, mk


class Frozen:
    """what dill.dumps returns: the content of the object at that time"""

    def __init__(self, o):
        self.kind = o
        self.fields = dict(o._pv_fields())


class DataFrame:
    """a labelled table: positions, labels of rows and columns"""

    def __init__(self, values=None, index=None, columns=None, **k):
        self.values, self.index, self.columns = values, index, columns
        self._pv_df = True


def program(**shims):
    s = dict(
        dill=StubModule("dill", dumps=lambda o, **k: Frozen(o), loads=lambda f, **k: Obj(**f.fields)),
        pandas=StubModule("pandas", DataFrame=DataFrame),
        tqdm=StubModule("tqdm", tqdm=lambda it, *a, **k: it),
    )
    s.update(shims)
    return Program(shims=s)


def unchanged(p, o, before, label="the model is not modified"):
    after = o._pv_fields()

    def eq(a, b):
        return a is b or (isinstance(a, (bool, int, str)) and type(a) is type(b) and a == b)
    p.prove(set(after) == set(before) and all(eq(after[k], before[k]) for k in before), label,
            detail="changed: %s" % [k for k in after if k not in before or not eq(after[k], before[k])])


def orders():
    """the labels of the variables, and another ordering of them (stand-ins: only compared and passed on)"""
    import numpy
    return numpy.array(["v1", "v2"]), numpy.array(["v2", "v1"])


class Refused(Exception):
    """raised by a contract after the code under contract refused its input"""
