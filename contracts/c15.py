"""C15: stored results are found again under the name they were stored with"""
import z3
from pyvc.core import Unit, ctx, Unsupported
from pyvc.loader import Obj, StubModule
from pyvc.sym import SymStr, mk
from .model_spec import program, unchanged

ASSUMPTIONS = [
    "numpy.savez_compressed(f, **d) writes d to f, with '.npz' appended unless f ends with it; numpy.load(f) returns what was written to exactly f and raises if there is nothing",
    "posix paths: os.path.isabs(p) iff p starts with '/'; os.path.join(a, b) is b if b is absolute, a+b if a is empty or ends with '/', a+'/'+b otherwise; two paths name different files if they differ as text after this (links and '..' aside; the run-time contract covers them)",
    "numpy round-trips the values of the dictionary (exercised by the run-time contract)",
]
INLINED = True      # no callee is replaced by its contract
EXT = z3.StringVal(".npz")


def zs(x):
    return x._z if isinstance(x, SymStr) else z3.StringVal(x)


def sym(x):
    return isinstance(x, SymStr)


def isabs(p):
    return mk(z3.PrefixOf(z3.StringVal("/"), zs(p)))


def join(a, *rest):
    r = zs(a)
    for b in rest:
        b = zs(b)
        sl = z3.StringVal("/")
        if ctx().branch(z3.PrefixOf(sl, b)):
            r = b
        elif ctx().branch(z3.Or(r == "", z3.SuffixOf(sl, r))):
            r = z3.Concat(r, b)
        else:
            r = z3.Concat(r, sl, b)
    return SymStr(r)


def drop_ext(p):
    """a name without the extension"""
    return z3.If(z3.SuffixOf(EXT, p), z3.SubString(p, 0, z3.Length(p) - 4), p)


class Disk:
    """what was written where, in order"""

    def __init__(self):
        self.writes = []

    def save(self, f, *a, **k):
        if a or not isinstance(f, (str, SymStr)):
            raise Unsupported("savez with positional arrays")
        z = zs(f)
        self.writes.append((z if ctx().branch(z3.SuffixOf(EXT, z)) else z3.Concat(z, EXT), dict(k)))

    def load(self, f, **k):
        for path, d in reversed(self.writes):
            if ctx().branch(path == zs(f)):
                return dict(d)
        raise FileNotFoundError("no such file")


def program_for(disk):
    prog = program(os=StubModule("os", path=StubModule("os.path", isabs=isabs, join=join, sep="/"), sep="/"))
    np = prog.shims["numpy"]
    np.savez_compressed, np.savez, np.load = disk.save, disk.save, disk.load
    return prog.load("clsmethods")


def args(p, nm):
    """arguments as given by the user: name (or none) and suffix (or none)"""
    pos, kw = (), {}
    name, suf = None, z3.StringVal("")
    if p.choose(".name"):
        name = z3.String("path" + nm)
        pos = (SymStr(name),)
    elif p.choose(".none"):
        pos = (None,)
    if p.choose(".suffix"):
        suf = z3.String("suffix" + nm)
        kw["suffix"] = SymStr(suf)
    return pos, kw, name, suf


def model(p):
    o = Obj()
    o.name, o.path = SymStr(z3.String("name")), SymStr(z3.String("folder"))
    return o, dict(o._pv_fields())


def units(modular=True):
    out = []

    def roundtrip(p):
        disk = Disk()
        m = program_for(disk)
        o, before = model(p)
        pos, kw, name, suf = args(p, "")
        d = {"x": object(), "init": object()}
        keep = dict(d)
        if p.choose(".silent"):
            m.save_rdict(o, d, *pos, verbose=False, **kw)
        else:
            m.save_rdict(o, d, *pos, **kw)
        p.prove(len(disk.writes) == 1 and set(disk.writes[0][1]) == set(keep) and all(disk.writes[0][1][k] is keep[k] for k in keep),
                "exactly the given results are written, to one file")
        p.prove(set(d) == set(keep) and all(d[k] is keep[k] for k in keep), "the given results are not modified")
        try:
            r = m.load_rdict(o, *pos, **kw)
        except FileNotFoundError:
            p.prove(False, "the file read is the file that was written under the same name and suffix")
            return
        p.prove(isinstance(r, dict) and set(r) == set(keep) and all(r[k] is keep[k] for k in keep), "the results read are those that were written")
        p.prove(len(disk.writes) == 1, "loading writes nothing")
        unchanged(p, o, before)
    out.append(Unit("save_rdict, then load_rdict", roundtrip, functions=["clsmethods.save_rdict", "clsmethods.load_rdict"]))

    def target(p):
        """where results go: the name without extension, inside the folder of the model unless absolute, plus suffix"""
        disk = Disk()
        m = program_for(disk)
        o, before = model(p)
        pos, kw, name, suf = args(p, "")
        m.save_rdict(o, {"x": 1}, *pos, **kw)
        stem = drop_ext(name if name is not None else z3.Concat(o.name._z, z3.StringVal("_res")))
        full = z3.Concat(join(o.path, SymStr(stem))._z, suf)
        want = z3.If(z3.SuffixOf(EXT, full), full, z3.Concat(full, EXT))
        p.prove(disk.writes[0][0] == want, "results are written to the name without extension, in the folder of the model unless absolute, plus suffix and extension")
    out.append(Unit("save_rdict (target)", target, functions=["clsmethods.save_rdict"]))

    def apart(p):
        """lemma over the target: names that differ by more than the extension, or different suffixes, are different files"""
        folder, a, b, s, t = (z3.String(x) for x in ("folder", "a", "b", "s", "t"))

        def file(n, suf):
            full = z3.Concat(join(SymStr(folder), SymStr(drop_ext(n)))._z, suf)
            return z3.If(z3.SuffixOf(EXT, full), full, z3.Concat(full, EXT))
        sl = z3.StringVal("/")
        if p.choose(".suffixes"):
            p.assume(z3.And(drop_ext(s) != drop_ext(t), z3.Not(z3.SuffixOf(EXT, s)), z3.Not(z3.SuffixOf(EXT, t))))
            f = join(SymStr(folder), SymStr(drop_ext(a)))._z
            # neither suffix nor name supplies the extension
            p.assume(z3.And(z3.Not(z3.SuffixOf(EXT, z3.Concat(f, s))), z3.Not(z3.SuffixOf(EXT, z3.Concat(f, t)))))
            p.prove(file(a, s) != file(a, t), "different suffixes are different files")
        else:
            p.assume(drop_ext(a) != drop_ext(b))
            p.assume(z3.PrefixOf(sl, a) == z3.PrefixOf(sl, b))
            p.assume(z3.And(z3.Not(z3.SuffixOf(EXT, drop_ext(a))), z3.Not(z3.SuffixOf(EXT, drop_ext(b)))))
            fa, fb = (z3.Concat(join(SymStr(folder), SymStr(drop_ext(x)))._z, s) for x in (a, b))
            p.assume(z3.SuffixOf(EXT, fa) == z3.SuffixOf(EXT, fb))
            p.prove(file(a, s) != file(b, s), "names that differ by more than the extension are different files")
    out.append(Unit("different names are different files", apart, functions=[]))
    return out
