"""C16: caching of parsed models is transparent"""
import z3
from pyvc import arr
from pyvc.core import Unit, ctx, Unsupported
from pyvc.loader import Obj, StubModule
from pyvc.loops import PList
from pyvc.sym import Int, SymInt, SymStr, SymBool, band, zint, mk
from .model_spec import program

ASSUMPTIONS = [
    "parsing is a function of the text of the model file and of the text of the functions file at that time (C07, C08; run-time contract), and returns a new object",
    "copy.deepcopy returns an equal model that shares nothing mutable with the original; cloudpickle.dumps does not change it",
    "the dictionary cached_models is changed by this module only; every entry was put there by reading or parsing (shown: every operation keeps the entries as parsed and shares none of them)",
    "files are read as a whole: the file does not change while it is read",
]
INLINED = True
IZ, BZ, SZ = z3.IntSort(), z3.BoolSort(), z3.StringSort()


def zs(x):
    return x._z if isinstance(x, SymStr) else z3.StringVal(x)


class Fdict:
    """entries of fdict: name -> value; optional: a value that may be absent"""

    def __init__(self, d=None, optional=None):
        self.d, self.opt = dict(d or {}), optional
        self.changed = False

    def _opt(self):
        """decide if the optional entry is there"""
        if self.opt is not None:
            k, has, v = self.opt
            self.opt = None
            if ctx().branch(has):
                self.d[k] = v

    def __getitem__(self, k):
        self._opt()
        return self.d[k]

    def get(self, k, default=None):
        self._opt()
        return self.d.get(k, default)

    def __contains__(self, k):
        self._opt()
        return k in self.d

    def keys(self):
        self._opt()
        return self.d.keys()

    def __iter__(self):
        return iter(self.keys())

    def items(self):
        self._opt()
        return self.d.items()

    def __setitem__(self, k, v):
        self._opt()
        self.d[k] = v
        self.changed = True

    def update(self, *a, **k):
        for x in a:
            for q, v in dict(x).items():
                self[q] = v
        for q, v in k.items():
            self[q] = v

    def pop(self, k, *a):
        self._opt()
        self.changed = True
        return self.d.pop(k, *a)

    def copy(self):
        self._opt()
        return Fdict(self.d)


class Model(Obj):
    """content: (text of the model, is there a functions file, its text)"""

    def __init__(self, content, **k):
        super().__init__(**k)
        self.__dict__["_content"] = content
        self.__dict__["_parts"] = object()
        self.__dict__["_changed"] = False

    def __setattr__(self, k, v):
        if k == "fdict" and isinstance(v, dict):
            v = Fdict(v)
        super().__setattr__(k, v)
        self.__dict__["_changed"] = True


class World:
    def __init__(self, p):
        self.p = p
        F = z3.Function
        self.READ, self.EXISTS, self.DIR = F("READ", SZ, SZ), F("EXISTS", SZ, BZ), F("DIRNAME", SZ, SZ)
        self.NAME = F("MODELNAME", SZ, SZ)
        self.Y, self.HAS, self.FT, self.PATH = F("CACHED_Y", IZ, SZ), F("CACHED_HAS", IZ, BZ), F("CACHED_F", IZ, SZ), F("CACHED_PATH", IZ, SZ)
        self.cache = None
        self.entries = []
        self.put = []
        self.parsed = 0

    # -- the library
    def open(self, path, *a, **k):
        W = self
        if a and a[0] not in ("r", "rt"):
            raise Unsupported("writing files")

        class F:
            def __enter__(s):
                return s

            def __exit__(s, *e):
                return False

            def read(s):
                if not ctx().branch(W.EXISTS(zs(path))):
                    raise FileNotFoundError(2, "No such file")
                return SymStr(W.READ(zs(path)))

            def close(s):
                pass
        if not ctx().branch(W.EXISTS(zs(path))):
            raise FileNotFoundError(2, "No such file")
        return F()

    def exists(self, path):
        return mk(self.EXISTS(zs(path)))

    def dirname(self, path):
        return SymStr(self.DIR(zs(path)))

    def parse(self, mtxt, ffile, verbose=False, debug=False):
        """the text given, and the functions file as it is on disk"""
        self.parsed += 1
        if isinstance(ffile, str) and ffile == "":
            has, ft = z3.BoolVal(False), z3.StringVal("")
        else:
            has, ft = self.EXISTS(zs(ffile)), self.READ(zs(ffile))
        return Model((zs(mtxt), has, ft), mod_name=SymStr(self.NAME(zs(mtxt))))

    def deepcopy(self, o, *a):
        if not isinstance(o, Model):
            raise Unsupported("copy of something else")
        r = Model(o._content, **o._pv_fields())
        f = o._pv_fields().get("fdict")
        if f is not None:
            g = Fdict(f.d, f.opt)
            r.__dict__["fdict"] = g
        r.__dict__["_changed"] = o._changed
        return r

    def copy(self, o):
        r = Model(o._content, **o._pv_fields())
        r.__dict__["_parts"] = o._parts
        return r

    def dumps(self, o, **k):
        if not isinstance(o, Model):
            raise Unsupported("pickle of something else")
        return ("dump", o._content)

    # -- the cache
    def entry(self, i):
        """entry i: a model as it was read (with the path of the file it was first read from)"""
        i = zint(i)
        for j, m in self.entries:
            if z3.eq(j, i):
                return m
        c = (self.Y(i), self.HAS(i), self.FT(i))
        m = Model(c, mod_name=SymStr(self.NAME(self.Y(i))), name=SymStr(self.NAME(self.Y(i))), description=SymStr(self.NAME(self.Y(i))),
                  path=SymStr(self.PATH(i)), debug=False)
        m.__dict__["fdict"] = Fdict(dict(yaml_raw=SymStr(self.Y(i)), model_dump=("dump", c)), ("ffile_raw", self.HAS(i), SymStr(self.FT(i))))
        self.entries.append((i, m))
        return m

    def program(self):
        import types
        g = program(
            copy=StubModule("copy", deepcopy=self.deepcopy, copy=self.copy),
            cloudpickle=StubModule("cloudpickle", dumps=self.dumps),
            os=StubModule("os", path=StubModule("os.path", exists=self.exists, isfile=self.exists, dirname=self.dirname)))
        m = g.load("parser")
        m.__dict__["open"] = self.open
        m.DSGE.parse = staticmethod(self.parse)
        return m


class Cache:
    _pv_symiter = True

    def __init__(self, W, n):
        self.W, self.n, self.extra = W, n, []

    def length(self):
        return self.n + len(self.extra)

    def at(self, i):
        return i

    def __contains__(self, k):
        raise Unsupported("key of the cache")

    def __getitem__(self, k):
        if not isinstance(k, (int, SymInt)):
            raise Unsupported("key of the cache")
        if not ctx().entails(z3.And(zint(k) >= 0, zint(k) < zint(self.n))):
            raise Unsupported("entry of the cache")
        return self.W.entry(k)

    def keys(self):
        return PList(sym=(self.n, lambda i: i))

    def values(self):
        return PList(sym=(self.n, lambda i: self.W.entry(i)))

    def items(self):
        return PList(sym=(self.n, lambda i: (i, self.W.entry(i))))

    def __setitem__(self, k, v):
        self.W.put.append((k, v))
        self.extra.append(v)


def same(c, d):
    return z3.And(c[0] == d[0], c[1] == d[1], z3.Implies(c[1], c[2] == d[2]))


def units(modular=True):
    out = []

    def as_parsed(p, W, m, want, what):
        """model m is as read from texts `want`"""
        if not isinstance(m, Model):
            p.prove(False, what + ": a model")
            return
        p.prove(same(m._content, want), what + " is that of the current content of the files")
        f = m._pv_fields()
        fd = f.get("fdict")
        p.prove(isinstance(fd, Fdict), what + " has a dictionary of its own")
        if not isinstance(fd, Fdict):
            return
        fd._opt()
        d = fd.d
        y = d.get("yaml_raw")
        p.prove(isinstance(y, SymStr) and p.entails(y._z == want[0]), what + " keeps the text it was parsed from")
        if p.branch(want[1]):
            t = d.get("ffile_raw")
            p.prove(isinstance(t, SymStr) and p.entails(t._z == want[2]), what + " keeps the text of the functions file")
        else:
            p.prove("ffile_raw" not in d, what + " has no text of a functions file that does not exist")
        p.prove(set(d) <= {"yaml_raw", "ffile_raw", "model_dump"}, what + " carries no results")
        dump = d.get("model_dump")
        p.prove(isinstance(dump, tuple) and dump[0] == "dump" and p.entails(same(dump[1], want)), what + " can be stored")
        nm = W.NAME(want[0])
        for k in ("name", "description", "mod_name"):
            p.prove(isinstance(f.get(k), SymStr) and p.entails(f[k]._z == nm), what + " is named as in the file")
        p.prove(f.get("debug") is False, what + " is not in debugging mode")
        p.prove(set(f) == {"name", "description", "mod_name", "path", "debug", "fdict"}, what + " carries nothing else", detail=str(sorted(f)))

    def intact(p, W):
        """the invariant of the cache: entries are as parsed, whatever happens to models handed out"""
        for i, m in W.entries:
            p.prove(not m._changed and not m.fdict.changed and not m._pv_fields()["fdict"].changed, "models in the cache are not changed")
        for k, m in W.put:
            if isinstance(m, Model):
                c = m._content
                as_parsed(p, W, m, c, "a model put in the cache")
            else:
                p.prove(False, "models are put in the cache")

    def own(p, W, r):
        ms = [m for _, m in W.entries] + [m for _, m in W.put]
        p.prove(all(r is not m and r._parts is not m._parts and r._pv_fields().get("fdict") is not m._pv_fields().get("fdict") for m in ms if isinstance(m, Model)),
                "the returned model shares nothing with the cache")

    def reading(p):
        W = World(p)
        m = W.program()
        if p.choose(".cache"):
            n = Int("n_cached")
            p.assume(n >= 0)
            m.__dict__["cached_models"] = Cache(W, n)
            W.cache = m.__dict__["cached_models"]
        z = z3.String("mfile")
        p.assume(z3.And(z3.Length(z) > 5, z3.SuffixOf(z3.StringVal(".yaml"), z)))
        mfile = SymStr(z)
        p.assume(W.EXISTS(z))
        ff = z3.Concat(z3.SubString(z, 0, z3.Length(z) - 5), z3.StringVal("_funcs.py"))
        want = (W.READ(z), W.EXISTS(ff), W.READ(ff))
        kw = dict(nocache=bool(p.choose(".nocache"))) if p.choose(".option") else {}
        if p.choose(".verbose"):
            kw["verbose"] = True
        r = m.DSGE.read(mfile, **kw)
        c = m.__dict__.get("cached_models")
        if W.cache is None and isinstance(c, dict):
            W.put += list(c.items())
        else:
            p.prove(c is W.cache, "the cache is kept")
        as_parsed(p, W, r, want, "the model")
        pa = r._pv_fields().get("path")
        p.prove(isinstance(pa, SymStr) and p.entails(pa._z == W.DIR(z)), "the model belongs to the folder it was read from")
        intact(p, W)
        own(p, W, r)
    out.append(Unit("DSGE.read", reading, functions=["parser.DSGE.read", "parser.crawl_cached_models"]))

    def lookup(p):
        W = World(p)
        m = W.program()
        if p.choose(".cache"):
            n = Int("n_cached")
            p.assume(n >= 0)
            m.__dict__["cached_models"] = W.cache = Cache(W, n)
        mt = SymStr(z3.String("mtxt"))
        ft = SymStr(z3.String("ftxt")) if p.choose(".functions") else None
        r = m.crawl_cached_models(mt, ft)
        if r is not None:
            p.prove(isinstance(r, Model) and any(r is e for _, e in W.entries) and p.entails(same(r._content, (mt._z, z3.BoolVal(ft is not None), ft._z if ft is not None else z3.StringVal("")))),
                    "only models of exactly these texts are found")
        p.prove("cached_models" in m.__dict__, "there is a cache afterwards")
        intact(p, W)
    out.append(Unit("crawl_cached_models", lookup, functions=["parser.crawl_cached_models"]))

    def loading(p):
        """models that are loaded from a file of results take nothing out of the cache"""
        W = World(p)
        m = W.program()
        if p.choose(".cache"):
            n = Int("n_cached")
            p.assume(n >= 0)
            m.__dict__["cached_models"] = W.cache = Cache(W, n)
        np = m.np
        y, f = z3.String("stored_y"), z3.String("stored_f")
        d = dict(yaml_raw=SymStr(y), name=SymStr(z3.String("stored_name")), data="DATA", model_dump="DUMP")
        has = bool(p.choose(".functions"))
        if has:
            d["ffile_raw"] = SymStr(f)
        np.load = lambda *a, **k: d
        content = (y, z3.BoolVal(has), f)

        def loads(b):
            if b == "DATA":
                return "table"
            if b == "DUMP":
                if not p.choose(".loads"):
                    raise TypeError("pickle")
                return Model(content, mod_name="?")
            raise Unsupported("pickle")
        m.cpickle.loads = loads
        temp = StubModule("tempfile")

        class Tmp:
            name = SymStr(z3.String("tmpname"))

            def write(s, t):
                p.assume(z3.And(W.EXISTS(s.name._z), W.READ(s.name._z) == zs(t)))

            def close(s):
                pass
        temp.NamedTemporaryFile = lambda *a, **k: Tmp()
        m.os.unlink = lambda *a: None
        imp = m.__dict__["__builtins__"]["__import__"]
        m.__dict__["__builtins__"]["__import__"] = lambda nm, *a, **k: temp if nm == "tempfile" else imp(nm, *a, **k)
        z = z3.String("npzfile")
        r = m.DSGE.load(SymStr(z), force_parse=bool(p.choose(".force")))
        p.prove(isinstance(r, Model) and p.entails(same(r._content, content)), "the model is that of the stored texts")
        pa = r._pv_fields().get("path")
        p.prove(isinstance(pa, SymStr) and p.entails(pa._z == W.DIR(z)), "the model belongs to the folder it was loaded from")
        intact(p, W)
        own(p, W, r)
    out.append(Unit("DSGE.load", loading, functions=["parser.DSGE.load", "parser.crawl_cached_models"]))
    return out
