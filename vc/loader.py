"""Load the real modules of /repo, either against real numpy (concrete runs) or against the symbolic stand-ins.

The text that is executed is always the file in /repo, unchanged; only what its import statements resolve to differs."""
import ast, builtins, importlib, math, os, sys, types
from fractions import Fraction as F
from . import sym, nparr
from .sym import Unsupported

REPO = os.environ.get("VC_REPO", "/repo")
_code = {}


class _Literals(ast.NodeTransformer):
    """the one reading the extraction imposes on the text: a float literal denotes its decimal value exactly"""
    def visit_Constant(self, n):
        if type(n.value) is float and math.isfinite(n.value):
            return ast.copy_location(ast.Call(ast.Name("__vc_decimal__", ast.Load()), [ast.Constant(repr(n.value))], []), n)
        return n

    def visit_JoinedStr(self, n): return n


def _compile(path, exact=False):
    st = os.stat(path)
    k = (path, st.st_mtime_ns, st.st_size, exact)
    if k not in _code:
        with open(path, encoding="utf8") as f:
            t = f.read()
        if exact:
            t = ast.fix_missing_locations(_Literals().visit(ast.parse(t, path)))
        _code[k] = compile(t, path, "exec", dont_inherit=True)
    return _code[k]


def find(name):
    base = os.path.join(REPO, *name.split("."))
    if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
        return os.path.join(base, "__init__.py"), True
    if os.path.exists(base + ".py"):
        return base + ".py", False
    return None, False


# ---------------------------------------------------------------- stand-ins for third-party modules
class _Any:
    """anything from a module that the evaluator does not model"""
    def __init__(self, name): self.__dict__["_n"] = name
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Any(self._n + "." + n)
    def __call__(self, *a, **k): raise Unsupported("call of " + self._n)
    def __mro_entries__(self, bases): return (object,)


class _AnyModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Any(self.__name__ + "." + n)


class Series:
    _vc_frame = True

    def __init__(self, blocks): self.blocks = blocks
    def _m(self, f): return Series([f(b) for b in self.blocks])
    def __truediv__(self, o): return self._m(lambda b: b / o)
    def __floordiv__(self, o): return self._m(lambda b: b // o)
    def __mul__(self, o): return self._m(lambda b: b * o)
    def __add__(self, o): return self._m(lambda b: b + o)
    def __sub__(self, o): return self._m(lambda b: b - o)
    def astype(self, t): return self._m(lambda b: b.astype(t))
    def map(self, f): raise Unsupported("Series.map")
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("Series." + n)


class DataFrame:
    """a sequence of row blocks, each a dict column -> 1-d array"""
    _vc_frame = True

    def __init__(self, data=None, columns=None, dtype=None, index=None):
        self.__dict__["columns"] = tuple(columns) if columns is not None else ()
        self.__dict__["blocks"] = []
        if index is not None:
            raise Unsupported("DataFrame index")
        if data is None:
            return
        if isinstance(data, dict):
            if columns is None:
                self.__dict__["columns"] = tuple(data)
            self.blocks.append({k: nparr.asarr(v) for k, v in data.items()})
            return
        a = nparr.asarr(data)
        if a.ndim != 2 or a.d[1] != len(self.columns):
            raise ValueError("shape mismatch: %s columns for data %s" % (len(self.columns), a.d))
        self.blocks.append({c: a[:, i] for i, c in enumerate(self.columns)})

    def _cat(self, others):
        r = DataFrame(columns=self.columns)
        for o in [self] + list(others):
            if set(o.columns) != set(r.columns):
                raise Unsupported("frames with different columns")
            r.blocks.extend({k: v.copy() for k, v in b.items()} for b in o.blocks)
        return r

    def append(self, other, ignore_index=False):
        return self._cat(other if isinstance(other, (list, tuple)) else [other])

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.columns:
                raise KeyError(k)
            return Series([b[k] for b in self.blocks])
        raise Unsupported("frame selection")

    def __setitem__(self, k, v):
        if isinstance(v, Series):
            for b, x in zip(self.blocks, v.blocks):
                b[k] = x
        else:
            raise Unsupported("frame assignment")
        if k not in self.columns:
            self.__dict__["columns"] = self.columns + (k,)

    def copy(self, deep=True): return self._cat([])

    def __getattr__(self, n):
        if n in self.__dict__.get("columns", ()):
            return self[n]
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("DataFrame." + n)


def make_pandas():
    m = _AnyModule("pandas")
    m.DataFrame, m.Series = DataFrame, Series

    def concat(frames, ignore_index=False, **k):
        frames = list(frames)
        return frames[0]._cat(frames[1:])
    m.concat = concat
    return m


class _SymMath(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n == "pi":
            return sym.ctx().pi()
        raise Unsupported("math." + n)


def make_math():
    m = _SymMath("math")
    m.inf, m.nan = math.inf, math.nan
    for n in ("sqrt", "cos", "sin", "tan"):
        setattr(m, n, getattr(sym, n))
    m.acos, m.asin, m.fabs = sym.arccos, sym.arcsin, sym.absolute
    m.floor = sym.floor_
    m.ceil = lambda a: sym.neg(sym.floor_(sym.neg(a)))
    m.trunc = sym.trunc_
    m.pow = sym.power
    m.radians = lambda a: sym.div(sym.mul(a, sym.ctx().pi()), 180)
    m.degrees = lambda a: sym.div(sym.mul(a, 180), sym.ctx().pi())

    def hypot(*xs):
        s = F(0)
        for x in xs:
            s = sym.add(s, sym.mul(x, x))
        return sym.sqrt(s)
    m.hypot = hypot
    m.isinf = lambda a: isinstance(sym.num(a), float) and math.isinf(sym.num(a))
    m.isnan = lambda a: isinstance(sym.num(a), float) and math.isnan(sym.num(a))
    m.isfinite = lambda a: not isinstance(sym.num(a), float)

    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        raise Unsupported("math.isclose")
    m.isclose = isclose
    return m


class Tree:
    """one fresh copy of the repository's modules"""

    def __init__(self, symbolic):
        self.symbolic = symbolic
        self.mods = {}
        self.sub = {}
        if symbolic:
            np_, la, rn = nparr.make_numpy()
            self.sub = {"numpy": np_, "numpy.linalg": la, "numpy.random": rn, "pandas": make_pandas(), "math": make_math()}
            for n in ("scipy", "scipy.spatial", "scipy.spatial.transform", "scipy.ndimage", "matplotlib", "matplotlib.pyplot"):
                self.sub[n] = _AnyModule(n)
            self.sub["scipy"].spatial = self.sub["scipy.spatial"]
            self.sub["scipy"].ndimage = self.sub["scipy.ndimage"]
            self.sub["scipy.ndimage"].binary_dilation = nparr.binary_dilation
            self.sub["scipy.ndimage"].generate_binary_structure = nparr.generate_binary_structure
            self.sub["scipy.spatial"].transform = self.sub["scipy.spatial.transform"]
            self.sub["matplotlib"].pyplot = self.sub["matplotlib.pyplot"]
            self.np = np_
        else:
            import numpy
            self.np = numpy
        b = dict(builtins.__dict__)
        b["__import__"] = self._import
        if symbolic:
            b["round"] = _round
            b["float"] = _Float
            b["int"] = _Int
            b["__vc_decimal__"] = F
        self.builtins = b

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"].split(".")
            pkg = pkg[:len(pkg) - (level - 1)]
            name = ".".join(pkg + ([name] if name else []))
        top = name.split(".")[0]
        if top in ("tinygfx", "pyrayt"):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f) and find(name + "." + f)[0]:
                        self.load(name + "." + f)
                return m
            return m if level else self.mods[top]
        if top in self.sub:
            if name not in self.sub:
                raise Unsupported("module " + name)
            return self.sub[name] if fromlist else self.sub[top]
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        parts = name.split(".")
        if len(parts) > 1:
            self.load(".".join(parts[:-1]))
            if name in self.mods:
                return self.mods[name]
        path, ispkg = find(name)
        if path is None:
            raise ModuleNotFoundError(name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else ".".join(parts[:-1])
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        if len(parts) > 1:
            setattr(self.mods[".".join(parts[:-1])], parts[-1], m)
        try:
            exec(_compile(path, self.symbolic), m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        return m

    def __getattr__(self, n):
        where = {"prim": "tinygfx.g3d.primitives", "world": "tinygfx.g3d.world_objects", "csg": "tinygfx.g3d.csg",
                 "ops": "tinygfx.g3d.operations", "rend": "tinygfx.g3d.renderers", "gooch": "tinygfx.g3d.materials.gooch",
                 "color": "tinygfx.g3d.materials.color", "cg": "tinygfx.g3d", "pyrayt": "pyrayt", "core": "pyrayt._pyrayt",
                 "matl": "pyrayt.materials", "comp": "pyrayt.components", "utils": "pyrayt.utils"}
        if n not in where:
            raise AttributeError(n)
        self.load("tinygfx.g3d")
        if where[n].startswith("pyrayt"):
            self.load("pyrayt")
        return self.load(where[n])


def _round(x, n=None):
    if isinstance(x, sym.SReal):
        raise Unsupported("round of a symbolic value")
    return builtins.round(x, n) if n is not None else builtins.round(x)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, F)) or (isinstance(x, sym.SReal) and not isinstance(x, nparr.LaneDim))
    def __eq__(cls, o): return o is cls or o is float
    def __hash__(cls): return hash(float)


class _Float(float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, (sym.SReal, F, int, float)) and not isinstance(x, bool):
            return x
        return float(x)


nparr.KINDS[_Float] = "f"


class _IntMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, (int, nparr.LaneDim))
    def __eq__(cls, o): return o is cls or o is int
    def __hash__(cls): return hash(int)


class _Int(int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, nparr.ndarray) and x.d == ():
            x = x.p[()]
        return sym.trunc_(x) if isinstance(x, (sym.SReal, F)) and not isinstance(x, bool) else int(x, *a)


nparr.KINDS[_Int] = "i"
