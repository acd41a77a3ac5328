"""
Load the package under test (its real source files) against the symbolic stand-ins for
numpy / astropy / jax / tinygp.  The source is compiled unmodified except that f-strings are routed
through units.fstr so that text containing symbolic numbers stays comparable.
"""
import ast
import builtins
import importlib
import os
import types

import numpy as _np

from . import npshim, units, num
from .ctx import CTX, SB
from .num import SF
from .npshim import SArr
from .terms import EngineUnsupported

REPO = os.environ.get('VSM_REPO', '/repo')
PKG = 'vspec_vsm'

SAFE = {'typing', 'warnings', 'functools', 'itertools', 'dataclasses', 'collections', 'abc', 'copy', 'enum', 'operator',
        'contextlib', 'logging', 'collections.abc', '__future__', 'numbers', 'string', 're', 'types', 'inspect',
        'textwrap', 'pathlib', 'os', 'sys', 'time', 'fractions', 'bisect', 'heapq', 'random', 'typing_extensions'}


# ------------------------------------------------------------------ builtins
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, SF))

    def __subclasscheck__(cls, c):
        return issubclass(c, (builtins.float, SF))

    def __call__(cls, x=0.0):
        if isinstance(x, units.SText):
            return x.strip().number()
        if isinstance(x, units.SQ):
            return x.as_float()
        if isinstance(x, SArr):
            x = x.item()
        if isinstance(x, SF):
            return x
        if isinstance(x, SB):
            return num.mk(1 if bool(x) else 0)
        return builtins.float(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class SymFloat(metaclass=_FloatMeta):
    fromhex = builtins.float.fromhex


SymFloat.__name__ = SymFloat.__qualname__ = 'float'


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or (isinstance(x, SF) and num.whole(x))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __call__(cls, x=0, *a):
        if a:
            return builtins.int(x, *a)
        if isinstance(x, units.SQ):
            x = x.as_float()
        if isinstance(x, SArr):
            x = x.item()
        if isinstance(x, SB):
            return 1 if bool(x) else 0
        if isinstance(x, SF):
            c = x.p.const_value()
            if c is not None:
                return builtins.int(c)
            return num.s_trunc(x)
        return builtins.int(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class SymInt(metaclass=_IntMeta):
    pass


SymInt.__name__ = SymInt.__qualname__ = 'int'


def sym_str(x=''):
    if isinstance(x, units.SText):
        return x
    if isinstance(x, (SF, units.SQ)):
        return format(x, '')
    return builtins.str(x)


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.str)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.str)

    def __call__(cls, x='', *a, **k):
        return sym_str(x) if not a and not k else builtins.str(x, *a, **k)

    def __eq__(cls, o):
        return o is cls or o is builtins.str

    def __hash__(cls):
        return hash(builtins.str)

    def __getattr__(cls, n):
        return getattr(builtins.str, n)


class SymStr(metaclass=_StrMeta):
    pass


SymStr.__name__ = 'str'


def sym_range(*a):
    return builtins.range(*[num.to_int(x) if isinstance(x, (SF, SArr)) else x for x in a])


def sym_round(x, n=None):
    if isinstance(x, (SF, units.SQ)):
        return x.__round__(n) if n is not None else x.__round__()
    if isinstance(x, SArr):
        return npshim.round_(x, n or 0)
    return builtins.round(x, n) if n is not None else builtins.round(x)


def sym_print(*a, **k):
    pass


# -------------------------------------------------------------- jax, tinygp
class PRNGKey:
    def __init__(self, seed):
        self.seed = seed


class JaxRandom(types.ModuleType):
    def __init__(self):
        super().__init__('jax.random')

    def PRNGKey(self, seed=None, **k):
        return PRNGKey(seed)

    key = PRNGKey

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise EngineUnsupported(f'jax.random.{n}')


class Kernel:
    """tinygp kernel base class"""
    def __call__(self, X1, X2=None):
        x1 = npshim.asarray(X1)
        x2 = x1 if X2 is None else npshim.asarray(X2)
        rows = []
        for a in x1:
            rows.append([self.evaluate(a, b) for b in x2])
        return npshim.asarray(rows)

    def __add__(self, o):
        raise EngineUnsupported('kernel algebra')
    __radd__ = __mul__ = __rmul__ = __add__


class GaussianProcess:
    """the sample of a Gaussian process: an arbitrary (possibly undefined) value per time, a function of
    key, kernel and times only"""
    def __init__(self, kernel, X, *, diag=None, noise=None, mean=None, solver=None, **k):
        self.kernel = kernel
        self.X = npshim.atleast_1d(X)
        self.diag = diag
        self.noise = noise
        self.mean = mean
        hook = getattr(CTX.cur, 'gp_hook', None)
        if hook:
            hook(self)

    def sample(self, key, shape=None):
        ctx = CTX.cur
        if not isinstance(key, PRNGKey):
            raise EngineUnsupported('GP key')
        if shape is not None:
            raise EngineUnsupported('GP sample shape')

        def st(x):
            if isinstance(x, SArr):
                return tuple(st(v) for v in x.a.ravel())
            if isinstance(x, (SF, int, float, _np.integer)):
                p = num.lift(x)
                return p if not isinstance(p, float) else str(p)
            return repr(x)
        kv = tuple(sorted((k, st(v)) for k, v in vars(self.kernel).items()))
        ident = (st(key.seed), st(self.X), kv, st(self.mean if self.mean is not None else 0), type(self.kernel).__name__)
        reg = ctx.__dict__.setdefault('gp_reg', {})
        if reg.get('path') is not ctx.pc:
            reg.clear()
            reg['path'] = ctx.pc
        if ident not in reg:
            n = len(reg) - 1
            out = []
            for i in range(self.X.size):
                name = f'gp{n}.{i}'
                if ctx.choose(name + '.nan', 2) == 1:
                    out.append(float('nan'))
                else:
                    out.append(SF(ctx.declare(name, slo=-1.0, shi=2.0)))
            reg[ident] = out
        ctx.note('gp', self)
        ctx.note('gp.id', list(reg).index(ident))
        ctx.note('gp.sample', list(reg[ident]))
        a = _np.empty((len(reg[ident]),), object)
        for i, v in enumerate(reg[ident]):
            a[i] = v
        return SArr(a, 'f')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise EngineUnsupported(f'GaussianProcess.{n}')


class _Mod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise EngineUnsupported(f'{self.__name__}.{n}')


# --------------------------------------------------------------------- loader
class FTrans(ast.NodeTransformer):
    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        args = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                args.append(v)
            else:
                conv = {-1: None, 115: 's', 114: 'r', 97: 'a'}[v.conversion]
                spec = v.format_spec if v.format_spec is not None else ast.Constant('')
                args.append(ast.Tuple([v.value, ast.Constant(conv), spec], ast.Load()))
        return ast.copy_location(ast.Call(ast.Name('__vsym_fstr__', ast.Load()), args, []), node)


CODE = {}


class Loader:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.np = npshim.NpModule()
        self.np.float64 = self.np.float_ = self.np.double = SymFloat
        self.np.int_ = self.np.int64 = self.np.int32 = self.np.intp = SymInt
        self.np.floating = SymFloat
        self.u = units.UnitsModule()
        self.const = units.ConstModule()
        self.math = npshim.MathModule()
        ap = _Mod('astropy')
        ap.units, ap.constants = self.u, self.const
        uq = _Mod('astropy.units.quantity')
        uq.Quantity = units.SQ
        self.u.quantity = uq
        jnp = npshim.NpModule()
        jnp.__name__ = 'jax.numpy'
        jax = _Mod('jax')
        jax.numpy = jnp
        jax.random = JaxRandom()
        jax.jit = lambda f=None, **k: f if f is not None else (lambda g: g)
        jax.Array = SArr
        self.jnp = jnp
        tk = _Mod('tinygp.kernels')
        tk.Kernel = Kernel
        tg = _Mod('tinygp')
        tg.kernels = tk
        tg.GaussianProcess = GaussianProcess
        npr = self.np.random
        nt = self.np.typing
        self.ext = {'numpy': self.np, 'numpy.random': npr, 'numpy.typing': nt, 'astropy': ap, 'astropy.units': self.u,
                    'astropy.units.quantity': uq, 'astropy.constants': self.const, 'math': self.math, 'jax': jax,
                    'jax.numpy': jnp, 'jax.random': jax.random, 'tinygp': tg, 'tinygp.kernels': tk}
        b = dict(vars(builtins))
        b['__import__'] = self.imp
        b['float'] = SymFloat
        b['int'] = SymInt
        b['str'] = SymStr
        b['range'] = sym_range
        b['round'] = sym_round
        b['print'] = sym_print
        b['__vsym_fstr__'] = units.fstr
        self.builtins = b
        self.functions = {}

    def path(self, name):
        rel = name.replace('.', '/')
        p = os.path.join(self.repo, rel, '__init__.py')
        if os.path.exists(p):
            return p, True
        p = os.path.join(self.repo, rel + '.py')
        if os.path.exists(p):
            return p, False
        return None, False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        p, ispkg = self.path(name)
        if p is None:
            raise ModuleNotFoundError(f"No module named '{name}'")
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
            if name in self.mods:
                return self.mods[name]
        code = CODE.get(p)
        if code is None:
            with open(p) as f:
                src = f.read()
            tree = ast.parse(src, p)
            tree = ast.fix_missing_locations(FTrans().visit(tree))
            code = CODE[p] = compile(tree, p, 'exec')
        m = types.ModuleType(name)
        m.__file__ = p
        m.__dict__['__builtins__'] = self.builtins
        m.__package__ = name if ispkg else name.rsplit('.', 1)[0]
        if ispkg:
            m.__path__ = []
        self.mods[name] = m
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if '.' in name:
            par, ch = name.rsplit('.', 1)
            if par in self.mods:
                setattr(self.mods[par], ch, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals.get('__package__') or globals['__name__']
            for _ in range(level - 1):
                base = base.rsplit('.', 1)[0]
            name = f'{base}.{name}' if name else base
        if name == PKG or name.startswith(PKG + '.'):
            m = self.load(name)
            if fromlist:
                for x in fromlist:
                    if not hasattr(m, x) and self.path(f'{name}.{x}')[0]:
                        self.load(f'{name}.{x}')
                return m
            return self.load(name.split('.')[0])
        if name in self.ext:
            if fromlist:
                return self.ext[name]
            if '.' in name and not fromlist:
                return self.ext[name.split('.')[0]]
            return self.ext[name]
        if name in SAFE or name.split('.')[0] in SAFE:
            return builtins.__import__(name, None, None, fromlist, 0)
        raise EngineUnsupported(f'import {name}')


class Mods:
    """attribute access to the modules of the package"""
    def __init__(self, get):
        self._get = get

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return self._get(n)
