"""Mode B: the numba kernels run as the very same Python source, interpreted.

numba's decorators become pass-through before wildwood is imported, so every line of every
kernel is a scheduling and fault point.  numba's per-thread random generator is replaced by
one numpy RandomState per thread with the same algorithm (both are MT19937 seeded alike).
"""
import ast
import operator
import sys
import threading
import types

from . import core

_tls = threading.local()


class _Rand:
    """numba semantics of np.random inside a kernel: one generator per OS thread."""

    @staticmethod
    def _st():
        st = getattr(_tls, "st", None)
        if st is None:
            import numpy as np
            st = _tls.st = np.random.RandomState(12345)
        return st

    def seed(self, s):
        self._st().seed(int(s) & 0xFFFFFFFF)

    def __getattr__(self, k):
        return getattr(self._st(), k)


RAND = _Rand()


def seed_thread(s):
    RAND.seed(s)


class KernelNp:
    """Stands in for ``np`` in kernel modules: ``random``, and the contents of fresh memory."""

    def __init__(self, np):
        self.__dict__["_np"] = np
        self.__dict__["random"] = RAND

    def empty(self, *a, **k):
        return core.soil(self.__dict__["_np"].empty(*a, **k))

    def empty_like(self, *a, **k):
        return core.soil(self.__dict__["_np"].empty_like(*a, **k))

    def __getattr__(self, k):
        return getattr(self.__dict__["_np"], k)


def _bit(a, op, b):
    """numba unifies signed and unsigned words in bit operations; numpy refuses to."""
    f = _OPS[op]
    try:
        return f(a, b)
    except TypeError:
        import numpy as np
        return f(np.uint64(int(a) & 0xFFFFFFFFFFFFFFFF), np.uint64(int(b) & 0xFFFFFFFFFFFFFFFF))


_OPS = {
    "BitOr": operator.or_, "BitAnd": operator.and_, "BitXor": operator.xor,
    "LShift": operator.lshift, "RShift": operator.rshift,
}


class _Bits(ast.NodeTransformer):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        op = type(node.op).__name__
        if op not in _OPS:
            return node
        new = ast.Call(ast.Name("__wwbit__", ast.Load()), [node.left, ast.Constant(op), node.right], [])
        return ast.fix_missing_locations(ast.copy_location(new, node))

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        op = type(node.op).__name__
        if op not in _OPS or not isinstance(node.target, ast.Name):
            return node
        left = ast.copy_location(ast.Name(node.target.id, ast.Load()), node.target)
        val = ast.Call(ast.Name("__wwbit__", ast.Load()), [left, ast.Constant(op), node.value], [])
        new = ast.Assign([node.target], val)
        return ast.fix_missing_locations(ast.copy_location(new, node))


def _hook_source(prefix):
    import builtins
    from importlib.machinery import SourceFileLoader
    builtins.__wwbit__ = _bit
    orig = SourceFileLoader.source_to_code

    def source_to_code(self, data, path, *, _optimization=-1):
        p = path if isinstance(path, str) else bytes(path).decode()
        if p.startswith(prefix) and (b"@jit" in bytes(data) or b"jit(" in bytes(data)):
            tree = _Bits().visit(ast.parse(data, p))
            return compile(tree, p, "exec", dont_inherit=True, optimize=_optimization)
        return orig(self, data, path)

    SourceFileLoader.source_to_code = source_to_code
    # never read code compiled without the transformation
    get = SourceFileLoader.get_code

    def get_code(self, fullname):
        p = self.get_filename(fullname)
        if p.startswith(prefix):
            return self.source_to_code(self.get_data(p), p)
        return get(self, fullname)

    SourceFileLoader.get_code = get_code


def prepare(prefix):
    """Must run before wildwood is imported."""
    _hook_source(prefix)
    import numpy as np
    import numba
    import numba.experimental
    from numba.core.types import abstract

    np._set_promotion_state("weak")
    orig = abstract.Type.__call__

    def call(self, *args):
        try:
            return orig(self, *args)
        except Exception:
            return None

    abstract.Type.__call__ = call

    def passthru(*a, **k):
        if len(a) == 1 and not k and isinstance(a[0], (types.FunctionType, type)):
            return a[0]
        return lambda f: f

    numba.jit = numba.njit = passthru
    numba.experimental.jitclass = passthru
    for n in "float32 float64 uint8 uint16 uint32 uint64 int8 int16 int32 int64 uintp intp".split():
        getattr(numba, n).dtype = np.dtype(n)


def kernel_modules():
    """Modules of wildwood whose source uses numba's decorators (by reading their names)."""
    out = []
    for name, m in list(sys.modules.items()):
        if not name.startswith("wildwood.") or not getattr(m, "__file__", None):
            continue
        names = vars(m)
        src = open(m.__file__).read()
        if "@jit" in src or "@njit" in src or "@numba.jit" in src or "@numba.njit" in src:
            out.append(m)
    return out


def finish():
    """After the import: route the kernels' random numbers to the per-thread generator."""
    import numpy as np
    proxy = KernelNp(np)
    files = set()
    legacy = {id(getattr(np.random, k)): k for k in dir(np.random) if callable(getattr(np.random, k))}
    for m in kernel_modules():
        files.add(m.__file__.rsplit("/", 1)[-1])
        for k, v in list(vars(m).items()):
            if v is np:
                setattr(m, k, proxy)
            elif v is np.random:
                setattr(m, k, RAND)
            elif isinstance(v, types.BuiltinMethodType) and getattr(v, "__self__", None) is np.random.mtrand._rand:
                nm = v.__name__
                setattr(m, k, (lambda nm: lambda *a, **kw: getattr(RAND, nm)(*a, **kw))(nm))
    return files
