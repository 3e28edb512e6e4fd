"""The kernels' source, run by the interpreter with every index guarded.

The source of empymod/kernel.py is compiled with two changes: numba's
decorators do nothing, and each subscript goes through a guard which refuses
integer indices outside of the array and computed negative ones (literal
negative indices, as x[-1], mean what is written).  np.empty is poisoned.
"""
import ast
import sys
import types

import numpy as np

COUNT = {'index': 0, 'calls': 0}


class OutOfBounds(Exception):
    pass


def _lit(node):
    """Literal negative number, such as -1."""
    return (isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub)
            and isinstance(node.operand, ast.Constant))


class Rewrite(ast.NodeTransformer):
    def visit_Subscript(self, node):
        self.generic_visit(node)
        parts = node.slice.elts if isinstance(node.slice, ast.Tuple) else [
            node.slice]
        lits = ast.Constant(tuple(_lit(p) for p in parts))
        base = node.value
        if not isinstance(base, (ast.Name, ast.Attribute)):
            return node
        copy = ast.parse(ast.unparse(base), mode='eval').body
        call = ast.Call(ast.Name('_guard', ast.Load()),
                        [copy, node.slice, lits, ast.Constant(node.lineno)],
                        [])
        if any(isinstance(p, (ast.Slice, ast.Starred)) for p in parts):
            # Slices cannot be arguments: make them objects.
            new = [ast.Call(ast.Name('slice', ast.Load()), [
                s or ast.Constant(None) for s in (p.lower, p.upper, p.step)],
                []) if isinstance(p, ast.Slice) else p for p in parts]
            call.args[1] = (ast.Tuple(new, ast.Load()) if isinstance(
                node.slice, ast.Tuple) else new[0])
        node.slice = call
        return node


def _guard(x, index, lits, line):
    if not isinstance(x, (np.ndarray, list, tuple)):
        return index
    parts = index if isinstance(index, tuple) else (index,)
    shape = x.shape if isinstance(x, np.ndarray) else (len(x),)
    COUNT['index'] += 1
    if Ellipsis in [p for p in parts if not isinstance(p, np.ndarray)] or any(
            p is None or isinstance(p, np.ndarray) for p in parts):
        return index
    if len(parts) > len(shape):
        raise OutOfBounds(f'line {line}: too many indices')
    for p, n, lit in zip(parts, shape, lits):
        if isinstance(p, slice):
            for b in (p.start, p.stop):
                if b is not None and (b > n or b < -n):
                    raise OutOfBounds(f'line {line}: slice {p} of size {n}')
        elif p >= n or p < (-n if lit else 0):
            raise OutOfBounds(f'line {line}: index {p} of size {n} '
                              f'({"literal" if lit else "computed"})')
    return index


class _Numpy:
    """numpy; fresh memory is poisoned."""

    def __getattr__(self, name):
        return getattr(np, name)

    @staticmethod
    def empty(*a, **k):
        out = np.empty(*a, **k)
        out[...] = np.nan if out.dtype.kind in 'fc' else 2**30
        return out

    @staticmethod
    def empty_like(*a, **k):
        out = np.empty_like(*a, **k)
        out[...] = np.nan if out.dtype.kind in 'fc' else 2**30
        return out


def _fake_numba():
    nb = types.ModuleType('numba')

    def deco(*a, **k):
        if len(a) == 1 and callable(a[0]) and not k:
            return a[0]
        return lambda f: f
    nb.njit = nb.jit = nb.generated_jit = nb.vectorize = deco
    nb.prange = range
    nb.__getattr__ = lambda name: deco
    return nb


def load(path):
    """Module with the guarded kernels."""
    with open(path, encoding='utf-8') as f:
        tree = ast.parse(f.read(), path)
    tree = ast.fix_missing_locations(Rewrite().visit(tree))
    mod = types.ModuleType('empymod.kernel')
    mod.__package__ = 'empymod'
    mod.__file__ = path
    mod._guard = _guard
    old = sys.modules.get('numba')
    sys.modules['numba'] = _fake_numba()
    try:
        exec(compile(tree, path, 'exec'), mod.__dict__)
    finally:
        if old is not None:
            sys.modules['numba'] = old
        else:
            del sys.modules['numba']
    if 'np' in mod.__dict__:
        mod.np = _Numpy()
    return mod
