"""The three C extension modules inside the symbolic world: their LLVM IR (from
the current C source) is interpreted."""
import os
import types
from . import ir

SRC = {'dynaphopy.displacements': 'displacements', 'dynaphopy.power_spectrum.mem': 'mem',
       'dynaphopy.power_spectrum.correlation': 'correlation'}


def extension(name, world):
    if name not in SRC:
        return None
    m = types.ModuleType(name)
    src = os.path.join(world.repo, 'c', SRC[name] + '.c')
    m.__file__ = src

    def bind(fn):
        def f(*a, **k):
            world.functions.add((src, fn))
            r, mach = ir.call(src, fn, a, k)
            m.last = mach
            return r
        return f

    def getattr_(n):
        if n.startswith('__'):
            raise AttributeError(n)
        f = bind(n)
        setattr(m, n, f)
        return f
    m.__getattr__ = getattr_
    return m
