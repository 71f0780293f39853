"""Compile the C extension modules of /repo (current source) for the concrete runs."""
import hashlib
import os
import subprocess
import sys
import sysconfig
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
EXTS = {'displacements': ('dynaphopy.displacements', []),
        'mem': ('dynaphopy.power_spectrum.mem', ['-fopenmp']),
        'correlation': ('dynaphopy.power_spectrum.correlation', ['-fopenmp'])}


def build_dir():
    d = os.path.join(HERE, '.build')
    try:
        os.makedirs(d, exist_ok=True)
        return d
    except OSError:
        d = os.path.join(tempfile.gettempdir(), 'vp_build')
        os.makedirs(d, exist_ok=True)
        return d


def build_ext(short, extra=(), tag=''):
    import numpy
    src = os.path.join(REPO, 'c', short + '.c')
    with open(src, 'rb') as f:
        data = f.read()
    flags = ['-std=c99', '-O2', '-fPIC', '-shared', '-w'] + EXTS[short][1] + list(extra)
    h = hashlib.sha256(data + repr(flags).encode() + sys.version.encode()).hexdigest()[:20]
    out = os.path.join(build_dir(), '%s%s_%s.so' % (short, tag, h))
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        cmd = ['gcc'] + flags + ['-I' + sysconfig.get_paths()['include'], '-I' + numpy.get_include(), '-o', tmp, src, '-lm']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('cannot compile %s: %s' % (src, r.stderr[-2000:]))
        os.replace(tmp, out)
    return out


def install():
    """make `import dynaphopy` use /repo's Python source and fresh C modules"""
    import importlib.util
    import importlib.machinery
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    for short, (name, _) in EXTS.items():
        path = build_ext(short)
        loader = importlib.machinery.ExtensionFileLoader(name, path)
        spec = importlib.util.spec_from_file_location(name, path, loader=loader)
        m = importlib.util.module_from_spec(spec)
        loader.exec_module(m)
        sys.modules[name] = m
    import dynaphopy
    for short, (name, _) in EXTS.items():
        parent = importlib.import_module(name.rpartition('.')[0])
        setattr(parent, short, sys.modules[name])
    assert dynaphopy.__file__.startswith(REPO + '/'), dynaphopy.__file__


if __name__ == '__main__':
    for s in EXTS:
        print(build_ext(s))
