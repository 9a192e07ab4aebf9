"""A stand-in for the GPU: the CUDA kernels of the working tree compiled for the
host (harness/native/cuda), and a `cupy` module that keeps its arrays in host
memory and launches those kernels.  It computes nothing of its own and judges
nothing."""
import ctypes
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import types

from harness import core

NATIVE = os.path.join(core.VERIF, 'harness', 'native', 'cuda')
KERNELS = os.path.join('longitudinal_tomography', 'cuda_kernels')
BLOCK = 32


def _files():
    src = sorted(glob.glob(os.path.join(core.REPO, KERNELS, '*.cu*')))
    src = [s for s in src if s.endswith(('.cu', '.cuh'))]
    own = [os.path.join(NATIVE, f) for f in ('standin.hpp', 'runtime.cpp', 'cub/block/block_reduce.cuh')]
    return src, own


def build(block_size):
    """{(source name, precision): shared object} compiled from REPO's kernels."""
    src, own = _files()
    h = hashlib.sha256(b'%d' % block_size)
    for f in src + own + [__file__]:
        with open(f, 'rb') as fh:
            h.update(f.encode() + b'\0' + fh.read())
    out = os.path.join(core.CACHE, 'cuda', h.hexdigest()[:20])
    cus = [s for s in src if s.endswith('.cu')]
    want = {(os.path.basename(s)[:-3], p): os.path.join(out, os.path.basename(s)[:-3] + '_' + p + '.so')
            for s in cus for p in ('double', 'single')}
    if all(os.path.exists(v) for v in want.values()):
        return want
    tmp = core.scratch('cuda-')
    try:
        jobs = []
        rt = os.path.join(tmp, 'runtime.o')
        run = subprocess.run(['g++', '-O2', '-std=c++17', '-fPIC', '-c', os.path.join(NATIVE, 'runtime.cpp'), '-o', rt],
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if run.returncode != 0:
            raise core.MachineryError('runtime: ' + run.stdout.decode(errors='replace')[-2000:])
        for s in cus:
            name = os.path.basename(s)[:-3]
            text = open(s).read()
            text_nc = re.sub(r'//[^\n]*|/\*.*?\*/', ' ', text, flags=re.S)
            fns = re.findall(r'__global__\s+void\s+(?:__launch_bounds__\s*\([^)]*\)\s*)?(\w+)\s*\(', text_nc)
            glue = os.path.join(tmp, name + '.cpp')
            with open(glue, 'w') as fh:
                fh.write('#include "standin.hpp"\n#include "%s"\n' % s)
                for f in fns:
                    fh.write('extern "C" void entry_%s(void **a) { cu_enter(%s, a); }\n'
                             'extern "C" int arity_%s() { return cu_arity(%s); }\n' % (f, f, f, f))
            for p in ('double', 'single'):
                cmd = ['g++', '-O1', '-std=c++17', '-fPIC', '-shared', '-fsanitize=thread', '-w',
                       '-I', NATIVE, '-DBLOCK_SIZE=%d' % block_size] + (['-DUSEFLOAT'] if p == 'single' else []) + \
                      ['-c', glue, '-o', os.path.join(tmp, name + '_' + p + '.o')]
                jobs.append((name, p, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for name, p, j in jobs:
            o, _ = j.communicate(timeout=300)
            if j.returncode != 0:
                raise core.MachineryError('kernel %s (%s) does not compile for the host:\n%s'
                                          % (name, p, o.decode(errors='replace')[-3000:]))
            # linked without the sanitizer's runtime: runtime.cpp has the hooks
            r = subprocess.run(['g++', '-shared', '-o', os.path.join(tmp, name + '_' + p + '.so'),
                                os.path.join(tmp, name + '_' + p + '.o'), rt,
                                '-Wl,-Bsymbolic'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                raise core.MachineryError('link: ' + r.stdout.decode(errors='replace')[-2000:])
        os.makedirs(out, exist_ok=True)
        for (name, p), dst in want.items():
            part = dst + '.%d' % os.getpid()
            shutil.copy(os.path.join(tmp, name + '_' + p + '.so'), part)
            os.replace(part, dst)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return want


class State:
    libs = {}
    order = 0          # seed of the order of blocks and threads
    record = False     # note the accesses
    launches = []      # (kernel, precision of its module, grid, block, divergent barrier, classes)
    current = 0        # device selected
    ran = []           # per launch: device of its module, device selected


STATE = State()


def classes(lib):
    n = lib.cu_classes(None, 0)
    buf = (ctypes.c_long * max(1, n))()
    lib.cu_classes(buf, n)
    v, i, out = list(buf), 0, []
    while i < n:
        level, granules = v[i], v[i + 1]
        i += 2
        four = []
        for _ in range(4):
            k = v[i]
            four.append(v[i + 1:i + 1 + k])
            i += 1 + k
        out.append((level, granules * 4, four))
    lib.cu_clear()
    return out


def fake_cupy(threads_per_block=8, devices=1):
    import numpy as np
    mod = types.ModuleType('cupy')

    class ndarray(np.ndarray):
        """Host memory standing for device memory."""
        __array_priority__ = 100

        def get(self, *a, **k):
            return np.array(self, dtype=self.dtype, copy=True, subok=False)

        def __array_finalize__(self, obj):
            pass

    def dev(x):
        if isinstance(x, np.ndarray):
            return np.asarray(x).view(ndarray) if not isinstance(x, ndarray) else x
        if isinstance(x, np.generic):
            # a reduction gives a zero-dimensional device array
            return np.asarray(x).view(ndarray)
        if isinstance(x, (tuple, list)):
            return type(x)(dev(y) for y in x)
        return x

    def wrap(f):
        def g(*a, **k):
            return dev(f(*a, **k))
        g.__name__ = getattr(f, '__name__', 'f')
        return g

    for name in dir(np):
        if name.startswith('_'):
            continue
        o = getattr(np, name)
        if isinstance(o, type) or not callable(o):
            if isinstance(o, type) or isinstance(o, (int, float)) or o is None:
                setattr(mod, name, o)
        elif isinstance(o, np.ufunc):
            setattr(mod, name, o)
        else:
            setattr(mod, name, wrap(o))
    for name in ('pi', 'inf', 'nan', 'newaxis'):
        setattr(mod, name, getattr(np, name))
    mod.ndarray = ndarray
    mod.asnumpy = lambda x: np.array(x, subok=False)

    class CUDARuntimeError(RuntimeError):
        pass

    class OtherKernel(CUDARuntimeError):
        """No kernel of that name or number of arguments."""

    class Device:
        def __init__(self, i=0):
            if i >= devices:
                raise CUDARuntimeError('cudaErrorInvalidDevice')
            self.id = i
            # the second device has smaller blocks
            self.attributes = {'MultiProcessorCount': 2 + i, 'MaxThreadsPerBlock': max(1, threads_per_block >> i)}
            self.compute_capability = '80'

        def use(self):
            STATE.current = self.id

        def __int__(self):
            return self.id

    class Function:
        def __init__(self, lib, name, prec, on):
            self.lib, self.name, self.prec, self.on = lib, name, prec, on
            try:
                self.entry = getattr(lib, 'entry_' + name)
                self.arity = getattr(lib, 'arity_' + name)()
            except AttributeError:
                raise OtherKernel('CUDA_ERROR_NOT_FOUND: named symbol not found: ' + name)

        def __call__(self, grid, block, args, **kw):
            if len(args) != self.arity:
                raise OtherKernel('%s takes %d arguments, not %d' % (self.name, self.arity, len(args)))
            keep, ptrs = [], (ctypes.c_void_p * len(args))()
            for i, a in enumerate(args):
                if isinstance(a, ndarray) and a.ndim > 0 or isinstance(a, ndarray):
                    if not a.flags['C_CONTIGUOUS']:
                        raise CUDARuntimeError('stand-in: strided array passed to ' + self.name)
                    v = np.array([a.ctypes.data], dtype=np.uint64)
                elif isinstance(a, np.ndarray):
                    raise TypeError('Unsupported type %s' % type(a))
                elif isinstance(a, np.generic):
                    v = np.array([a])
                elif isinstance(a, bool):
                    v = np.array([a], dtype=np.bool_)
                elif isinstance(a, int):
                    v = np.array([a], dtype=np.int64)
                elif isinstance(a, float):
                    v = np.array([a], dtype=np.float64)
                else:
                    raise TypeError('Unsupported type %s' % type(a))
                # the driver copies the declared size; what lies behind is not the caller's
                b = np.full(32, 0xa5, dtype=np.uint8)
                b[:v.nbytes] = v.view(np.uint8)
                keep.append(b)
                ptrs[i] = b.ctypes.data
            g = 1
            for x in (grid if isinstance(grid, tuple) else (grid,)):
                g *= int(x)
            n = 1
            for x in (block if isinstance(block, tuple) else (block,)):
                n *= int(x)
            most = 1024 if devices == 1 else max(BLOCK, threads_per_block >> STATE.current)
            if g <= 0 or n <= 0 or n > most:
                raise CUDARuntimeError('CUDA_ERROR_INVALID_VALUE: grid %d block %d' % (g, n))
            STATE.ran.append((self.on, STATE.current))
            bad = self.lib.cu_launch(self.entry, ptrs, g, n, STATE.order, 1 if STATE.record else 0)
            STATE.launches.append((self.name, self.prec, g, n, bad,
                                   classes(self.lib) if STATE.record else []))

    class RawModule:
        def __init__(self, code=None, path=None, options=(), **kw):
            base = os.path.basename(path)
            m = re.match(r'(\w+)_(double|single)\.cubin$', base)
            if not m or (m.group(1), m.group(2)) not in STATE.libs:
                raise CUDARuntimeError('CUDA_ERROR_FILE_NOT_FOUND: ' + path)
            self.prec, self.on = m.group(2), STATE.current
            lib = ctypes.CDLL(STATE.libs[m.groups()], mode=ctypes.RTLD_LOCAL)
            lib.cu_launch.argtypes = [ctypes.c_void_p, ctypes.c_void_p] + [ctypes.c_int] * 4
            lib.cu_classes.argtypes = [ctypes.c_void_p, ctypes.c_int]
            self.lib = lib

        def get_function(self, name):
            return Function(self.lib, name, self.prec, self.on)

    cuda = types.ModuleType('cupy.cuda')
    cuda.Device = Device
    runtime = types.ModuleType('cupy.cuda.runtime')
    runtime.getDeviceProperties = lambda d: {'name': b'stand-in'}
    runtime.CUDARuntimeError = CUDARuntimeError
    runtime.getDeviceCount = lambda: devices
    cuda.runtime = runtime
    mod.cuda = cuda
    mod.RawModule = RawModule
    return mod, {'cupy': mod, 'cupy.cuda': cuda, 'cupy.cuda.runtime': runtime}


def install(threads_per_block=8, devices=1):
    """After worker.bootstrap: make `import cupy` give the stand-in."""
    from longitudinal_tomography import cuda_kernels
    STATE.libs = build(cuda_kernels.REDUCTION_BLOCK_SIZE)
    mod, mods = fake_cupy(threads_per_block, devices)
    sys.modules.update(mods)
    # nothing is compiled into the working tree
    cuda_kernels.check_compiled_kernels = lambda: True
    cuda_kernels.compile_kernels = lambda: None
    return mod
