"""Y04: Interpreter.predict (larq_compute_engine/tflite/python/interpreter*.py)
over a stand-in for the native interpreter that computes an injective function
of its inputs and checks what it is given."""
import itertools, os, sys, types
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from unittest import mock
import numpy as np
import pymc

for m in ('larq_compute_engine.mlir._tf_tfl_flatbuffer', 'larq_compute_engine.mlir.python.tflite_schema'):
    sys.modules[m] = mock.MagicMock()
W = types.ModuleType('larq_compute_engine.tflite.python.interpreter_wrapper_lite')
sys.modules['larq_compute_engine.tflite.python.interpreter_wrapper_lite'] = W

SPEC = None
LOG = None


class LiteInterpreter:
    """The native interface: positional constructor, list of inputs in, list of outputs out."""
    def __init__(self, flatbuffer_model, num_threads=1, use_reference_bconv=False, use_indirect_bgemm=False, use_xnnpack=False):
        LOG.append(('init', flatbuffer_model, num_threads, use_reference_bconv, use_indirect_bgemm, use_xnnpack))
        self.spec = SPEC
        self.calls = 0
        self.input_types = [np.dtype(d).type for d, _ in self.spec['ins']]
        self.input_shapes = [(1,) + s for _, s in self.spec['ins']]
        self.output_types = [np.float32 for _ in self.spec['outs']]
        self.output_shapes = [(1,) + s for s in self.spec['outs']]
        self.input_scales = [0.5 + k for k in range(len(self.spec['ins']))]
        self.output_scales = [[0.25] * 3 for _ in self.spec['outs']]
        self.input_zero_points = [k for k in range(len(self.spec['ins']))]
        self.output_zero_points = [None for _ in self.spec['outs']]

    def predict(self, inputs):
        if not isinstance(inputs, list):
            raise TypeError('predict wants a list')
        if len(inputs) != len(self.spec['ins']):
            raise RuntimeError('wrong number of inputs')
        for x, (d, s) in zip(inputs, self.spec['ins']):
            x = np.asarray(x)
            if x.dtype != np.dtype(d):
                raise RuntimeError('wrong type')
            if x.shape != (1,) + s:
                raise RuntimeError('wrong shape %s' % (x.shape,))
        self.calls += 1
        if self.spec.get('fail_at') == self.calls - 1:
            raise RuntimeError('invoke failed')
        return function(self.spec, [np.asarray(x)[0] for x in inputs])


def function(spec, sample):
    """Outputs for one sample (with a leading dimension of one)."""
    h = [float(np.sum(np.asarray(x, np.float64) * (np.arange(x.size).reshape(x.shape) + 1 + 17 * k))) for k, x in enumerate(sample)]
    return [np.full((1,) + s, sum((i + 1 + j) * v for i, v in enumerate(h)) + 1000 * j, np.float32) + np.arange(int(np.prod(s)), dtype=np.float32).reshape((1,) + s)
            for j, s in enumerate(spec['outs'])]


W.LiteInterpreter = LiteInterpreter
from larq_compute_engine.tflite.python.interpreter import Interpreter

SHAPES = [(), (2,), (2, 3), (1, 1, 2)]
DT = ['float32', 'int8', 'bool']


def data(spec, n):
    r = []
    for k, (d, s) in enumerate(spec['ins']):
        a = np.arange(n * int(np.prod(s))).reshape((n,) + s) * (k + 1) - 2
        r.append((a % 3 == 0) if d == 'bool' else a.astype(d))
    return r


CONTAINERS = ['array', 'fortran', 'view', 'list', 'gen_array', 'gen_list', 'gen_tuple', 'iter_list', 'map', 'iter_mixed', 'gen_view']
BAD = ['tuple', 'dict', 'None', 'int', 'str', 'nested_object', 'list_short_first', 'list_short_last', 'missing_input', 'extra_input', 'wrong_shape', 'wrong_dtype',
       'wrong_last_sample', 'gen_missing', 'gen_extra', 'gen_none', 'scalar_array', 'fail', 'range', 'set', 'generator_error', 'wrong_rank']


def containers(name, d, n):
    one = len(d) == 1
    if name == 'array':
        return d[0] if one else None
    if name == 'fortran':
        return np.asfortranarray(d[0]) if one else [np.asfortranarray(x) for x in d]
    if name == 'view':
        b = [np.repeat(x, 2, axis=0)[::2] for x in d]
        return b[0] if one else b
    if name == 'list':
        return list(d)
    if name == 'gen_array':
        return (np.asarray(x) for x in d[0]) if one else None
    if name == 'gen_list':
        return ([x[i] for x in d] for i in range(n))
    if name == 'gen_tuple':
        return (tuple(x[i] for x in d) for i in range(n))
    if name == 'iter_list':
        return iter([[x[i] for x in d] for i in range(n)])
    if name == 'map':
        return map(lambda i: [x[i] for x in d], range(n))
    if name == 'iter_mixed':     # arrays and lists in turn
        return iter([np.asarray(d[0][i]) if i % 2 else [d[0][i]] for i in range(n)]) if one else None
    if name == 'gen_view':
        return ([x[n - 1 - i] for x in [y[::-1] for y in d]] for i in range(n))
    raise KeyError(name)


def raising(d, n):
    for i in range(n):
        yield [x[i] for x in d]
    raise OSError('reading the data failed')


def bad(name, spec, d, n):
    if name == 'tuple':
        return tuple(d)
    if name == 'dict':
        return {'a': d[0]}
    if name == 'None':
        return None
    if name == 'int':
        return 3
    if name == 'str':
        return 'data'
    if name == 'set':
        return {1, 2}
    if name == 'range':
        return range(3)
    if name == 'nested_object':
        return object()
    if name in ('list_short_first', 'list_short_last'):
        if len(d) < 2:
            return NotImplemented
        k = 0 if name == 'list_short_first' else len(d) - 1
        return [x[:-1] if j == k else x for j, x in enumerate(d)]
    if name == 'missing_input':
        return d[:-1] if len(d) > 1 else NotImplemented
    if name == 'extra_input':
        return d + [d[0]]
    if name == 'wrong_shape':
        return [np.concatenate([d[0], d[0]], axis=-1)] + d[1:] if d[0].ndim > 1 else NotImplemented
    if name == 'wrong_rank':
        return [x[..., None] for x in d]
    if name == 'wrong_dtype':
        return d[:-1] + [d[-1].astype(np.float64)]
    if name == 'wrong_last_sample':
        return iter([[x[i] for x in d] for i in range(n - 1)] + [[x[n - 1].astype(np.int64) for x in d]])
    if name == 'gen_missing':
        return ([x[i] for x in d[:-1]] for i in range(n))
    if name == 'gen_extra':
        return ([x[i] for x in d] + [d[0][i]] for i in range(n))
    if name == 'gen_none':
        return (None for i in range(n))
    if name == 'scalar_array':
        return np.float32(3) * np.ones(())
    if name == 'fail':
        return list(d)
    if name == 'generator_error':
        return raising(d, n)
    raise KeyError(name)


def space(th):
    def mk(*a):
        return 'ins=%s outs=%s samples=%d data=%s verbose=%d fail_at=%s' % (
            '+'.join('%s%s' % (d, list(s)) for d, s in a[0]), '+'.join(str(list(s)) for s in a[1]), a[2], a[3], a[4], a[5]), a
    one = [(d, s) for d in DT for s in SHAPES]
    in_sets = [[x] for x in one] + [[x, y] for x in (one if th else one[:6]) for y in one] + \
        [[one[1], x, y] for x in one[:4 if not th else 12] for y in (one[2], one[5])]
    out_sets = [[s] for s in SHAPES] + [[s, t] for s in SHAPES for t in SHAPES] + [[(2,), s, (2, 3)] for s in SHAPES]
    for ins, outs, n, cont in itertools.product(in_sets, out_sets, (1, 2, 3, 4) if th else (1, 2, 3), CONTAINERS):
        for v in ((0, 1) if th or (len(ins) < 2 and len(outs) < 2) else (0,)):
            yield mk(ins, outs, n, cont, v, None)
    for ins, outs, n, cont in itertools.product(in_sets, out_sets if th else out_sets[:6], (1, 2, 3), BAD):
        for f in (range(n) if cont == 'fail' else [None]):
            yield mk(ins, outs, n, cont, 0, f)
    for a in itertools.product((b'model', b''), (1, 4), (False, True), (False, True), (False, True)):
        yield 'options %r' % (a,), a


def run(c, cfg):
    global SPEC, LOG
    LOG = []
    if len(cfg) == 5:
        SPEC = dict(ins=[('int8', (2,)), ('float32', ())], outs=[(1,), (2, 2)])
        m, t, r, i, x = cfg
        it = Interpreter(m, num_threads=t, use_reference_bconv=r, use_indirect_bgemm=i, use_xnnpack=x)
        c.check(LOG == [('init', m, t, r, i, x)], 'the native interpreter was created with %r', LOG)
        LOG = []
        Interpreter(m, t, r, i, x)
        c.check(LOG == [('init', m, t, r, i, x)], 'the native interpreter was created with %r', LOG)
        for p in ('types', 'shapes', 'scales', 'zero_points'):
            for d in ('input_', 'output_'):
                c.check(getattr(it, d + p) == getattr(it.interpreter, d + p), '%s are %r', d + p, getattr(it, d + p))
        if not (t != 1 or r or i or x):
            LOG = []
            Interpreter(m)
            c.check(LOG == [('init', m, 1, False, False, False)], 'default options: %r', LOG)
        c.eval()
        c.step(1)
        return
    ins, outs, n, cont, verbose, fail_at = cfg
    SPEC = dict(ins=ins, outs=outs, fail_at=fail_at)
    d = data(SPEC, n)
    good = cont in CONTAINERS
    x = containers(cont, d, n) if good else bad(cont, SPEC, d, n)
    if x is None and good or x is NotImplemented:
        return
    keep = [a.copy() for a in d]
    it = Interpreter(b'm')
    c.step(n)
    try:
        with open(os.devnull, 'w') as null, mock.patch.object(sys, 'stderr', null):
            got = it.predict(x, verbose=verbose) if verbose else it.predict(x)
        err = None
    except Exception as e:
        err = e
    c.eval()
    c.outcome((cont, n, len(ins), [s for s in outs], str(type(err))))
    c.check(all(np.array_equal(a, b) for a, b in zip(d, keep)), 'the input data was modified')
    if not good:
        c.rejected()
        c.check(err is not None, 'accepted: returned %s', [getattr(g, 'shape', g) for g in (got if err is None and isinstance(got, list) else [got] if err is None else [])])
        if cont == 'generator_error':
            c.check(isinstance(err, OSError), 'the error of the data source became %r', err)
        return
    c.check(err is None, 'raised %r', err)
    c.accepted()
    want = [np.concatenate(b) for b in zip(*[function(SPEC, [a[i] for a in d]) for i in range(n)])]
    if len(outs) == 1:
        c.check(isinstance(got, np.ndarray), 'one output, but the result is a %s', type(got).__name__)
        got = [got]
    else:
        c.check(isinstance(got, list) and len(got) == len(outs), 'the result is not one array per output')
    for j, (g, w) in enumerate(zip(got, want)):
        c.check(isinstance(g, np.ndarray) and g.shape == w.shape and g.dtype == w.dtype and np.array_equal(g, w),
                'output %d is %s %s instead of %s %s', j, getattr(g, 'shape', None), np.asarray(g).ravel()[:8], w.shape, w.ravel()[:8])
    if n > 1 and len(outs) > 1:
        c.sample('outputs of shapes %s' % [g.shape for g in got])


if __name__ == '__main__':
    pymc.main({'Y04': (space, run)})
