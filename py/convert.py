"""Y01: larq_compute_engine/mlir/python/converter.py.

The native converter is a recording stand-in that returns a real (quantized or
float) flatbuffer or fails; saved-model directories are real; Keras models are
real.  Every combination of the arguments of bounded alphabets is run."""
import atexit, itertools, os, pathlib, shutil, sys, tempfile, types, warnings
from unittest import mock
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, '..', 'lib'))
import numpy as np
import tensorflow as tf
import pymc

CALLS = []          # (which, args)
BEHAVE = {'saved': None, 'graph': None}
SEEN_DIRS = []


class ConverterError(Exception):
    pass


def _native(which):
    def call(*args):
        if which == 'saved':
            d = args[0]
            SEEN_DIRS.append(d)
            if not (isinstance(d, str) and os.path.exists(os.path.join(d, 'saved_model.pb'))):
                raise AssertionError('the converter was called with a directory that holds no saved model')
        CALLS.append((which, args))
        r = BEHAVE[which]
        if isinstance(r, Exception):
            raise r
        return r
    return call


native = types.ModuleType('larq_compute_engine.mlir._tf_tfl_flatbuffer')
native.convert_saved_model_to_tflite_flatbuffer = _native('saved')
native.convert_graphdef_to_tflite_flatbuffer = _native('graph')
import io_types as IO      # sets up the schema and interpreter modules
sys.modules['larq_compute_engine.mlir._tf_tfl_flatbuffer'] = native
for k in [k for k in sys.modules if k.startswith('larq_compute_engine') and k not in (
        'larq_compute_engine.mlir._tf_tfl_flatbuffer', 'larq_compute_engine.mlir.python.tflite_schema',
        'larq_compute_engine.tflite.python.interpreter_wrapper_lite')]:
    del sys.modules[k]
import larq_compute_engine.mlir.python.converter as CV
from tensorflow.core.protobuf import saved_model_pb2
from tensorflow.core.framework import graph_pb2

keras = tf.keras
SCRATCH = None


def scratch():
    global SCRATCH
    if SCRATCH is None or SCRATCH[0] != os.getpid():
        SCRATCH = (os.getpid(), os.path.join(BASE, 'w%d' % os.getpid()))
        os.makedirs(os.path.join(SCRATCH[1], 'tmp'))
        tempfile.tempdir = os.path.join(SCRATCH[1], 'tmp')
    return SCRATCH[1]


def write_saved_model(d, version):
    os.makedirs(d, exist_ok=True)
    m = saved_model_pb2.SavedModel()
    m.saved_model_schema_version = version
    g = m.meta_graphs.add()
    g.meta_info_def.tags.append('serve')
    g.meta_info_def.tensorflow_version = tf.__version__
    with open(os.path.join(d, 'saved_model.pb'), 'wb') as f:
        f.write(m.SerializeToString())


QMODEL = IO.serialize([IO.subgraph('main', ['Q'], ['D'])], 'nat', 'min', IO.SIGS['one'])
Q2MODEL = IO.serialize([IO.subgraph('graphdef', ['Q', 'Q'], ['D', 'D'])], 'nat', 'min', [])
FMODEL = IO.serialize([IO.subgraph('main', ['F'], ['F'])], 'nat', 'min', [])
NAMES = {'q': QMODEL, 'q2': Q2MODEL, 'f': FMODEL}
DEFAULT = '(default)'
TYPES = {DEFAULT: DEFAULT, 'tf.float32': tf.float32, 'tf.int8': tf.int8, 'tf.uint8': tf.uint8, 'tf.int32': tf.int32, 'tf.int16': tf.int16,
         'tf.float16': tf.float16, 'tf.bool': tf.bool, 'tf.qint8': tf.qint8, 'None': None, 'np.int8': np.int8, 'np.uint8': np.uint8, '"int8"': 'int8', '"uint8"': 'uint8',
         '"nonsense"': 'nonsense', '9': 9}
TARGETS = {DEFAULT: DEFAULT, 'arm': 'arm', 'xcore': 'xcore', 'x86': 'x86', 'ARM': 'ARM', 'None': None, 'empty': '', 'arm_': 'arm ', 'list': ['arm'], 'aarch64': 'aarch64'}
RANGES = {DEFAULT: DEFAULT, 'None': None, '(-3.0,3.0)': (-3.0, 3.0), '(0,6)': (0, 6), '(0.0,0.0)': (0.0, 0.0)}


def type_verdict(n):
    """'ok' must be accepted, 'bad' must be rejected, 'alias': same as tf.int8 if accepted"""
    if n in (DEFAULT, 'tf.float32', 'tf.int8'):
        return 'ok'
    return 'alias' if n in ('np.int8', '"int8"', '9') else 'bad'


def effective(n):
    return 'float32' if n in (DEFAULT, 'tf.float32') else 'int8'


def kwargs(ti, to, ta, ra):
    kw = {}
    for k, v in (('inference_input_type', TYPES[ti]), ('inference_output_type', TYPES[to]), ('target', TARGETS[ta]),
                 ('experimental_default_int8_range', RANGES[ra])):
        if not (isinstance(v, str) and v == DEFAULT):
            kw[k] = v
    return kw


def io_of(buf):
    m = IO.parse(buf)
    g = m.subgraphs[0]
    return [g.tensors[i].type for i in g.inputs], [g.tensors[i].type for i in g.outputs], g.name


def check_result(c, res, src, ti, to):
    """src: the file the native converter returned."""
    c.check(isinstance(res, bytes), 'the result is a %s', type(res).__name__)
    if ti == to == 'float32':
        c.check(res == src, 'the result is not what the converter returned although no other types were asked for')
        return
    i, o, name = io_of(res)
    si, so, sname = io_of(src)
    wi = [IO.I8 if ti == 'int8' else IO.F32] * len(si)
    wo = [IO.I8 if to == 'int8' else IO.F32] * len(so)
    c.check(name == sname, 'the result is not derived from the file the converter returned')
    c.check(list(i) == wi and list(o) == wo, 'asked for inputs %s / outputs %s, got tensor types %s / %s', ti, to, list(i), list(o))


def call(c, fn, *a, **kw):
    CALLS.clear()
    SEEN_DIRS.clear()
    c.step(1)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return fn(*a, **kw), None
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            return None, e


# ------------------------------------------------------------ saved models
def space_saved(th):
    def mk(ti, to, ta, ra, ver, path, beh, mode):
        return 'saved_model in=%s out=%s target=%s range=%s version=%s path=%s converter=%s mode=%s' % (ti, to, ta, ra, ver, path, beh, mode), \
            ('saved', ti, to, ta, ra, ver, path, beh, mode)
    valid = (DEFAULT, 'tf.float32', 'tf.int8')
    for ti, to, ta, ra in itertools.product(TYPES, TYPES, TARGETS, RANGES if th else (DEFAULT, '(0,6)')):
        yield mk(ti, to, ta, ra, 2, 'str', 'q', 'eager')
    for ti, to, ta, ra, ver, path, beh, mode in itertools.product(
            valid + ('tf.uint8',), valid + ('tf.uint8',), (DEFAULT, 'arm', 'xcore', 'x86'), RANGES, (1, 2, 0, 3), ('str', 'Path'), ('q', 'f', 'q2', 'error'), ('eager', 'graph')):
        yield mk(ti, to, ta, ra, ver, path, beh, mode)
    for ti in valid:
        yield mk(ti, ti, 'arm', DEFAULT, 2, 'missing', 'q', 'eager')


def run_saved(c, cfg):
    _, ti, to, ta, ra, ver, path, beh, mode = cfg
    d = os.path.join(scratch(), 'sm%s' % ver)
    if path == 'missing':
        d = os.path.join(scratch(), 'missing')
    elif not os.path.exists(d):
        write_saved_model(d, ver)
    BEHAVE['saved'] = ConverterError('native') if beh == 'error' else NAMES[beh]
    arg = pathlib.Path(d) if path == 'Path' else d
    kw = kwargs(ti, to, ta, ra)

    def fn():
        if mode == 'graph':
            with tf.Graph().as_default():
                return CV.convert_saved_model(arg, **kw)
        return CV.convert_saved_model(arg, **kw)
    res, err = call(c, fn)
    v = (type_verdict(ti), type_verdict(to))
    bad_opts = 'bad' in v or ta not in (DEFAULT, 'arm', 'xcore') or mode == 'graph'
    c.eval()
    c.outcome((str(type(err)), [k[1][1:] for k in CALLS], ti, to))
    if bad_opts or ver not in (1, 2) or path == 'missing':
        c.check(err is not None, 'accepted')
        if not bad_opts or mode == 'eager':
            c.check(path == 'missing' or isinstance(err, (ValueError, TypeError)), 'rejected with %r', err)
        c.check(not CALLS, 'the converter ran before the options were rejected (%r)', err)
        c.rejected()
        return
    if err is not None and 'alias' in v and not CALLS:
        c.rejected()
        return
    c.check(len(CALLS) == 1 and CALLS[0][0] == 'saved', 'expected exactly one saved-model conversion, got %s (%r)', [k[0] for k in CALLS], err)
    args = CALLS[0][1]
    want = (d, ['serve'], ['serving_default'], ver, 'arm' if ta == DEFAULT else TARGETS[ta], None if ra == DEFAULT else RANGES[ra])
    c.check(args == want, 'the native converter was called with %r instead of %r', args, want)
    if beh == 'error':
        c.check(isinstance(err, ConverterError), 'the converter failed, but the result is %r / %r', res, err)
        return
    eti, eto = effective(ti), effective(to)
    if beh == 'f' and 'int8' in (eti, eto):
        c.check(isinstance(err, ValueError), 'integer types were requested of a float model without an error')
        c.rejected()
        return
    c.check(err is None, 'unexpected error %r', err)
    c.accepted()
    check_result(c, res, NAMES[beh], eti, eto)
    c.sample('%s -> %s' % (kw, io_of(res)[:2]))


# ------------------------------------------------------------------- Keras
def fake_quant(kind, wrap):
    q = tf.quantization

    def op(x):
        if kind == 'vars':
            return q.fake_quant_with_min_max_vars(x, -1.0, 1.0)
        if kind == 'args':
            return q.fake_quant_with_min_max_args(x, -1.0, 1.0)
        if kind == 'channel':
            return q.fake_quant_with_min_max_vars_per_channel(x, [-1.0] * 3, [1.0] * 3)
        if kind == 'v2':
            return tf.raw_ops.QuantizeAndDequantizeV2(input=x, input_min=-1.0, input_max=1.0, range_given=True)
        if kind == 'v3':
            return tf.raw_ops.QuantizeAndDequantizeV3(input=x, input_min=-1.0, input_max=1.0, num_bits=8, range_given=True)
        return tf.abs(x)    # no quantization

    if wrap == 'cond':
        return lambda x: tf.cond(tf.reduce_sum(x) > 0, lambda: op(x), lambda: x)
    if wrap == 'loop':
        return lambda x: tf.while_loop(lambda i, y: i < 2, lambda i, y: (i + 1, op(y)), [0, x], shape_invariants=[tf.TensorShape([]), x.shape])[1]
    if wrap == 'function':
        return tf.function(op)
    return op


def make_model(kind):
    K = keras.layers
    if kind == 'seq':
        return keras.Sequential([K.Dense(2, input_shape=(3,))])
    if kind == 'subclassed_save':
        pass
    if kind.startswith('fq:'):
        _, k, w = kind.split(':')
        x = keras.Input((3,), name='x')
        return keras.Model(x, K.Lambda(fake_quant(k, w))(K.Dense(3)(x)))
    if kind == 'multi':      # two inputs of different shapes and types, three outputs, not in graph order
        a = keras.Input((2, 3), name='zeta')
        b = keras.Input((3,), name='alpha', dtype='int32')
        s = K.Lambda(lambda t: tf.cast(t, tf.float32))(b)
        y = K.Dense(4, name='y')(a)
        z = K.Dense(2, name='a_out')(s)
        return keras.Model([a, b], [y, z, K.Lambda(lambda t: tf.reduce_sum(t, -1))(y)])
    if kind == 'batch':
        x = keras.Input(batch_shape=(4, 3))
        return keras.Model(x, K.Dense(2)(x))
    if kind == 'unknown':
        x = keras.Input((None, 3))
        return keras.Model(x, K.Dense(2)(x))
    if kind == 'unknown2':
        a, b = keras.Input((3,)), keras.Input((2, None))
        return keras.Model([a, b], [K.Dense(2)(a), K.Lambda(lambda t: tf.reduce_sum(t, -1))(b)])
    if kind == 'rank1':
        x = keras.Input(())
        return keras.Model(x, K.Lambda(lambda t: t * 2.0)(x))
    if kind == 'dict':
        x = keras.Input((3,), name='k')
        return keras.Model({'k': x}, {'o': K.Dense(2)(x)})
    raise KeyError(kind)


POLICIES = ['mixed_float16', 'mixed_bfloat16', 'float16']
NOT_MODELS = {'path': './model.h5', 'None': None, 'layer': lambda: keras.layers.Dense(2), 'module': tf.Module, 'int': 3, 'class': lambda: keras.Model,
              'function': lambda: tf.function(lambda x: x), 'list': lambda: [make_model('seq')], 'bytes': b'x'}
KINDS = ['seq', 'multi', 'batch', 'unknown', 'unknown2', 'rank1', 'dict'] + [
    'fq:%s:%s' % kw for kw in itertools.product(['vars', 'args', 'channel', 'v2', 'v3', 'none'], ['plain', 'function', 'cond', 'loop'])]
CACHE = {}


def get_model(kind):
    if kind not in CACHE:
        if kind.startswith('policy:'):
            keras.mixed_precision.set_global_policy(kind[7:])
            try:
                CACHE[kind] = make_model('seq')
            finally:
                keras.mixed_precision.set_global_policy('float32')
        else:
            CACHE[kind] = make_model(kind)
    return CACHE[kind]


def space_keras(th):
    valid = (DEFAULT, 'tf.float32', 'tf.int8')

    def mk(*a):
        return 'keras model=%s in=%s out=%s target=%s range=%s saving=%s saved_converter=%s graph_converter=%s mode=%s' % a, ('keras',) + a
    # option validation
    for ti, to, ta, ra in itertools.product(TYPES, TYPES, TARGETS, RANGES if th else (DEFAULT, '(0,6)')):
        yield mk('seq', ti, to, ta, ra, 'fake', 'q', 'q2', 'eager')
    for m, ti, ta in itertools.product(list(NOT_MODELS) + ['policy:' + p for p in POLICIES], valid + ('tf.uint8',), ('arm', 'x86')):
        yield mk(m, ti, ti, ta, DEFAULT, 'fake', 'q', 'q2', 'eager')
    # the two conversion paths
    for k, ti, to, ta, ra, sv, sc, gc in itertools.product(KINDS, valid if th else valid[1:], valid if th else valid[1:], (DEFAULT, 'xcore'), RANGES if th else (DEFAULT, '(-3.0,3.0)'),
                                                           ('fake',), ('q', 'error', 'f'), ('q2', 'error')):
        if k.startswith('fq') and not th and (sc == 'q' or gc == 'error' or ta == DEFAULT):
            continue
        yield mk(k, ti, to, ta, ra, sv, sc, gc, 'eager')
    for k, t, sv in itertools.product(KINDS if th else ['seq', 'multi'], ('tf.float32', 'tf.int8'), ('real', 'fails')):
        yield mk(k, t, t, 'xcore', '(0,6)', sv, 'q', 'q2', 'eager')
    for k, t in itertools.product(['seq'], valid):
        yield mk(k, t, t, 'arm', DEFAULT, 'fake', 'q', 'q2', 'graph')


def static_shape(t):
    s = t.shape.as_list()
    if s and s[0] is None:
        s[0] = 1
    return s


def check_graph_call(c, model, args, ta, ra, quant):
    gd_s, in_names, in_types, in_shapes, out_names, should_q, target, rng = args
    c.check(target == ('arm' if ta == DEFAULT else TARGETS[ta]), 'the native converter was called for target %r', target)
    c.check(rng == (None if ra == DEFAULT else RANGES[ra]), 'the native converter was called with range %r', rng)
    want_q = quant or rng is not None
    c.check(bool(should_q) == want_q, 'should_quantize is %r', should_q)
    ins, outs = tf.nest.flatten(model.inputs), tf.nest.flatten(model.outputs)
    c.check(len(in_names) == len(in_types) == len(in_shapes) == len(ins) and len(out_names) == len(outs), 'wrong number of inputs or outputs')
    gd = graph_pb2.GraphDef.FromString(gd_s)
    nodes = {n.name: n for n in gd.node}
    # which graph input belongs to which model input: by evaluation
    feeds, vals = {}, []
    for k, (n, ty, sh) in enumerate(zip(in_names, in_types, in_shapes)):
        c.check(n in nodes and nodes[n].op == 'Placeholder', 'input array %r is not a placeholder of the graph', n)
        dt = tf.as_dtype(nodes[n].attr['dtype'].type)
        c.check(ty == 'DT_' + {tf.float32: 'FLOAT', tf.int32: 'INT32'}[dt], 'input %r is declared %s but is %s', n, ty, dt.name)
        c.check(None not in sh and all(isinstance(x, int) for x in sh), 'input %r has shape %r', n, sh)
        v = (np.arange(int(np.prod(sh)), dtype=np.float64).reshape(sh) * (k + 1) - 1.5).astype(dt.as_numpy_dtype)
        feeds[n + ':0'] = v
        vals.append((n, v, ty, sh))
    used = []
    want_sig = sorted((('DT_' + {'float32': 'FLOAT', 'int32': 'INT32'}[t.dtype.name]), tuple(static_shape(t))) for t in ins)
    c.check(sorted((ty, tuple(sh)) for _, _, ty, sh in vals) == want_sig, 'inputs declared as %r, the model has %r', [(v[2], v[3]) for v in vals], want_sig)
    ordered = []
    for t in ins:      # inputs in the order of the model (they differ in shape or type where there are several)
        k = next(k for k, v in enumerate(vals) if k not in used and v[2] == 'DT_' + {'float32': 'FLOAT', 'int32': 'INT32'}[t.dtype.name] and v[3] == static_shape(t))
        used.append(k)
        ordered.append(vals[k][1])
    with tf.Graph().as_default():
        tf.import_graph_def(gd, name='')
        with tf.compat.v1.Session() as s:
            got = s.run([n + ':0' if ':' not in n else n for n in out_names], feeds)
    x = ordered if len(ordered) > 1 else ordered[0]
    if isinstance(model.input, dict):
        x = {'k': ordered[0]}
    want = tf.nest.flatten(model(x))
    # (the graph lists named outputs in its own order)
    left = list(range(len(want)))
    for k, g in enumerate(got):
        m = [j for j in left if g.shape == tuple(want[j].shape) and np.allclose(g, want[j].numpy(), atol=1e-5)]
        c.check(m, 'output array %r is not an output of the model, or listed twice', out_names[k])
        left.remove(m[0])


def run_keras(c, cfg):
    _, kind, ti, to, ta, ra, saving, sc, gc, mode = cfg
    scratch()
    BEHAVE['saved'] = ConverterError('native') if sc == 'error' else NAMES[sc]
    BEHAVE['graph'] = ConverterError('graphdef') if gc == 'error' else NAMES[gc]
    is_model = kind not in NOT_MODELS
    if is_model:
        model = get_model(kind)
        saves = []

        def save(filepath, *a, **k):
            saves.append(k.get('save_format', a[0] if a else None))
            if saving == 'fails':
                raise RuntimeError('cannot be saved')
            write_saved_model(str(filepath), 2)
    else:
        model = NOT_MODELS[kind]
        if callable(model) and kind != 'class':
            model = model()
        elif kind == 'class':
            model = keras.Model
    kw = kwargs(ti, to, ta, ra)

    def fn():
        ctx = mock.patch.object(model, 'save', save) if is_model and saving != 'real' else mock.MagicMock()
        with ctx:
            if mode == 'graph':
                with tf.Graph().as_default():
                    return CV.convert_keras_model(model, **kw)
            return CV.convert_keras_model(model, **kw)
    res, err = call(c, fn)
    c.eval()
    v = (type_verdict(ti), type_verdict(to))
    bad_type = 'bad' in v or ta not in (DEFAULT, 'arm', 'xcore') or mode == 'graph'
    c.outcome((str(type(err)), [k[0] for k in CALLS], kind, ti, to))
    left = [d for d in SEEN_DIRS if os.path.exists(d)]
    c.check(not left, 'the temporary saved model was left behind: %s', left)
    if not is_model or kind.startswith('policy:') or bad_type:
        c.check(err is not None, 'accepted')
        c.check(mode == 'graph' or isinstance(err, (ValueError, TypeError)), 'rejected with %r', err)
        c.check(not CALLS, 'the converter ran before the arguments were rejected (%r)', err)
        c.rejected()
        return
    if err is not None and 'alias' in v and not CALLS:
        c.rejected()
        return
    eti, eto = effective(ti), effective(to)
    paths = [k[0] for k in CALLS]
    if saving != 'fails':
        c.check(paths and paths[0] == 'saved', 'the saved-model conversion was not tried first: %s (%r)', paths, err)
        args = CALLS[0][1]
        want = (['serve'], ['serving_default'], args[3], 'arm' if ta == DEFAULT else TARGETS[ta], None if ra == DEFAULT else RANGES[ra])
        c.check(tuple(args[1:]) == want and args[3] in (1, 2), 'the native converter was called with %r instead of %r', args[1:], want)
        works = sc != 'error' and not (sc == 'f' and 'int8' in (eti, eto))
        if works:
            c.check(paths == ['saved'], 'conversions run: %s', paths)
            c.check(err is None, 'unexpected error %r', err)
            c.accepted()
            check_result(c, res, NAMES[sc], eti, eto)
            c.sample('%s -> %s' % (kw, io_of(res)[:2]))
            return
        paths = paths[1:]
    # fallback
    if kind.startswith('unknown'):
        c.check(isinstance(err, ValueError) and not paths, 'an unknown dimension other than the first was accepted (%r)', err)
        c.rejected()
        return
    c.check(paths == ['graph'], 'expected the graphdef conversion, got %s (%r)', paths, err)
    quant = kind.startswith('fq') and ':none:' not in kind
    check_graph_call(c, model, CALLS[-1][1], ta, ra, quant)
    if gc == 'error':
        c.check(isinstance(err, ConverterError), 'the converter failed, but the result is %r / %r', res, err)
        return
    c.check(err is None, 'unexpected error %r', err)
    c.accepted()
    if not quant and ra in (DEFAULT, 'None') and 'int8' in (eti, eto):
        return     # integer types cannot be had for a model without quantization information
    check_result(c, res, NAMES[gc], eti, eto)


def space(th):
    yield from space_saved(th)
    yield from space_keras(th)


def run(c, cfg):
    (run_saved if cfg[0] == 'saved' else run_keras)(c, cfg)


if __name__ == '__main__':
    BASE = tempfile.mkdtemp(prefix='convert-', dir=os.environ.get('VERIF_SCRATCH'))
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(BASE, ignore_errors=True))
    pymc.main({'Y01': (space, run)})
