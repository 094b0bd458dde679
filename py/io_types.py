"""Y02/Y03: the flatbuffer rewriting in larq_compute_engine/mlir/python/util.py.

Every model of a bounded family (combinations of input forms, output forms,
tensor numberings, operator-code tables, signatures and further subgraphs) is
serialized, given to the real functions, and the resulting file is parsed
again and compared with the original by symbolic evaluation: the outputs of a
model are terms over its inputs, an int8 input standing for the Quantize term
it replaces, an int8/int32 output for the argument of the dequantize term it
replaces."""
import collections, itertools, os, sys
from unittest import mock
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pymc
import numpy as np
import flatbuffers
import tensorflow as tf
from tensorflow.lite.python import schema_py_generated as S

for m in ('larq_compute_engine.mlir._tf_tfl_flatbuffer', 'larq_compute_engine.tflite.python.interpreter_wrapper_lite'):
    sys.modules[m] = mock.MagicMock()
sys.modules['larq_compute_engine.mlir.python.tflite_schema'] = S
from larq_compute_engine.mlir.python import util as U

T, OP = S.TensorType, S.BuiltinOperator
F32, I8, I32, I16 = T.FLOAT32, T.INT8, T.INT32, T.INT16


# ------------------------------------------------------------------ building
class Builder:
    """Builds one subgraph; tensors and operators by name, numbered later."""
    def __init__(self, name):
        self.name, self.t, self.ops, self.ins, self.outs = name, {}, [], [], []

    def tensor(self, name, ty, q=0, const=False):
        if name not in self.t:
            self.t[name] = (ty, q, const)
        return name

    def op(self, kind, ins, outs, var=0, inter=()):
        self.ops.append((kind, list(ins), list(outs), var, list(inter)))


IN_FORMS = ['F', 'Q', 'N', 'QF', 'FQ', 'QQ', 'QQs', 'U', 'QO', 'P', 'QP', 'Q16', 'QU']
OUT_FORMS2 = ['D', 'F', 'I', 'DF', 'FD', 'DD', 'D2', 'DI', 'D16', 'DS']
OUT_FORMS3 = ['L', 'D', 'F', 'I', 'B', 'LI', 'LD', 'LDI', 'LF', 'FL', 'LL', 'L2', 'LB', 'LDF', 'DF', 'L16', 'LDD', 'D16', 'DS', 'LS']


def subgraph(name, ins, outs, ver=0):
    b = Builder(name)
    uses, extra_outs, tail_ins = [], [], []
    b.tensor('w', F32, 0, True)
    q = 0
    for i, f in enumerate(ins):
        n = 'in%d' % i
        q += 1
        if f == 'N':
            b.ins.append(b.tensor(n, I8, q))
            uses.append(n)
            continue
        b.ins.append(b.tensor(n, F32))
        if f == 'F':
            uses.append(n)
        elif f == 'U':
            pass
        elif f == 'P':
            extra_outs.append(n)
        else:
            k = n + '/q'
            b.tensor(k, I16 if f == 'Q16' else I8, q)
            if f == 'FQ':
                b.op('M', [n, 'w'], [b.tensor(n + '/m', I8, q)])
                uses.append(n + '/m')
            b.op('QUANTIZE', [n], [k], (i + 1) % 2 if ver else 0)
            if f == 'QU':
                pass
            else:
                uses.append(k)
            if f == 'QF':
                uses.append(n)
            elif f in ('QQ', 'QQs'):
                if f == 'QQ':
                    q += 1
                b.tensor(n + '/q2', I8, q)
                b.op('QUANTIZE', [n], [n + '/q2'], i % 2 if ver else 0)
                uses.append(n + '/q2')
            elif f == 'QO':
                extra_outs.append(k)
            elif f == 'QP':
                extra_outs.append(n)
    body, after = [], []
    for j, f in enumerate(outs):
        n = 'out%d' % j
        q += 1
        v = (j + 1) % 2 if ver else 0
        if f in ('F', 'I', 'B'):
            b.outs.append(b.tensor(n, {'F': F32, 'I': I8, 'B': I32}[f], q if f == 'I' else 0))
            body.append(n)
            continue
        m = n + '/m'
        body.append(m)
        if f[0] == 'D' or f == 'FD':
            b.tensor(m, I16 if f == 'D16' else I8, q)
            b.tensor(n, F32)
            after.append(('DEQUANTIZE', [m], [n], v))
            rest = f[1:] if f[0] == 'D' else 'F'
        elif f[:2] == 'LD' and f != 'LD2':
            b.tensor(m, I32)
            b.tensor(n + '/l', I8, q)
            b.tensor(n, F32)
            after.append(('LceDequantize', [m], [n + '/l'], v))
            after.append(('DEQUANTIZE', [n + '/l'], [n], v))
            rest = f[2:]
        else:
            b.tensor(m, I32)
            b.tensor(n, I8 if f in ('LI', 'L2') else I16 if f == 'L16' else F32, q if f in ('LI', 'L2') else 0)
            after.append(('LceDequantize', [m], [n], v))
            rest = 'F' if f == 'FL' else f[1:]
        b.outs.append(n)
        if rest == 'F':     # the dequantized tensor is also used
            b.tensor(n + '/f', F32)
            after.append(('M', [n, 'w'], [n + '/f'], 0))
            if f in ('FD', 'FL'):
                b.outs.append(n + '/f')
            else:
                b.outs.insert(len(b.outs) - 1, n + '/f')
        elif rest == 'D':   # listed twice
            b.outs.append(n)
        elif f == 'LL':
            b.outs.append(n)
        elif rest == '2' or f == 'LDD':    # a second dequantize of the same tensor
            kind = 'DEQUANTIZE' if f == 'D2' else 'LceDequantize'
            b.tensor(n + '/2', b.t[n][0] if kind == 'DEQUANTIZE' else F32)
            after.append((kind, [m], [n + '/2'], v))
            b.outs.append(n + '/2')
        elif f in ('DI', 'LB'):      # the undequantized tensor is an output too
            b.outs.append(m)
        elif f == 'LDI':
            b.outs.append(n + '/l')
        elif f in ('DS', 'LS'):      # the undequantized tensor is used elsewhere
            b.tensor(n + '/s', F32)
            after.append(('M', [m, 'w'], [n + '/s'], 0))
            b.outs.append(n + '/s')
    b.tensor('mid', F32)
    b.op('M', uses[::-1] + [-1, 'w'], body or ['mid'], 0, ['mid'] if body else [])
    b.ops += [(k, i, o, v, []) for k, i, o, v in after]
    b.outs += extra_outs
    return b


CODES = {
    'std': [('M', 0), ('QUANTIZE', 0), ('DEQUANTIZE', 0), ('LceDequantize', 0)],
    'rev': [('LceDequantize', 0), ('DEQUANTIZE', 0), ('QUANTIZE', 0), ('M', 0)],
    'two': [('QUANTIZE', 0), ('DEQUANTIZE', 1), ('LceDequantize', 0), ('QUANTIZE', 1), ('LceDequantize', 1), ('M', 0), ('DEQUANTIZE', 0)],
    'min': None,  # only the codes in use
}


def serialize(graphs, order, codes, sigs):
    m = S.ModelT()
    m.version = 3
    m.description = 'verif'
    used = sorted({(k, v) for g in graphs for k, _, _, v, _ in g.ops})
    table = CODES[codes] or used
    m.operatorCodes = []
    for k, v in table:
        c = S.OperatorCodeT()
        if k in ('M', 'LceDequantize'):
            c.builtinCode = OP.CUSTOM
            c.customCode = k
        else:
            c.builtinCode = getattr(OP, k)
        c.deprecatedBuiltinCode = c.builtinCode
        c.version = v + 1
        m.operatorCodes.append(c)
    m.buffers = [S.BufferT()]
    md = S.MetadataT()
    md.name, md.buffer = 'meta', 1
    m.metadata = [md]
    b = S.BufferT()
    b.data = np.arange(5, dtype=np.uint8)
    m.buffers.append(b)
    m.subgraphs = []
    index = []
    for gi, g in enumerate(graphs):
        names = list(g.t)
        io = [n for n in names if n in g.ins or n in g.outs]
        rest = [n for n in names if n not in io]
        if order == 'rev':
            names = names[::-1]
        elif order == 'io_last':
            names = rest + io
        elif order == 'io_first':
            names = io + rest
        idx = {n: i for i, n in enumerate(names)}
        idx[-1] = -1
        index.append(idx)
        s = S.SubGraphT()
        s.name = g.name
        s.tensors = []
        for n in names:
            ty, q, const = g.t[n]
            t = S.TensorT()
            t.name, t.type, t.shape = n, ty, np.array([1, 2 + len(n)], np.int32)
            t.hasRank = True
            if n.startswith('in'):
                t.shapeSignature = np.array([-1, 2 + len(n)], np.int32)
            if const:
                t.buffer = len(m.buffers)
                b = S.BufferT()
                b.data = np.frombuffer(bytes([gi + 1] * 8), np.uint8)
                m.buffers.append(b)
            if q:
                t.quantization = S.QuantizationParametersT()
                t.quantization.scale = np.array([q / 8], np.float32)
                t.quantization.zeroPoint = np.array([q - 3], np.int64)
            s.tensors.append(t)
        s.operators = []
        for k, ins, outs, v, inter in g.ops:
            o = S.OperatorT()
            o.opcodeIndex = table.index((k, v))
            o.inputs = np.array([idx[x] for x in ins], np.int32)
            o.outputs = np.array([idx[x] for x in outs], np.int32)
            if inter:
                o.intermediates = np.array([idx[x] for x in inter], np.int32)
            if k == 'M':
                o.customOptions = np.frombuffer(('opt' + str(outs[0])).encode(), np.uint8)
            s.operators.append(o)
        s.inputs = np.array([idx[x] for x in g.ins], np.int32)
        s.outputs = np.array([idx[x] for x in g.outs], np.int32)
        m.subgraphs.append(s)
    m.signatureDefs = []
    for key, gi, flip in sigs:
        if gi >= len(graphs):
            continue
        d = S.SignatureDefT()
        d.signatureKey, d.subgraphIndex = key, gi

        def maps(names, pre):
            r = []
            for i, n in enumerate(names):
                t = S.TensorMapT()
                t.name, t.tensorIndex = '%s%d' % (pre, i), index[gi][n]
                r.append(t)
            return r[::-1] if flip else r
        d.inputs, d.outputs = maps(graphs[gi].ins, 'x'), maps(graphs[gi].outs, 'y')
        m.signatureDefs.append(d)
    fb = flatbuffers.Builder(1024)
    fb.Finish(m.Pack(fb), file_identifier=b'TFL3')
    return bytes(fb.Output())


SIGS = {'none': [], 'one': [('serving_default', 0, True)], 'two': [('a', 0, False), ('b', 0, True)],
        'other': [('s1', 1, False), ('s0', 0, False)], 'other_only': [('s1', 1, False)]}


# -------------------------------------------------------------------- oracle
def arr(a):
    return () if a is None else tuple(np.asarray(a).tolist())


def dump(o):
    if o is None or isinstance(o, (int, float, bool, str, bytes)):
        return o
    if isinstance(o, np.ndarray):
        return tuple(o.tolist())
    if isinstance(o, (list, tuple)):
        return tuple(dump(x) for x in o)
    if isinstance(o, np.generic):
        return o.item()
    return (type(o).__name__,) + tuple((k, dump(v)) for k, v in sorted(vars(o).items()))


def parse(buf):
    if bytes(buf[4:8]) != b'TFL3':
        raise pymc.Fail('the result has no TFL3 file identifier')
    return S.ModelT.InitFromPackedBuf(buf, 0)


class Invalid(Exception):
    pass


class Graph:
    """Symbolic evaluation of one subgraph."""
    def __init__(self, m, gi):
        self.m, self.g = m, m.subgraphs[gi]
        self.ins, self.outs = arr(self.g.inputs), arr(self.g.outputs)
        self.n = len(self.g.tensors)
        for i in self.ins + self.outs:
            if not 0 <= i < self.n:
                raise Invalid('subgraph %d has an input/output with tensor index %d (of %d)' % (gi, i, self.n))
        self.attrs = []
        for t in self.g.tensors:
            if not 0 <= t.buffer < len(m.buffers):
                raise Invalid('tensor %s refers to buffer %d' % (t.name, t.buffer))
            d = dump(t)
            self.attrs.append((tuple((k, v) for k, v in d[1:] if k != 'buffer'), dump(m.buffers[t.buffer])))

    def code(self, op):
        c = self.m.operatorCodes[op.opcodeIndex]
        return (c.builtinCode, c.customCode, c.version)

    def kind(self, op):
        c = self.code(op)
        if c[0] == OP.QUANTIZE:
            return 'Q'
        if c[0] == OP.DEQUANTIZE:
            return 'D'
        if c[0] == OP.CUSTOM and c[1] == b'LceDequantize':
            return 'L'
        return 'M'

    def evaluate(self, in_terms):
        val = dict(zip(self.ins, in_terms))
        produced = set(self.ins)
        self.op_terms = []

        def get(i):
            if i == -1:
                return 'absent'
            if not 0 <= i < self.n:
                raise Invalid('an operator refers to tensor %d of %d' % (i, self.n))
            if i in val:
                return val[i]
            if self.m.buffers[self.g.tensors[i].buffer].data is not None:
                return ('const', self.attrs[i])
            raise Invalid('tensor %r is used but nothing produces it' % self.g.tensors[i].name)
        for op in self.g.operators:
            inter = []
            for i in arr(op.intermediates):
                if not 0 <= i < self.n:
                    raise Invalid('an operator has intermediate tensor %d of %d' % (i, self.n))
                inter.append(self.attrs[i])
            d = dump(op)
            opts = tuple((k, v) for k, v in d[1:] if k not in ('inputs', 'outputs', 'intermediates', 'opcodeIndex'))
            ins = tuple(get(i) for i in arr(op.inputs))
            outs = arr(op.outputs)
            for i in outs:
                if not 0 <= i < self.n:
                    raise Invalid('an operator writes tensor %d of %d' % (i, self.n))
                if i in produced:
                    raise Invalid('tensor %r is produced twice' % self.g.tensors[i].name)
                produced.add(i)
            base = ('op', self.kind(op), self.code(op), opts, ins, tuple(inter))
            terms = tuple(base + (k, self.attrs[i]) for k, i in enumerate(outs))
            for i, t in zip(outs, terms):
                val[i] = t
            self.op_terms.append((self.kind(op), terms))
        return [get(i) for i in self.outs]

    def consumers(self, i):
        return [op for op in self.g.operators if i in arr(op.inputs) or i in arr(op.intermediates)]

    def producer(self, i):
        return next((op for op in self.g.operators if i in arr(op.outputs)), None)

    def ty(self, i):
        return self.g.tensors[i].type


def tensor_name(g, i):
    return g.g.tensors[i].name.decode()


def input_status(g, i):
    """'none': no Quantize, 'must': can be made int8, 'may': may stay or fail"""
    q = [o for o in g.consumers(i) if g.kind(o) == 'Q']
    if not q:
        return 'none'
    if g.ty(i) != F32 or any(g.ty(arr(o.outputs)[0]) != I8 for o in q):
        return 'may'
    if len(g.consumers(i)) == 1 and i not in g.outs:
        return 'must'
    return 'may'


def output_status(g, i, kinds='D'):
    p = g.producer(i)
    if p is None or g.kind(p) not in kinds:
        return 'none'
    src = arr(p.inputs)[0]
    if g.kind(p) == 'D' and (g.ty(i) != F32 or g.ty(src) != I8):
        return 'may'
    if g.kind(p) == 'L' and (g.ty(i) not in (F32, I8) or g.ty(src) != I32):
        return 'may'
    return 'may' if g.consumers(i) else 'must'


def check_rest(c, a, b, skip=()):
    for f in ('version', 'description', 'operatorCodes', 'buffers', 'metadataBuffer', 'metadata'):
        c.check(dump(getattr(a, f)) == dump(getattr(b, f)), 'the %s of the model changed', f)
    c.check(len(a.subgraphs) == len(b.subgraphs), 'the number of subgraphs changed')
    for gi in range(len(a.subgraphs)):
        if gi in skip:
            continue
        c.check(dump(a.subgraphs[gi]) == dump(b.subgraphs[gi]), 'subgraph %d changed', gi)


def check_sigs(c, a, b, grs):
    sa, sb = a.signatureDefs or [], b.signatureDefs or []
    c.check(len(sa) == len(sb), 'the number of signatures changed')
    for x, y in zip(sa, sb):
        c.check((x.signatureKey, x.subgraphIndex) == (y.signatureKey, y.subgraphIndex), 'a signature key or subgraph changed')
        for what in ('inputs', 'outputs'):
            mx, my = getattr(x, what) or [], getattr(y, what) or []
            c.check([t.name for t in mx] == [t.name for t in my], 'signature %s: the %s names changed', x.signatureKey, what)
            ga, gb = grs[x.subgraphIndex] if x.subgraphIndex in grs else (None, None)
            for s, t in zip(mx, my):
                if ga is None:
                    c.check(s.tensorIndex == t.tensorIndex, 'signature %s of an untouched subgraph: %s %s moved from tensor %d to %d',
                            x.signatureKey, what, s.name, s.tensorIndex, t.tensorIndex)
                    continue
                la, lb = (ga.ins, gb.ins) if what == 'inputs' else (ga.outs, gb.outs)
                want = {lb[k] for k, i in enumerate(la) if i == s.tensorIndex}
                c.check(t.tensorIndex in want, 'signature %s: %s %s refers to tensor %s instead of the model %s',
                        x.signatureKey, what, s.name, tensor_name(gb, t.tensorIndex) if 0 <= t.tensorIndex < gb.n else t.tensorIndex, what)


def compare_graph(c, ga, gb, in_req, out_kinds):
    """ga: original, gb: result.  in_req: int8 inputs were asked for.
    out_kinds: which dequantize operators may be taken off the outputs, as
    stages applied one after the other."""
    c.check(len(ga.ins) == len(gb.ins) and len(ga.outs) == len(gb.outs), 'the number of inputs or outputs changed')
    ta = ga.evaluate([('in', k) for k in range(len(ga.ins))])
    orig_val = {}
    terms, removed = [], collections.Counter()
    for k, (i, j) in enumerate(zip(ga.ins, gb.ins)):
        if ga.attrs[i] == gb.attrs[j]:
            c.check(not (in_req and input_status(ga, i) == 'must'), 'input %d stays float although its Quantize can be removed', k)
            terms.append(('in', k))
            continue
        c.check(in_req, 'input %d changed without a request', k)
        cand = [t for kind, ts in ga.op_terms for t in ts
                if kind == 'Q' and t[4] == (('in', k),) and t[7] == gb.attrs[j]]
        c.check(cand, 'input %d became tensor %s, which is not its quantized form', k, tensor_name(gb, j))
        terms.append(cand[0])
        removed[cand[0]] += 1
    tb = gb.evaluate(terms)
    for k, (x, y) in enumerate(zip(ta, tb)):
        i, j = ga.outs[k], gb.outs[k]
        must, may = x, {x}
        cur = i
        for kinds in out_kinds:
            if cur is None:
                break
            st = output_status(ga, cur, kinds)
            if st == 'none':
                continue
            src = must[4][0] if isinstance(must, tuple) and must[0] == 'op' else must
            may.add(src)
            nxt = arr(ga.producer(cur).inputs)[0]
            if st == 'must':
                if must == x or must in may:
                    may.discard(must)
                must, cur = src, nxt
            else:
                # may stay as it is; what follows is optional too
                q = nxt
                s2 = src
                for k2 in out_kinds[out_kinds.index(kinds) + 1:]:
                    if output_status(ga, q, k2) != 'none':
                        s2 = s2[4][0]
                        may.add(s2)
                cur = None
        c.check(y in may, 'output %d computes %s instead of %s', k, show(y), ' or '.join(map(show, may)))
    # nothing else disappeared or appeared
    ca = collections.Counter(t for t in ga.op_terms)
    cb = collections.Counter(t for t in gb.op_terms)
    c.check(not (cb - ca), 'an operator changed or appeared: %s', '; '.join(show(t[1][0]) for t in (cb - ca)))
    outs_a = set(ta)
    gone_attrs = collections.Counter()
    for kind, ts in (ca - cb).elements():
        ok = kind in 'QDL' and ((kind == 'Q' and in_req and ts[0][4][0][0] == 'in') or
                                (kind in 'DL' and any(kind in s for s in out_kinds) and reach(ts[0], outs_a)))
        c.check(ok, 'operator disappeared: %s', show(ts[0]))
        if kind != 'Q':
            gone_attrs[ts[0][7]] += 1
    for i, j in zip(ga.ins, gb.ins):
        if ga.attrs[i] != gb.attrs[j]:
            gone_attrs[ga.attrs[i]] += 1
    lost = collections.Counter(ga.attrs) - collections.Counter(gb.attrs)
    c.check(not (collections.Counter(gb.attrs) - collections.Counter(ga.attrs)), 'a tensor changed')
    c.check(not (lost - gone_attrs), 'a tensor that is not only used at a removed operator disappeared')


def reach(t, outs):
    """t is an output, or the argument of a D that is an output"""
    return t in outs or any(o[0] == 'op' and o[1] == 'D' and o[4][0] == t for o in outs if isinstance(o, tuple))


def show(t):
    if not isinstance(t, tuple):
        return str(t)
    if t[0] == 'in':
        return 'in%d' % t[1]
    if t[0] == 'const':
        return 'const'
    name = dict(t[7][0])['name'].decode()
    return '%s[%s](%s)' % (t[1], name, ', '.join(show(x) for x in t[4]))


# ---------------------------------------------------------------------- Y02
def space2(th):
    seen = set()

    def emit(ins, outs, order, codes, sigs, extra, req):
        k = 'in=%s out=%s order=%s codes=%s sigs=%s subgraphs=%d in_type=%s out_type=%s' % (
            '+'.join(ins), '+'.join(outs), order, codes, sigs, 1 + extra, req[0], req[1])
        if k in seen:
            return None
        seen.add(k)
        return k, (ins, outs, order, codes, sigs, extra, req)
    reqs = [('int8', 'int8'), ('int8', 'float32'), ('float32', 'int8'), ('float32', 'float32')]
    one_i = [(f,) for f in IN_FORMS]
    two_i = list(itertools.product(IN_FORMS, repeat=2))
    one_o = [(f,) for f in OUT_FORMS2]
    two_o = list(itertools.product(OUT_FORMS2, repeat=2))
    plans = [
        (one_i, one_o, ['nat', 'rev', 'io_last', 'io_first'], list(CODES), list(SIGS), [0, 1], reqs),
        (two_i, two_o, ['nat', 'rev', 'io_last'] if th else ['nat'], ['std', 'two'] if th else ['two'], ['one', 'other'] if th else ['one'], [1] if th else [0], reqs if th else reqs[:1]),
        (two_i, one_o, ['nat', 'rev', 'io_last'], ['std', 'two'] if th else ['two'], ['one', 'two'] if th else ['one'], [0, 1] if th else [0], reqs[:3]),
        (one_i, two_o, ['nat', 'rev', 'io_last'], ['std', 'two'] if th else ['two'], ['one', 'two'] if th else ['one'], [0, 1] if th else [0], reqs[:3]),
    ]
    for pl in plans:
        for cfg in itertools.product(*pl):
            if cfg[4].startswith('other') and not cfg[5]:
                continue
            r = emit(*cfg)
            if r:
                yield r
    if th:
        red = ['Q', 'QF', 'N', 'QO', 'F']
        for cfg in itertools.product(list(itertools.product(red, repeat=3)), list(itertools.product(['D', 'DF', 'F', 'DD'], repeat=2)), ['nat', 'rev'], ['two'], ['one'], [0], reqs[:1]):
            r = emit(*cfg)
            if r:
                yield r


def run2(c, cfg):
    ins, outs, order, codes, sigs, extra, req = cfg
    graphs = [subgraph('main', ins, outs, codes in ('two',))]
    if extra:
        graphs.append(subgraph('g1', ['Q', 'F'], ['D', 'F'], codes in ('two',)))
    buf = serialize(graphs, order, codes, SIGS[sigs])
    a = parse(buf)
    ga = Graph(a, 0)
    tin, tout = (getattr(tf, r) for r in req)
    st_in = [input_status(ga, i) for i in ga.ins]
    st_out = [output_status(ga, i) for i in ga.outs]
    codes_used = {o.builtinCode for o in a.operatorCodes}
    hard = 'may' in st_in or 'may' in st_out or not ({OP.QUANTIZE, OP.DEQUANTIZE} & codes_used)
    c.step(2)
    keep = bytes(buf)
    try:
        res = U.modify_integer_quantized_model_io_type(buf, inference_input_type=tin, inference_output_type=tout)
    except ValueError as e:
        c.rejected()
        c.check(hard, 'rejected although every quantize/dequantize operator can be removed: %s', e)
        c.eval()
        c.outcome(('error', str(e)[:30]))
        return
    c.check(buf == keep, 'the model passed in was modified')
    c.accepted()
    try:
        b = parse(res)
        check_rest(c, a, b, skip=(0,))
        gb = Graph(b, 0)
        compare_graph(c, ga, gb, req[0] == 'int8', ['D'] if req[1] == 'int8' else [])
        check_sigs(c, a, b, {0: (ga, gb)})
    except Invalid as e:
        c.fail('the resulting file is invalid: %s' % e)
    c.eval()
    c.outcome([dump(gb.ins), dump(gb.outs), len(gb.g.operators), ins, outs])
    if len(ins) == 2:
        c.sample('inputs %s, outputs %s, %d operators left of %d' % (
            [tensor_name(gb, i) for i in gb.ins], [tensor_name(gb, i) for i in gb.outs], len(gb.g.operators), len(ga.g.operators)))


# ---------------------------------------------------------------------- Y03
def space3(th):
    seen = set()
    one = [(f,) for f in OUT_FORMS3]
    two = list(itertools.product(OUT_FORMS3, repeat=2))
    three = list(itertools.product(['L', 'D', 'LD', 'LF', 'F', 'LB', 'LL'], repeat=3))
    second = [None, ('L', 'D'), ('F', 'LD'), ('LF', 'L'), ('DF', 'L', 'LD')]
    orders = ['nat', 'rev', 'io_last', 'io_first']
    plans = [
        (one, orders, list(CODES), list(SIGS), second, [('F',), ('Q', 'P')]),
        (two, orders if th else ['nat', 'rev', 'io_last'], list(CODES) if th else ['std', 'two'], ['one', 'other'], [second[1], second[3], second[4]] if th else [second[1]], [('F',), ('QO',)] if th else [('F',)]),
        (three, orders if th else ['nat', 'rev'], ['std', 'two', 'min'] if th else ['two'], ['one', 'two', 'other'] if th else ['two'], [None, second[4]] if th else [None], [('F',)]),
    ]
    for pl in plans:
        for outs, order, codes, sigs, sec, ins in itertools.product(*pl):
            if sigs.startswith('other') and not sec:
                continue
            k = 'out=%s order=%s codes=%s sigs=%s second=%s in=%s' % ('+'.join(outs), order, codes, sigs, '+'.join(sec or ['none']), '+'.join(ins))
            if k in seen:
                continue
            seen.add(k)
            yield k, (outs, order, codes, sigs, sec, ins)


def run3(c, cfg):
    outs, order, codes, sigs, sec, ins = cfg
    graphs = [subgraph('main', ins, outs, codes == 'two')]
    if sec:
        graphs.append(subgraph('g1', ['Q'], sec, codes == 'two'))
    buf = serialize(graphs, order, codes, SIGS[sigs])
    a = parse(buf)
    gas = [Graph(a, k) for k in range(len(graphs))]
    hard = not any(o.builtinCode == OP.DEQUANTIZE or o.customCode == b'LceDequantize' for o in a.operatorCodes)
    for g in gas:
        for i in g.outs:
            p = g.producer(i)
            st = [output_status(g, i, 'DL')]
            if p is not None and g.kind(p) == 'D':
                st.append(output_status(g, arr(p.inputs)[0], 'L'))
            hard |= 'may' in st
    c.step(2)
    keep = bytes(buf)
    try:
        res = U.strip_lcedequantize_ops(buf)
    except ValueError as e:
        c.rejected()
        c.check(hard, 'rejected although every dequantize operator can be removed: %s', e)
        c.eval()
        c.outcome(('error', str(e)[:30]))
        return
    c.check(buf == keep, 'the model passed in was modified')
    c.accepted()
    try:
        b = parse(res)
        check_rest(c, a, b, skip=range(len(graphs)))
        gbs = [Graph(b, k) for k in range(len(graphs))]
        for ga, gb in zip(gas, gbs):
            c.check(ga.g.name == gb.g.name, 'subgraph name changed')
            compare_graph(c, ga, gb, False, ['D', 'L'])
        check_sigs(c, a, b, {k: (x, y) for k, (x, y) in enumerate(zip(gas, gbs))})
    except Invalid as e:
        c.fail('the resulting file is invalid: %s' % e)
    c.eval()
    c.outcome([dump(g.outs) for g in gbs] + [len(g.g.operators) for g in gbs])
    if len(outs) == 2:
        c.sample('outputs %s' % [tensor_name(gbs[0], i) for i in gbs[0].outs])


if __name__ == '__main__':
    pymc.main({'Y02': (space2, run2), 'Y03': (space3, run3)})
