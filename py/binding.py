"""Y05: the native binding (interpreter_wrapper_lite.cc / _utils.h), compiled
under AddressSanitizer against a stand-in interpreter.  argv[1] is the
directory of the built module."""
import ctypes, itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import numpy as np
import pymc

D = sys.argv.pop(1)
sys.path.insert(0, D)
import interpreter_wrapper_lite as W
L = ctypes.CDLL(os.path.join(D, 'interpreter_wrapper_lite.so'))
L.stub_log.restype = ctypes.c_char_p

TY = dict(float32=1, int32=2, uint8=3, int64=4, bool=6, int16=7, int8=9)
UNSUPPORTED = dict(complex64=8, float16=10, float64=11, uint64=13, uint32=16, uint16=17)
BAD_TY = dict(none=0, string=5, resource=14, int4=18)


def spec(tensors, ins, outs, fail_build=0, fail_alloc=0, fail_invoke=-1, resize=0):
    """tensors: (type, shape, quantization or None); quantization: (scale, zp, scales, zps)"""
    r = ['LCE1', str(len(tensors))]
    for ty, sh, q in tensors:
        r += [str(TY.get(ty, UNSUPPORTED.get(ty, BAD_TY.get(ty)))), str(len(sh))] + [str(x) for x in sh]
        if q is None:
            r += ['0', '0', '0']
        else:
            s, z, ss, zs = q
            r += ['1', repr(s), str(z), str(len(ss))] + [repr(x) for x in ss] + [str(len(zs))] + [str(x) for x in zs]
    r += [str(len(ins))] + [str(x) for x in ins] + [str(len(outs))] + [str(x) for x in outs]
    r += [str(fail_build), str(fail_alloc), str(fail_invoke), str(resize)]
    return ' '.join(r).encode()


def log():
    r = L.stub_log().decode()
    L.stub_clear()
    return [x for x in r.split(';') if x]


def invoke_bytes(in_bytes, outs, inv, resize):
    """What the stand-in writes; outs: (type, shape)"""
    h = 7
    for b in in_bytes:
        for x in b:
            h = (h * 31 + x) & 0xffffffff
    res = []
    for j, (ty, sh) in enumerate(outs):
        sh = list(sh)
        if resize and sh:
            sh[0] = 1 + inv % 3
        n = int(np.prod(sh)) * np.dtype(ty).itemsize
        v = (h + 131 * np.arange(n, dtype=np.uint64) + 17 * j) & 0xffffffff
        b = ((v >> 3) & 1 if ty == 'bool' else (v ^ (v >> 7)) & 0xff).astype(np.uint8)
        res.append(np.frombuffer(b.tobytes(), dtype=ty).reshape(sh))
    return res


def arr(ty, sh, k):
    n = int(np.prod(sh))
    if ty == 'bool':
        return (np.arange(n) * (k + 1) % 3 == 0).reshape(sh)
    if ty.startswith('float'):
        return (np.arange(n) * 1.5 - k).astype(ty).reshape(sh)
    return ((np.arange(n, dtype=np.int64) * 37 + 11 * k) % 119 - 50).astype(ty).reshape(sh)


SHAPES = [(), (1,), (3,), (0,), (1, 3), (2, 3), (2, 1, 3), (1, 2, 2, 3)]


# ------------------------------------------------- which arrays are accepted
def variants(ty, sh):
    """name -> (object, None | expected array)"""
    good = arr(ty, sh, 1)
    r = {'exact': (good, good), 'readonly': None}
    ro = good.copy()
    ro.flags.writeable = False
    r['readonly'] = (ro, good)
    if good.ndim > 0:
        r['fortran'] = (np.asfortranarray(good), good)
        big = np.repeat(np.repeat(good, 2, axis=0), 3, axis=-1)
        v = big[::2, ..., ::3] if good.ndim > 1 else np.repeat(good, 2)[::2]
        r['strided'] = (v, good)
        r['reversed'] = (good[::-1].copy()[::-1], good)
        r['broadcast'] = (np.broadcast_to(good.flat[:1].reshape((1,) * good.ndim), sh), np.broadcast_to(good.flat[:1].reshape((1,) * good.ndim), sh)) if good.size else (good, good)
        buf = np.zeros(good.nbytes + 1, np.uint8)
        u = buf[1:].view() if good.nbytes else buf[:0]
        if good.nbytes:
            u[:] = np.frombuffer(good.tobytes(), np.uint8)
            r['unaligned'] = (np.ndarray(sh, good.dtype, buffer=buf, offset=1), good)
        m = np.ndarray.__new__(type('Sub', (np.ndarray,), {}), sh, good.dtype)
        m[...] = good
        r['subclass'] = (m, good)
        r['matrix_order'] = (np.ascontiguousarray(good.T).T, good)
    for k, other in enumerate(['float32', 'float64', 'float16', 'int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64', 'bool', 'complex64',
                               'S1', 'U1', 'O', 'datetime64[s]', 'V4', 'V1']):
        if other != ty:
            r['type_' + other] = (np.zeros(sh, other), None)
    for code in 'qlib':
        if np.dtype(code) == np.dtype(ty):
            r['alias_' + code] = (good.astype(code), good, True)
    if np.dtype(ty).itemsize > 1:
        r['big_endian'] = (good.astype(np.dtype(ty).newbyteorder('>')), good, True)
    r['structured'] = (np.zeros(sh, [('a', ty)]), None)
    # shapes
    for n, s2 in (('one_more_dim', sh + (1,)), ('leading_dim', (1,) + sh), ('flat', (int(np.prod(sh)),)), ('fewer_dims', sh[1:]), ('fewer_dims_back', sh[:-1]),
                  ('longer', sh[:-1] + (sh[-1] + 1,) if sh else (1,)), ('shorter', sh[:-1] + (max(sh[-1] - 1, 0),) if sh else (0,)), ('first_longer', (sh[0] + 1,) + sh[1:] if sh else (2,)),
                  ('first_zero', (0,) + sh[1:]), ('transposed', sh[::-1]), ('scalar', ()), ('twice_first', (sh[0] * 2,) + sh[1:] if sh else (2,)),
                  ('swapped_size', sh[:-2] + (sh[-1] * sh[-2], 1) if len(sh) > 1 else (1,)), ('many_dims', (1,) * 8 + sh)):
        if tuple(s2) != tuple(sh):
            r['shape_' + n] = (arr(ty, s2, 2), None)
    # objects that are no arrays
    r['list'] = (good.tolist(), good, True)
    r['None'] = (None, None)
    r['ragged'] = ([[1, 2], [3]], None)
    r['string'] = ('text', None)
    r['bytes'] = (b'\0' * good.nbytes, None)
    r['object'] = (object(), None)
    r['dict'] = ({}, None)
    r['int'] = (3, np.asarray(3, ty) if sh == () else None, True)
    r['bytearray'] = (bytearray(good.tobytes()), good, True)
    r['memoryview'] = (memoryview(good), good, True)
    r['empty_list'] = ([], good if sh == (0,) else None, True)

    class Raises:
        def __array__(self, *a, **k):
            raise ZeroDivisionError('conversion')
    r['conversion_error'] = (Raises(), None)

    class Gives:
        def __array__(self, *a, **k):
            return good
    r['array_like'] = (Gives(), good, True)
    return r


def space(th):
    def mk(*a):
        return ' '.join(map(str, a)), a
    for ty, sh in itertools.product(TY, SHAPES):
        for v in variants(ty, sh):
            for n, pos in ((1, 0), (2, 0), (2, 1)):
                yield mk('input', ty, sh, v, n, pos)
    for ty, sh, q in itertools.product(list(TY) + list(UNSUPPORTED) + list(BAD_TY), SHAPES, range(len(QUANT))):
        yield mk('report', ty, sh, q)
    for n, a in itertools.product((1, 2, 3), ('none', 'fewer', 'more', 'tuple', 'generator', 'array', 'no_argument', 'two_arguments', 'dict', 'str', 'subclass', 'swapped')):
        yield mk('count', n, a)
    for t, r, i, x in itertools.product((1, 2, 7), (0, 1), (0, 1), (0, 1)):
        yield mk('options', t, r, i, x)
    for f in ('text', 'empty', 'build', 'alloc', 'not_bytes', 'str', 'truncated'):
        yield mk('broken', f)
    sig = [('float32', (1, 2)), ('int8', (2,)), ('bool', (1, 1, 3)), ('int64', ()), ('uint8', (0, 2)), ('int16', (3, 1))]
    for ni, no in itertools.product((1, 2, 3), (1, 2, 3)):
        for i, o in itertools.product(itertools.product(range(len(sig)), repeat=ni) if th or ni < 3 else [(0, 1, 2), (3, 4, 5)],
                                      itertools.product(range(len(sig)), repeat=no) if th or no < 3 else [(0, 1, 2), (3, 4, 5), (1, 1, 1)]):
            if ni == 3 and no == 3 and sum(i + o) % (4 if th else 1):
                continue
            for order in (0, 1):
                yield mk('sequence', i, o, order)
    # histories of calls: a: data 1, b: data 2, w: wrong data, f: an invocation that fails, m: results of the call before are overwritten, d: results are deleted
    for n in range(1, 6 if th else 5):
        for h in itertools.product('abwmd', repeat=n):
            for resize, passthrough in ((0, 0), (1, 0), (0, 1)):
                for fail in ((-1, 0, 1) if n <= 3 else (-1,)):
                    yield mk('history', ''.join(h), resize, passthrough, fail)


#         legacy scale, zero point, scales, zero points
QUANT = [None, (0.5, 3, [0.5], [3]), (0.25, -128, [0.25], [-128]), (0.5, 0, [0.5, 0.25, 2.0], [0, 0, 0]), (0.1, 7, [0.10000000149011612], [7]),
         (0.5, 2, [0.5, 0.25], [2, 3]), (0.5, 1, [0.25], [1]), (0.0, 0, [], []), (0.5, 1, [0.5, 0.25], [1, 1]), (1e-30, 2147483647, [1e-30], [2147483647]), (0.5, 5, [0.5], [4])]

SIG = [('float32', (1, 2)), ('int8', (2,)), ('bool', (1, 1, 3)), ('int64', ()), ('uint8', (0, 2)), ('int16', (3, 1))]


def same(a, b):
    return isinstance(a, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == np.ascontiguousarray(b).tobytes()


def invoked(events):
    return [[bytes.fromhex(x) for x in e.split(' ')[2].split(',')[:-1]] for e in events if e.startswith('invoke ')]


def attempt(c, f):
    c.step()
    try:
        return f(), None
    except Exception as e:
        return None, e


def run_input(c, ty, sh, v, n, pos):
    t = [(ty, sh, None)] * n + [('int32', (2,), None)]
    it = W.LiteInterpreter(spec(t, list(range(n)), [n]), 1, False, False, False)
    e = variants(ty, sh)[v]
    obj, want = e[0], e[1]
    optional = len(e) > 2      # equal in value; may be rejected
    others = [arr(ty, sh, 5 + k) for k in range(n)]
    ins = list(others)
    ins[pos] = obj
    log()
    got, err = attempt(c, lambda: it.predict(ins))
    inv = invoked(log())
    c.eval()
    c.outcome((ty, sh, v, str(type(err)), inv))
    if err is not None:
        c.rejected()
        c.check(want is None or optional, 'rejected: %r', err)
        c.check(not inv, 'the model was invoked although the input was rejected (%r)', err)
        # the interpreter is still usable
        got, err = attempt(c, lambda: it.predict(others))
        c.check(err is None, 'a correct call after a rejected one raised %r', err)
        c.check(invoked(log()) == [[x.tobytes() for x in others]], 'a correct call after a rejected one passed on wrong data')
        return
    c.accepted()
    c.check(want is not None, 'accepted')
    w = list(others)
    w[pos] = want
    c.check(inv == [[np.ascontiguousarray(x).tobytes() for x in w]], 'the input tensors held %s', inv)
    res = invoke_bytes(inv[0], [('int32', (2,))], 1, 0)
    c.check(len(got) == 1 and same(got[0], res[0]), 'wrong result %r', got)
    c.sample(v)


def run_report(c, ty, sh, qi):
    q = QUANT[qi]
    t = [('int8', (1,), (0.75, 1, [0.75], [1])), (ty, sh, q)]
    for ins, outs, p in (([0, 1], [0], 'input_'), ([0], [1, 0], 'output_')):
        it = W.LiteInterpreter(spec(t, ins, outs), 1, False, False, False)
        idx = ins if p == 'input_' else outs
        for what in ('types', 'shapes', 'scales', 'zero_points'):
            got, err = attempt(c, lambda: getattr(it, p + what))
            want, ok = [], True
            for i in idx:
                ty_, sh_, q_ = t[i]
                if what == 'types':
                    ok &= ty_ in TY
                    want.append(np.dtype(ty_) if ty_ in TY else None)
                elif what == 'shapes':
                    want.append(tuple(sh_))
                elif q_ is None:
                    want.append(None)
                else:
                    s, z, ss, zs = q_
                    if what == 'zero_points':
                        ok &= all(x == z for x in zs)
                        want.append(z)
                    else:
                        ok &= len(ss) != 1 or np.float32(ss[0]) == np.float32(s)
                        want.append(float(np.float32(s)) if len(ss) == 1 else [float(np.float32(x)) for x in ss])
            c.eval()
            c.outcome((p + what, ty, sh, qi, repr(got)))
            if not ok:
                # inconsistent or unsupported: an error
                c.check(err is not None, '%s: returned %r', p + what, got)
                c.rejected()
                continue
            c.check(err is None, '%s raised %r', p + what, err)
            c.check(list(got) == want, '%s is %r instead of %r', p + what, got, want)
            c.accepted()


def run_count(c, n, a):
    t = [('int16', (2,), None)] * n + [('int32', (2,), None)]
    it = W.LiteInterpreter(spec(t, list(range(n))[::-1], [n]), 1, False, False, False)
    d = [arr('int16', (2,), k) for k in range(n)]
    args = {'none': ([],), 'fewer': (d[:-1],), 'more': (d + [d[0]],), 'tuple': (tuple(d),), 'generator': ((x for x in d),), 'array': (d[0],), 'no_argument': (),
            'two_arguments': (d, d), 'dict': ({0: d[0]},), 'str': ('ab'[:n],), 'subclass': (type('L', (list,), {})(d),), 'swapped': (d[::-1],)}[a]
    log()
    got, err = attempt(c, lambda: it.predict(*args))
    inv = invoked(log())
    c.eval()
    c.outcome((n, a, str(type(err))))
    if a in ('subclass', 'swapped'):
        c.check(err is None, 'raised %r', err)
        c.check(inv == [[x.tobytes() for x in args[0]]], 'inputs were passed on as %s', inv)
        c.accepted()
        return
    if err is None and a in ('tuple', 'generator'):
        c.check(inv == [[x.tobytes() for x in d]], 'inputs were passed on as %s', inv)
        return
    c.check(err is not None, 'accepted')
    c.check(not inv, 'the model was invoked')
    c.rejected()


def run_options(c, t, r, i, x):
    log()
    m = bytes(bytearray(spec([('int8', (1,), None)], [0], [0])))
    it, err = attempt(c, lambda: W.LiteInterpreter(m, t, bool(r), bool(i), bool(x)))
    del m
    c.check(err is None, 'raised %r', err)
    ev = log()
    conv = 'Register_BCONV_2D_REF' if r else 'Register_BCONV_2D_OPT_INDIRECT_BGEMM' if i else 'Register_BCONV_2D'
    want = 'build threads=%d delegates=%d LceBconv2d=%s LceQuantize=Register_QUANTIZE LceDequantize=Register_DEQUANTIZE LceBMaxPool2d=Register_BMAXPOOL_2D' % (t, x, conv)
    c.check(ev == [want, 'allocate'], 'the interpreter was set up as %s', ev)
    got, err = attempt(c, lambda: it.predict([np.array([4], np.int8)]))
    c.check(err is None and same(got[0], np.array([4], np.int8)), 'a pass-through model returned %r %r', got, err)
    c.eval()
    c.accepted()


def run_broken(c, f):
    m = spec([('int8', (1,), None)], [0], [0], fail_build=int(f == 'build'), fail_alloc=int(f == 'alloc'))
    m = {'text': b'no model', 'empty': b'', 'not_bytes': 3, 'str': None, 'truncated': m[:3]}.get(f, m)
    log()
    it, err = attempt(c, lambda: W.LiteInterpreter(m, 1, False, False, False))
    c.check(err is not None, 'accepted')
    log()
    c.eval()
    c.rejected()


def run_sequence(c, i, o, order):
    ins, outs = [SIG[k] for k in i], [SIG[k] for k in o]
    t = [x + (None,) for x in (outs + ins if order else ins + outs)]
    ii = list(range(len(outs), len(t))) if order else list(range(len(ins)))
    oo = list(range(len(outs))) if order else list(range(len(ins), len(t)))
    it = W.LiteInterpreter(spec(t, ii, oo), 1, False, False, False)
    log()
    c.check(list(it.input_types) == [np.dtype(x) for x, _ in ins] and list(it.output_types) == [np.dtype(x) for x, _ in outs], 'types %r %r', it.input_types, it.output_types)
    c.check(list(it.input_shapes) == [s for _, s in ins] and list(it.output_shapes) == [s for _, s in outs], 'shapes %r %r', it.input_shapes, it.output_shapes)
    old = []
    for call in range(2):
        d = [arr(x, s, k + 3 * call) for k, (x, s) in enumerate(ins)]
        keep = [x.copy() for x in d]
        got, err = attempt(c, lambda: it.predict(d))
        c.check(err is None, 'raised %r', err)
        inv = invoked(log())
        c.check(inv == [[x.tobytes() for x in keep]], 'input tensors held %s', inv)
        want = invoke_bytes(inv[0], outs, 1 + call, 0)
        c.check(isinstance(got, list) and len(got) == len(want) and all(same(g, w) for g, w in zip(got, want)), 'call %d returned %r instead of %r', call, got, want)
        c.check(all(same(x, y) for x, y in zip(d, keep)), 'the inputs were modified')
        old.append((got, want))
        c.eval()
        c.outcome([w.tobytes() for w in want])
    del it
    for got, want in old:
        c.check(all(same(g, w) for g, w in zip(got, want)), 'the results changed after a later call or the deletion of the interpreter')
    c.accepted()


def run_history(c, h, resize, passthrough, fail):
    ins, outs = [('int16', (2,)), ('float32', (1, 2))], [('int8', (2, 2)), ('int32', (1, 3))]
    t = [x + (None,) for x in ins + outs]
    oo = [2, 3] + ([0] if passthrough else [])
    it = W.LiteInterpreter(spec(t, [0, 1], oo, fail_invoke=fail, resize=resize), 1, False, False, False)
    log()
    old, inv_n = [], 0
    for op in h:
        if op == 'm':
            for got, want in old[-1:]:
                for g, w in zip(got, want):
                    c.check(g.flags.writeable, 'a result is read-only')
                    g[...] = 1
                    w[...] = 1
            continue
        if op == 'd':
            old = old[1:]
            continue
        d = [arr(x, s, 4 + (op == 'b')) for x, s in ins]
        if op == 'w':
            d[1] = d[1].astype(np.float64)
        got, err = attempt(c, lambda: it.predict(d))
        inv = invoked(log())
        if op == 'w':
            c.check(err is not None and not inv, 'wrong data was accepted')
            continue
        c.check(inv == [[x.tobytes() for x in d]], 'input tensors held %s', inv)
        failed = inv_n == fail
        inv_n += 1
        if failed:
            c.check(err is not None, 'a failing invocation returned %r', got)
            continue
        c.check(err is None, 'raised %r', err)
        want = [w.copy() for w in invoke_bytes(inv[0], outs, inv_n, resize)] + ([d[0].copy()] if passthrough else [])
        c.check(len(got) == len(want) and all(same(g, w) for g, w in zip(got, want)), 'returned %r instead of %r', got, want)
        old.append((got, want))
        for g_, w_ in old:
            c.check(all(same(g, w) for g, w in zip(g_, w_)), 'an earlier result changed')
        if resize:
            shp = it.output_shapes
            c.check(list(shp) == [w.shape for w in want[:2]], 'output shapes are %r after the outputs were resized', shp)
    del it
    for g_, w_ in old:
        c.check(all(same(g, w) for g, w in zip(g_, w_)), 'a result changed when the interpreter was deleted')
    c.eval()
    c.accepted()
    c.outcome((h, resize))


def run(c, cfg):
    globals()['run_' + cfg[0]](c, *cfg[1:])


if __name__ == '__main__':
    pymc.main({'Y05': (space, run)})
