#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough      decide one property on /repo's tree
   check.py PROPERTY --replay FILE       re-run one reported violation

Exit 0: the property held on everything explored (known findings are printed);
exit 1: VIOLATION line(s); exit 2: no answer (the tree does not compile with
the harness, or the machinery failed)."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('LCE_REPO', '/repo')
KER = REPO + '/larq_compute_engine/tflite/kernels/'
sys.path.insert(0, os.path.join(HERE, 'lib'))


class NoAnswer(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise NoAnswer('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-6000:]))
    return r.stdout


def par(cmds):
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(sh, cmds))


# ---------------------------------------------------------------- C++ kernels
CXX = ['clang++', '-O1', '-g1', '-std=c++17', '-w', '-I%s/stubs' % HERE, '-I%s/harness' % HERE, '-I%s' % REPO]


def build_kernels(main, d, ruy=True, out='h'):
    f = CXX + ['-fsanitize=address'] + (['-DTFLITE_WITH_RUY'] if ruy else [])
    src = {n: KER + n + '.cc' for n in ('bconv2d', 'quantization', 'bmaxpool')}
    src['main'] = '%s/harness/%s.cc' % (HERE, main)
    objs = [os.path.join(d, out + '_' + n + '.o') for n in src]
    par([f + ['-c', s, '-o', o] for s, o in zip(src.values(), objs)])
    sh(['clang++', '-fsanitize=address'] + objs + ['-o', os.path.join(d, out)])
    return os.path.join(d, out)


def kernels(main):
    return lambda d: [[build_kernels(main, d)]]


def arm(bits, *mains):
    """LCE compiled for AArch64 or 32-bit ARM, on the interpreter of a64/ or a32/."""
    def f(d):
        h, n = '%s/a%d' % (HERE, bits), 'A%d' % bits
        g = CXX + ['-DTFLITE_WITH_RUY', '-I' + h, '-DLCE_' + n, '-D%s_DIR="%s"' % (n, d)]
        par([['bash', h + '/build.sh', REPO, d], ['clang++', '-O2', '-g1', '-std=c++17', '-w', '-c', h + '/emu.cc', '-o', d + '/emu.o'],
             g + ['-fsanitize=address', '-c', h + '/shim.cc', '-o', d + '/shim.o']] +
            [g + ['-fsanitize=address', '-c', '%s/harness/%s.cc' % (HERE, m), '-o', d + '/main_%s.o' % m] for m in mains])
        for m in mains:
            sh(['clang++', '-fsanitize=address', '-rdynamic'] + [d + '/%s.o' % n for n in ('emu', 'shim', 'main_' + m)] + ['-o', d + '/' + m, '-ldl'])
        return [[d + '/' + m] for m in mains]
    return f


def build_bgemm(d):
    f = CXX + ['-fno-builtin', '-DTFLITE_WITH_RUY']
    par([f + ['-fsanitize-coverage=edge,trace-loads,trace-stores', '-c', KER + 'bconv2d.cc', '-o', d + '/cov.o'],
         f + ['-c', HERE + '/harness/bgemm.cc', '-o', d + '/main.o']])
    # (the instrumented object first: its copies of inline functions win)
    sh(['clang++', d + '/cov.o', d + '/main.o', '-o', d + '/h'])
    return [[d + '/h']]


def build_reg(d):
    return [[build_kernels('reg', d)], [build_kernels('reg', d, ruy=False, out='noruy')]]


# ----------------------------------------------------------------------- MLIR
LLVM = '/usr/lib/llvm-18'
ML = REPO + '/larq_compute_engine/mlir/'
MLINK = ['-L' + LLVM + '/lib', '-lMLIR', '-lLLVM-18', '-Wl,-rpath,' + LLVM + '/lib']
# generated file -> the patterns it is generated from
INC = {'op_removal': 'op_removal_patterns', 'prepare_target_arm': 'prepare_patterns_target_arm', 'prepare_target_other': 'prepare_patterns_common',
       'optimize_target_arm': 'optimize_patterns_target_arm', 'optimize_target_other': 'optimize_patterns_common',
       'bitpack_activations': 'bitpack_activations_patterns', 'bitpack_weights': 'bitpack_weights_patterns',
       'quantize': 'quantize_patterns', 'fuse_padding': 'fuse_padding'}


def mcxx(d):
    return ['clang++', '-O1', '-g1', '-std=c++17', '-w', '-fno-rtti', '-I%s/mlir/include' % HERE, '-I%s/gen' % d, '-I%s/harness' % HERE, '-I%s/mlir' % HERE,
            '-I%s/stubs' % HERE, '-I' + REPO, '-isystem', LLVM + '/include']


def generate(d):
    """The dialects and rewrite patterns, from the definitions in the repository."""
    gen = ['python3', HERE + '/mlir/gen.py']
    par([gen + [m, REPO, d + '/gen'] for m in ['ops', 'standin'] + ['%s.td=generated_%s.inc' % (t, i) for i, t in INC.items()]])


def build_mlir(main, srcs, extra=(), flags=(), san=(), objs=()):
    def f(d):
        generate(d)
        files = [ML + s + '.cc' for s in srcs] + [HERE + '/mlir/standin.cc', HERE + '/mlir/eval.cc', '%s/mlir/%s.cc' % (HERE, main)] + list(extra)
        os_ = ['%s/%d.o' % (d, i) for i in range(len(files))]
        par([mcxx(d) + list(flags) + (['-fexceptions'] if s.endswith('mlir/eval.cc') else []) + ['-c', s, '-o', o] for s, o in sorted(zip(files, os_), key=lambda x: -os.path.getsize(x[0]))])
        sh(['clang++'] + list(san) + list(objs) + os_ + ['-o', d + '/h'] + MLINK)
        return [[d + '/h']]
    return f


# the conversion entry points, in the scripted TensorFlow of mlir/world.cc
DRIVER = ['tf_tfl_passes', 'tf_to_tfl_flatbuffer']
ENTRY = ['python/common', 'python/graphdef_tfl_flatbuffer', 'python/saved_model_tfl_flatbuffer', 'python/pybind_export']
PASSES = ['ir/lce_ops', 'transforms/bitpack'] + ['transforms/' + p for p in ('set_batch_size', 'op_removal', 'prepare_tf', 'optimize', 'bitpack_weights', 'fuse_padding', 'quantize', 'detection_postprocess', 'legalize_tflite')]


def build_e2e(main, srcs, rt_flags=()):
    """Passes and runtime operators in one program."""
    def f(d):
        objs = [d + '/rt.o'] + ['%s/k_%s.o' % (d, n) for n in ('bconv2d', 'quantization', 'bmaxpool')]
        cmds = [CXX + list(rt_flags) + ['-DTFLITE_WITH_RUY', '-I%s/mlir' % HERE, '-c', s, '-o', o] for s, o in zip([HERE + '/mlir/runtime.cc'] + [KER + n + '.cc' for n in ('bconv2d', 'quantization', 'bmaxpool')], objs)]
        par(cmds)
        world = [HERE + '/mlir/world.cc'] if DRIVER[0] in srcs else []
        return build_mlir(main, srcs, objs=objs, extra=world)(d)
    return f


def build_batch(d):
    par([mcxx(d) + ['-c', ML + 'transforms/set_batch_size.cc', '-o', d + '/sbs.o'],
         mcxx(d) + ['-c', HERE + '/mlir/batch.cc', '-o', d + '/main.o']])
    sh(['clang++', d + '/sbs.o', d + '/main.o', '-o', d + '/h'] + MLINK)
    return [[d + '/h']]


# --------------------------------------------------------------------- Python
LPY = '/opt/lce/venv/bin/python'


def python(main, **kw):
    env = dict(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TF_USE_LEGACY_KERAS='1', TF_CPP_MIN_LOG_LEVEL='3',
               CUDA_VISIBLE_DEVICES='-1', TF_ENABLE_ONEDNN_OPTS='0', OMP_NUM_THREADS='1', **kw)
    return ['env'] + ['%s=%s' % kv for kv in env.items()] + [LPY, '%s/py/%s.py' % (HERE, main)]


def pyprop(main):
    return lambda d: [python(main)]


def build_binding(d):
    f = ['clang++', '-O1', '-g1', '-std=c++17', '-w', '-fPIC', '-fsanitize=address', '-shared-libasan', '-I%s/stubs/binding' % HERE, '-I%s/stubs' % HERE, '-I' + REPO,
         '-I/opt/lce/venv/lib/python3.12/site-packages/pybind11/include', '-I/usr/include/python3.12']
    par([f + ['-c', REPO + '/larq_compute_engine/tflite/python/interpreter_wrapper_lite.cc', '-o', d + '/w.o'],
         f + ['-c', HERE + '/harness/binding_ops.cc', '-o', d + '/o.o']])
    sh(['clang++', '-shared', '-fsanitize=address', '-shared-libasan', d + '/w.o', d + '/o.o', '-o', d + '/interpreter_wrapper_lite.so'])
    asan = sh(['clang', '-print-file-name=libclang_rt.asan-x86_64.so']).strip()
    return [python('binding', LD_PRELOAD=asan, PYTHONMALLOC='malloc') + [d]]


PROPS = {
    'Y01': pyprop('convert'), 'Y04': pyprop('predict'), 'Y05': build_binding,
    'Y02': pyprop('io_types'), 'Y03': pyprop('io_types'),
    'M01': build_batch,
    'M02': build_mlir('recog', ['ir/lce_ops', 'transforms/bitpack', 'transforms/prepare_tf']),
    'M03': build_mlir('opt', ['ir/lce_ops', 'transforms/bitpack', 'transforms/optimize']),
    'M04': build_mlir('thresh', ['ir/lce_ops', 'transforms/bitpack', 'transforms/optimize']),
    'M05': build_mlir('fold', ['ir/lce_ops', 'transforms/bitpack', 'transforms/optimize', 'transforms/bitpack_weights', 'transforms/quantize']),
    'M06': build_mlir('pad', ['ir/lce_ops', 'transforms/bitpack', 'transforms/prepare_tf', 'transforms/fuse_padding']),
    'M07': build_mlir('quant', ['ir/lce_ops', 'transforms/bitpack', 'transforms/quantize']),
    'M08': build_mlir('removal', ['ir/lce_ops', 'transforms/bitpack', 'transforms/op_removal']),
    'M09': build_mlir('legal', ['ir/lce_ops', 'transforms/bitpack', 'transforms/legalize_tflite', 'transforms/translate_tflite']),
    'M10': build_mlir('det', ['ir/lce_ops', 'transforms/bitpack', 'transforms/detection_postprocess']),
    'M12': build_e2e('e2e', DRIVER + PASSES),
    'M11': build_e2e('pipe', DRIVER + ENTRY + PASSES), 'M13': build_e2e('pipe', DRIVER + ENTRY + PASSES), 'M14': build_e2e('pipe', DRIVER + ENTRY + PASSES),
    'K13': build_e2e('wire', ['ir/lce_ops', 'transforms/bitpack', 'transforms/legalize_tflite', 'transforms/translate_tflite']),
    'K01': kernels('conv'), 'K02': kernels('conv'), 'K03': kernels('conv'),
    'K04': kernels('conv'), 'K05': kernels('conv'), 'K06': kernels('hist'),
    'K07': kernels('reject'), 'K08': build_bgemm, 'K09': kernels('quant'),
    'A01': arm(64, 'conv'), 'A02': arm(64, 'quant', 'pool'), 'A03': arm(64, 'hist'),
    'A04': arm(32, 'conv'), 'A05': arm(32, 'quant', 'pool'), 'A06': arm(32, 'hist'),
    'K10': kernels('quant'), 'K11': kernels('pool'), 'K12': build_reg,
}


# ------------------------------------------------------------------- running
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0',
           PYTHONDONTWRITEBYTECODE='1', TF_CPP_MIN_LOG_LEVEL='3', CUDA_VISIBLE_DEVICES='-1')


def run_one(cmd, prop, tier, out, replay=None, timeout=None):
    """Runs one explorer; returns its result dictionary."""
    a = cmd + ['--prop', prop, '--tier', tier, '--out', out]
    if replay is not None:
        a += ['--replay', replay]
    if os.path.exists(out):
        os.unlink(out)
    p = subprocess.Popen(a, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors='replace', start_new_session=True)
    try:
        log, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise NoAnswer('explorer exceeded its time limit')
    if p.returncode not in (0, 1) or not os.path.exists(out):
        raise NoAnswer('explorer failed (%s):\n%s' % (p.returncode, log[-6000:]))
    return json.load(open(out))


def known(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))['findings'] if f['property'] == prop]


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    os.makedirs(HERE + '/build', exist_ok=True)
    os.makedirs(HERE + '/evidence', exist_ok=True)
    d = tempfile.mkdtemp(prefix=prop + '-', dir=HERE + '/build')
    try:
        if tier == '--replay':
            return replay(prop, sys.argv[3], d)
        return check(prop, tier, d)
    except NoAnswer as e:
        print('NO ANSWER property=%s: %s' % (prop, e))
        return 2
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(prop, path, d):
    r = json.load(open(path))
    cmds = PROPS[prop](d)
    res = run_one(cmds[r['explorer']], prop, r['tier'], d + '/out.json', r['key'])
    found = res['violations'] + res.get('classes', [])
    for v in found:
        print('%s\n  %s' % (v['key'], v['msg']))
    print('reproduced' if found else 'not reproduced in isolation (the exploration reported: %s)' % r['msg'])
    return 1 if found else 0


def check(prop, tier, d):
    t0 = time.time()
    cmds = PROPS[prop](d)
    t_build = time.time() - t0
    tot = dict(configs=0, evaluations=0, steps=0, accepted=0, rejected=0, distinct_outcomes=0)
    samples, viols, extra = [], [], {}
    for n, c in enumerate(cmds):
        r = run_one(c, prop, tier, d + '/out.json')
        for k in tot:
            tot[k] += r.get(k, 0)
        samples += r['samples']
        viols += [dict(v, explorer=n) for v in r['violations'] + r.get('classes', [])]
        extra.update(r.get('extra', {}))
    if not viols and not (tot['configs'] and tot['evaluations']):
        raise NoAnswer('nothing was explored')
    kn = known(prop)
    new, old, hits = [], [], {}
    for v in viols:
        hit = next((f for f in kn if v['key'] in f.get('keys', []) or ('class' in v and v['class'] == f.get('class'))), None)
        if hit:
            if hit not in old:
                old.append(hit)
            hits[hit['what']] = hits.get(hit['what'], 0) + v.get('count', 1)
            continue
        new.append(v)
    rd = HERE + '/evidence/replay'
    reported = []
    for v in new:
        if len(reported) >= 6:
            break
        # confirm in a process of its own
        confirmed = True
        try:
            r = run_one(cmds[v['explorer']], prop, tier, d + '/replay.json', v['key'], timeout=300)
            confirmed = bool(r['violations'] + r.get('classes', []))
        except NoAnswer:
            confirmed = False
        if not confirmed and 'does not terminate' in v['msg']:
            continue  # only slow
        v['confirmed'] = confirmed
        os.makedirs(rd, exist_ok=True)
        path = '%s/%s-%d.json' % (rd, prop, len(reported))
        json.dump(dict(property=prop, tier=tier, explorer=v['explorer'], key=v['key'], msg=v['msg'], confirmed_in_isolation=confirmed,
                       command='python3 %s/check.py %s --replay %s' % (HERE, prop, path)), open(path, 'w'), indent=1)
        reported.append((v, path))
    for f in old:
        print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    for v, path in reported:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  %s\n  %s' % (v['key'], v['msg'][:1500]))
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking',
              coverage=dict(states=tot['configs'], transitions=tot['steps'], traces_validated_against_impl=tot['evaluations'],
                            exhaustive=True, samples=samples[:12] or ['-'], distinct_outcomes=tot['distinct_outcomes'],
                            accepted=tot['accepted'], rejected=tot['rejected'], build_s=round(t_build, 1),
                            meaning='states: distinct configurations explored; transitions: operator/program steps executed (creation, preparation, every invocation or pass step); traces_validated_against_impl: complete executions of the real code compared with the reference model',
                            **(dict(known_findings=hits) if hits else {}), **extra),
              violations=len(reported), wall_s=round(time.time() - t0, 2))
    json.dump(ev, open('%s/evidence/%s.json' % (HERE, prop), 'w'), indent=1)
    print('%s %s: %d configurations, %d executions compared, %d violations, %.1f s' %
          (prop, tier, tot['configs'], tot['evaluations'], len(reported), time.time() - t0))
    return 1 if reported else 0


if __name__ == '__main__':
    sys.exit(main())
