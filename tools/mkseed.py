#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the specifications in tools/seeds_*.py and
confirms each in a scratch copy: it applies, builds, passes the tests, and the
demonstration passes without and fails with it.   mkseed.py [ID...]"""
import glob, importlib.util, json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KDEMO = '''#!/bin/bash
# Compiles the kernels of the tree in the current directory and compares their results.
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
F="-O1 -std=c++17 -w -DTFLITE_WITH_RUY -I$D/stubs -I$D -I$R"
K=$R/larq_compute_engine/tflite/kernels
for f in bconv2d quantization bmaxpool; do clang++ $F -c $K/$f.cc -o $T/$f.o || exit 3 & done
clang++ $F -c $D/demo.cc -o $T/demo.o || exit 3
wait
clang++ $T/*.o -o $T/demo && timeout 120 $T/demo
'''
ADEMO = '''#!/bin/bash
# Compiles the kernels of the tree in the current directory for AArch64 and runs
# them in an interpreter of that machine code.
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
bash $D/a64/build.sh $R $T || exit 3
F="-O1 -std=c++17 -w -DTFLITE_WITH_RUY -DLCE_A64 -DA64_DIR=\\"$T\\" -I$D/a64 -I$D/stubs -I$D -I$R"
clang++ -O2 -std=c++17 -w -c $D/a64/emu.cc -o $T/emu.o & P=$!
for f in a64/shim demo; do clang++ $F -fsanitize=address -c $D/$f.cc -o $T/$(basename $f).o || exit 3; done
wait $P || exit 3
clang++ -fsanitize=address -rdynamic $T/emu.o $T/shim.o $T/demo.o -o $T/demo -ldl || exit 3
ASAN_OPTIONS=detect_leaks=0 timeout 200 $T/demo
'''
MDEMO = '''#!/bin/bash
# Compiles the conversion passes of the tree in the current directory with the
# dialects and patterns generated from it, and runs demo.cc on them.
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
L=/usr/lib/llvm-18; M=$R/larq_compute_engine/mlir; K=$R/larq_compute_engine/tflite/kernels
ok() { wait "$1" || { echo "does not build"; exit 3; }; }
P=()
for m in ops standin op_removal_patterns.td=generated_op_removal.inc prepare_patterns_target_arm.td=generated_prepare_target_arm.inc prepare_patterns_common.td=generated_prepare_target_other.inc \\
  optimize_patterns_target_arm.td=generated_optimize_target_arm.inc optimize_patterns_common.td=generated_optimize_target_other.inc bitpack_activations_patterns.td=generated_bitpack_activations.inc \\
  bitpack_weights_patterns.td=generated_bitpack_weights.inc quantize_patterns.td=generated_quantize.inc fuse_padding.td=generated_fuse_padding.inc; do
  python3 $D/mlir/gen.py $m $R $T/gen & P+=($!)
done
for p in "${P[@]}"; do ok $p; done
F="-O1 -std=c++17 -w -fno-rtti -I$D/mlir/include -I$T/gen -I$D -I$D/mlir -I$D/stubs -I$R -isystem $L/include"
P=()
clang++ $F -fexceptions -c $D/mlir/eval.cc -o $T/eval.o & P+=($!)
clang++ $F -c $D/demo.cc -o $T/demo.o & P+=($!)
clang++ $F -c $D/mlir/standin.cc -o $T/standin.o & P+=($!)
for f in @SRC@; do clang++ $F -c $M/$f.cc -o $T/m_$(basename $f).o & P+=($!); done
@EXTRA@
for p in "${P[@]}"; do ok $p; done
clang++ $T/*.o -o $T/demo -L$L/lib -lMLIR -lLLVM-18 -Wl,-rpath,$L/lib || exit 3
timeout 120 $T/demo --jobs 1 --prop X --tier quick --out $T/o.json; E=$?
[ $E = 0 ] || cat $T/o.json
exit $E
'''
MEXTRA = '''clang++ $F -c $D/mlir/world.cc -o $T/world.o & P+=($!)
G="-O1 -std=c++17 -w -DTFLITE_WITH_RUY -I$D/stubs -I$D -I$R -I$D/mlir"
clang++ $G -c $D/mlir/runtime.cc -o $T/runtime.o & P+=($!)
for f in bconv2d quantization bmaxpool; do clang++ $G -c $K/$f.cc -o $T/k_$f.o & P+=($!); done'''
PASSES = ['ir/lce_ops', 'transforms/bitpack'] + ['transforms/' + p for p in ('set_batch_size', 'op_removal', 'prepare_tf', 'optimize', 'bitpack_weights', 'fuse_padding', 'quantize', 'detection_postprocess', 'legalize_tflite')]
DRIVER = ['tf_tfl_passes', 'tf_to_tfl_flatbuffer', 'python/common', 'python/graphdef_tfl_flatbuffer', 'python/saved_model_tfl_flatbuffer', 'python/pybind_export'] + PASSES
# @mlx.Same: a module that computes the same after the passes
MPRE = '''#include "common.h"
#include "mlir/Transforms/Passes.h"
using namespace mlx;
inline void Same(const std::string& text, const Build& build, const Inputs& in, const std::function<void(ModuleOp)>& after = {}) {
  if (!Preserves(text, build, in, 0, after)) EX->fail("the example itself makes no sense\\n%s", text.c_str());
}
#define DEMO(...) int main(int argc, char** argv) { return Main(argc, argv, [](const mc::Options&, mc::Explorer& ex) { ex.config([]() { return std::string("example"); }, []() __VA_ARGS__); }); }
'''
def run(c, cwd, **k):
    return subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(s):
    d = f'{H}/seeded/{s["id"]}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    kind = s.get('kind', 'kernel')
    if kind == 'kernel':
        shutil.copytree(H + '/stubs', d + '/stubs')
        for h in ('mc.h', 'mini_tflite.h', 'conv_common.h', 'ops_common.h'):
            shutil.copy(f'{H}/harness/{h}', d)
        open(d + '/demo.cc', 'w').write('#include "ops_common.h"\nusing namespace compute_engine::tflite;\n' + s['demo'])
        open(d + '/demo.sh', 'w').write(KDEMO)
    elif kind in ('a64', 'a32'):
        for t in ('stubs', kind): shutil.copytree(f'{H}/{t}', f'{d}/{t}')
        for h in ('mc.h', 'mini_tflite.h', 'conv_common.h', 'ops_common.h'): shutil.copy(f'{H}/harness/{h}', d)
        open(d + '/demo.cc', 'w').write('#include "shim.h"\n#include "ops_common.h"\nusing namespace compute_engine::tflite;\n' + s['demo'])
        open(d + '/demo.sh', 'w').write(ADEMO if kind == 'a64' else ADEMO.replace('AArch64', '32-bit ARM').replace('a64', 'a32').replace('A64', 'A32'))
    elif kind in ('mlir', 'driver'):
        shutil.copytree(H + '/stubs', d + '/stubs')
        os.makedirs(d + '/mlir')
        full = kind == 'driver'
        for h in ('mc.h',) + (('mini_tflite.h', 'conv_common.h', 'ops_common.h') if full else ()): shutil.copy(f'{H}/harness/{h}', d)
        for h in ('gen.py', 'standin.cc', 'eval.cc', 'eval.h', 'common.h') + (('world.cc', 'runtime.cc', 'runtime.h', 'exec.h') if full else ()): shutil.copy(f'{H}/mlir/{h}', d + '/mlir')
        for t in ('td', 'include'): shutil.copytree(f'{H}/mlir/{t}', f'{d}/mlir/{t}')
        src = DRIVER if full else ['ir/lce_ops', 'transforms/bitpack'] + ['transforms/' + x for x in s['passes']]
        if s.get('src'): src = s['src']
        open(d + '/demo.cc', 'w').write(MPRE + s['demo'])
        open(d + '/demo.sh', 'w').write(MDEMO.replace('@SRC@', ' '.join(src)).replace('@EXTRA@', MEXTRA if full else ''))
    else:
        for f, t in s['files'].items():
            if isinstance(t, tuple): (shutil.copytree if os.path.isdir(t[0]) else shutil.copy)(t[0], f'{d}/{f}')
            else: open(f'{d}/{f}', 'w').write(t)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(d + '/meta.json', 'w'), indent=1)
    w = '/tmp/seedwork'
    shutil.rmtree(w, ignore_errors=True)
    run(f'git clone -q /repo {w}', '/')
    for f, a, b, *nth in s['edits']:
        p = f'{w}/{f}'
        t = open(p).read()
        i = -1
        if nth:
            for _ in range(nth[0]): i = t.index(a, i + 1)
        else:
            assert t.count(a) == 1, (s['id'], f, t.count(a), a)
            i = t.index(a)
        open(p, 'w').write(t[:i] + b + t[i + len(a):])
    r = run('git diff', w)
    open(d + '/patch.diff', 'w').write(r.stdout)
    # only lines of the original repository are changed
    for f in sorted(set(e[0] for e in s['edits'])):
        for l in run(f'git diff -U0 {f}', w).stdout.split('\n'):
            if l.startswith('@@'):
                o = l.split()[1][1:].split(',')
                n0, k = int(o[0]), int(o[1]) if len(o) > 1 else 1
                for n in range(n0, n0 + k):
                    c = run(f'git blame -s -L {n},{n} HEAD -- {f}', w).stdout.split()[0].lstrip('^')
                    if run(f'git log -1 --format=%an%s {c}', w).stdout.find('fix:') >= 0: print('   *** line', n, 'of', f, 'is not original')
    bad = run(d + '/demo.sh', w)
    good = run(d + '/demo.sh', '/repo')
    print(s['id'], s['property'], 'clean', good.returncode, 'patched', bad.returncode, bad.stdout.strip()[-200:].replace('\n', ' | '))
    if good.returncode != 0 or bad.returncode == 0 or bad.returncode == 3: print('   *** BAD', good.stdout[-1500:])
    shutil.rmtree(w, ignore_errors=True)
for p in sorted(glob.glob(H + '/tools/seeds_*.py')):
    sp = importlib.util.spec_from_file_location('m', p)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    for s in m.SEEDS:
        if len(sys.argv) < 2 or s['id'] in sys.argv[1:]: make(s)
