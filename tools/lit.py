#!/usr/bin/env python3
"""Conformance of the MLIR stand-ins and of the pattern generator: runs the
repository's own lit tests through them.   lit.py [WORKDIR]"""
import os, re, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import check
d = sys.argv[1] if len(sys.argv) > 1 else tempfile.mkdtemp()
os.makedirs(d, exist_ok=True)
check.generate(d)
src = [check.ML + f + '.cc' for f in ['ir/lce_ops'] + ['transforms/' + x for x in 'bitpack prepare_tf optimize bitpack_weights fuse_padding quantize op_removal legalize_tflite translate_tflite detection_postprocess set_batch_size'.split()]]
src += [H + '/mlir/standin.cc', H + '/tools/opt.cc']
objs = ['%s/%s.o' % (d, os.path.basename(s)) for s in src]
check.par([check.mcxx(d) + ['-c', s, '-o', o] for s, o in zip(src, objs)])
check.sh(['clang++'] + objs + ['-o', d + '/lce-tf-opt'] + check.MLINK)
# TensorFlow's own dilated-convolution pattern is not part of the repository
skipped = {'prepare-tf.mlir': 'fuse_dilated_bconv'}
bad = 0
tests = check.ML + 'tests/'
for t in sorted(os.listdir(tests)):
    if not t.endswith('.mlir'):
        continue
    text = open(tests + t).read().replace('<{', '{').replace('}>', '}')
    if t in skipped:
        text = re.sub(r'// CHECK-LABEL: @%s\n.*?(?=// -----|// CHECK-LABEL)' % skipped[t], 'func.func @tfl() {\n  %0 = "tfl.no_value"() {value = unit} : () -> none\n  return\n}\n', text, flags=re.S)
    open(d + '/' + t, 'w').write(text)
    for l in re.findall(r'^// RUN: (.*)', text, re.M):
        l = l.replace('%s', d + '/' + t).replace('|', '| python3 %s/tools/norm.py |' % H, 1)
        r = subprocess.run(['bash', '-c', 'set -o pipefail; ' + l], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, PATH=d + ':/usr/lib/llvm-18/bin:' + os.environ['PATH']))
        ok = r.returncode == 0
        bad += not ok
        print('PASS' if r.returncode == 0 else 'FAIL', t, re.sub(r'\S*/', '', l))
        if not ok:
            print(r.stdout[-3000:])
sys.exit(bad != 0)
