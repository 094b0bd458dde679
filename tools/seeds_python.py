P = 'larq_compute_engine/mlir/python/'
Q = 'larq_compute_engine/tflite/python/'
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = '''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
export PYTHONPATH="$R" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TF_USE_LEGACY_KERAS=1 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES=-1 TF_ENABLE_ONEDNN_OPTS=0
'''
PYDEMO = ENV + 'timeout 250 /opt/lce/venv/bin/python "$D/demo.py"\n'
MODEL = '''
import sys
from unittest import mock
import numpy as np, flatbuffers, tensorflow as tf
from tensorflow.lite.python import schema_py_generated as S
for m in ('larq_compute_engine.mlir._tf_tfl_flatbuffer', 'larq_compute_engine.tflite.python.interpreter_wrapper_lite'):
    sys.modules[m] = mock.MagicMock()
sys.modules['larq_compute_engine.mlir.python.tflite_schema'] = S
from larq_compute_engine.mlir.python import util

def model(tensors, ops, ins, outs):
    """tensors: (name, type); ops: (code, inputs, outputs) by tensor number"""
    m = S.ModelT()
    m.version, m.buffers, m.operatorCodes = 3, [S.BufferT()], []
    codes = []
    g = S.SubGraphT()
    g.tensors, g.operators = [], []
    for n, ty in tensors:
        t = S.TensorT()
        t.name, t.type, t.shape = n, ty, np.array([1, 4], np.int32)
        g.tensors.append(t)
    for code, i, o in ops:
        if code not in codes:
            codes.append(code)
            c = S.OperatorCodeT()
            c.builtinCode = getattr(S.BuiltinOperator, code, S.BuiltinOperator.CUSTOM)
            c.deprecatedBuiltinCode = c.builtinCode
            if c.builtinCode == S.BuiltinOperator.CUSTOM:
                c.customCode = code
            m.operatorCodes.append(c)
        p = S.OperatorT()
        p.opcodeIndex, p.inputs, p.outputs = codes.index(code), np.array(i, np.int32), np.array(o, np.int32)
        g.operators.append(p)
    g.inputs, g.outputs = np.array(ins, np.int32), np.array(outs, np.int32)
    m.subgraphs = [g]
    b = flatbuffers.Builder(1024)
    b.Finish(m.Pack(b), file_identifier=b'TFL3')
    return bytes(b.Output())

def show(buf):
    m = S.ModelT.InitFromPackedBuf(buf, 0)
    g = m.subgraphs[0]
    n = lambda i: g.tensors[i].name.decode() if 0 <= i < len(g.tensors) else 'invalid(%d)' % i
    r = [[n(i) for i in g.inputs], [[[n(i) for i in o.inputs], [n(i) for i in o.outputs]] for o in g.operators], [n(i) for i in g.outputs]]
    print(r)
    return r
F, I8, I32 = S.TensorType.FLOAT32, S.TensorType.INT8, S.TensorType.INT32
'''
BIND = ENV + '''
F="-O1 -std=c++17 -w -fPIC -I$D/stubs/binding -I$D/stubs -I$R -I/opt/lce/venv/lib/python3.12/site-packages/pybind11/include -I/usr/include/python3.12"
clang++ $F -shared $R/larq_compute_engine/tflite/python/interpreter_wrapper_lite.cc $D/binding_ops.cc -o $T/interpreter_wrapper_lite.so || exit 3
PYTHONPATH=$T timeout 120 /opt/lce/venv/bin/python "$D/demo.py"
'''
BINDF = {'demo.sh': BIND, 'stubs': (H + '/stubs',), 'binding_ops.cc': (H + '/harness/binding_ops.cc',)}
MDEMO = ENV + '''
L=/usr/lib/llvm-18
clang++ -O1 -std=c++17 -w -fno-rtti -I$R -isystem $L/include $R/larq_compute_engine/mlir/transforms/set_batch_size.cc $D/demo.cc -o $T/demo -L$L/lib -lMLIR -lLLVM-18 -Wl,-rpath,$L/lib || exit 3
timeout 120 $T/demo
'''
MCC = '''
#include "larq_compute_engine/mlir/transforms/passes.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/Verifier.h"
#include "mlir/Parser/Parser.h"
#include "mlir/Pass/PassManager.h"
#include <cstdio>
namespace mlir { std::unique_ptr<OperationPass<func::FuncOp>> CreateSetBatchSizePass(); }
using namespace mlir;
int main() {
  MLIRContext c;
  c.loadDialect<func::FuncDialect>();
  int bad = 0;
  auto run = [&](const char* in, const char* want) {
    auto m = parseSourceString<ModuleOp>(in, &c);
    PassManager pm(&c);
    pm.addNestedPass<func::FuncOp>(CreateSetBatchSizePass());
    bool ok = succeeded(pm.run(*m));
    std::string s;
    llvm::raw_string_ostream o(s);
    m->print(o);
    o.flush();
    if (!ok || s.find(want) == std::string::npos) { printf("%s -> %s\\n", in, s.c_str()); bad = 1; }
  };
  CASES
  return bad;
}
'''
SEEDS = [
 dict(id='p01', property='Y02', kind='python', needs='the removed tensors include the last tensor of the subgraph and others that do not directly precede it',
  what='the shortcut for trailing tensors is taken whenever the last tensor is removed, so tensors in between are deleted and references dangle',
  edits=[(P+'util.py','    if min(remove_tensors_idxs) == len(tensors) - len(remove_tensors_idxs):','    if max(remove_tensors_idxs) == len(tensors) - 1:')],
  files={'demo.sh': PYDEMO, 'demo.py': MODEL + '''
b = model([('in', F), ('q', I8), ('r', I8), ('out', F)], [('QUANTIZE', [0], [1]), ('body', [1], [2]), ('DEQUANTIZE', [2], [3])], [0], [3])
r = show(util.modify_integer_quantized_model_io_type(b, tf.int8, tf.int8))
sys.exit(r != [['q'], [[['q'], ['r']]], ['r']])
'''}),
 dict(id='p02', property='Y03', kind='python', needs='two or more stripped outputs whose float tensors are not the last tensors of the subgraph',
  what='the removed tensors are popped in ascending order, so the second pop removes the wrong tensor',
  edits=[(P+'util.py','        for idx in sorted(remove_tensors_idxs, reverse=True):','        for idx in sorted(remove_tensors_idxs):')],
  files={'demo.sh': PYDEMO, 'demo.py': MODEL + '''
b = model([('in', F), ('y0', F), ('y1', F), ('b0', I32), ('b1', I32)], [('body', [0], [3, 4]), ('LceDequantize', [3], [1]), ('LceDequantize', [4], [2])], [0], [1, 2])
r = show(util.strip_lcedequantize_ops(b))
sys.exit(r != [['in'], [[['in'], ['b0', 'b1']]], ['b0', 'b1']])
'''}),
 dict(id='p03', property='Y01', kind='python', needs='a Keras model that cannot be converted as saved model, with quantization information, and int8 requested for only one of inputs and outputs',
  what='after the fallback conversion the input/output types are only changed if both were requested as int8',
  edits=[(P+'converter.py','''    if should_quantize and (
        inference_input_type != tf.float32 or inference_output_type != tf.float32
    ):''','''    if should_quantize and (
        inference_input_type == inference_output_type != tf.float32
    ):''')],
  files={'demo.sh': PYDEMO, 'demo.py': MODEL + '''
from larq_compute_engine.mlir.python import converter
b = model([('in', F), ('q', I8), ('r', I8), ('out', F)], [('QUANTIZE', [0], [1]), ('body', [1], [2]), ('DEQUANTIZE', [2], [3])], [0], [3])
def fail(*a): raise RuntimeError
converter.convert_saved_model_to_tflite_flatbuffer = fail
converter.convert_graphdef_to_tflite_flatbuffer = lambda *a: b
k = tf.keras.Sequential([tf.keras.layers.Dense(2, input_shape=(3,))])
bad = 0
for i in (tf.float32, tf.int8):
    for o in (tf.float32, tf.int8):
        r = show(converter.convert_keras_model(k, inference_input_type=i, inference_output_type=o, experimental_default_int8_range=(-3.0, 3.0)))
        bad |= r[0] != ['in' if i == tf.float32 else 'q'] or r[2] != ['out' if o == tf.float32 else 'r']
sys.exit(bad)
'''}),
 dict(id='p04', property='Y01', kind='python', needs='a model whose training-time quantization operators are all inside functions (control flow) and that cannot be converted as saved model',
  what='quantization operators inside the functions of the graph library are not found, so the model is converted without quantization',
  edits=[(P+'converter.py','        for node_def in function.node_def:\n            if node_def.op in','        for node_def in graph_def.node:\n            if node_def.op in')],
  files={'demo.sh': PYDEMO, 'demo.py': MODEL + '''
from larq_compute_engine.mlir.python import converter
def fail(*a): raise RuntimeError
calls = []
converter.convert_saved_model_to_tflite_flatbuffer = fail
converter.convert_graphdef_to_tflite_flatbuffer = lambda *a: calls.append(a) or b'x'
fq = lambda x: tf.cond(tf.reduce_sum(x) > 0, lambda: tf.quantization.fake_quant_with_min_max_vars(x, -1.0, 1.0), lambda: x)
for f in (fq, lambda x: tf.quantization.fake_quant_with_min_max_vars(x, -1.0, 1.0), tf.abs):
    converter.convert_keras_model(tf.keras.Sequential([tf.keras.layers.Lambda(f, input_shape=(3,))]))
print([c[5] for c in calls])
sys.exit([bool(c[5]) for c in calls] != [True, True, False])
'''}),
 dict(id='p05', property='Y04', kind='python', needs='a list of input arrays whose samples are not three-dimensional images',
  what='samples of input lists are expanded to four dimensions instead of by one leading dimension',
  edits=[(Q+'interpreter_base.py','''        for inputs in zip(*x, strict=True):
            yield [np.expand_dims(inp, axis=0) for inp in inputs]''','''        for inputs in zip(*x, strict=True):
            yield [np.array(inp, ndmin=4) for inp in inputs]''')],
  files={'demo.sh': PYDEMO, 'demo.py': '''
import sys
from unittest import mock
for m in ('larq_compute_engine.mlir._tf_tfl_flatbuffer', 'larq_compute_engine.mlir.python.tflite_schema', 'larq_compute_engine.tflite.python.interpreter_wrapper_lite'):
    sys.modules[m] = mock.MagicMock()
import numpy as np
from larq_compute_engine.tflite.python.interpreter_base import InterpreterBase
class Fake:
    output_shapes = [(1, 2)]
    def predict(self, ins):
        assert [x.shape for x in ins] == [(1, 2, 2, 1), (1, 5)], [x.shape for x in ins]
        return [np.array([[ins[0].sum(), ins[1].sum()]])]
try:
    r = InterpreterBase(Fake()).predict([np.ones((3, 2, 2, 1)), np.ones((3, 5))])
    print(r)
    sys.exit(r.tolist() != [[4, 5]] * 3)
except AssertionError as e:
    print(e)
    sys.exit(1)
'''}),
 dict(id='p06', property='Y05', kind='python', needs='a second predict call after which the results of the first are still in use',
  what='the returned arrays are views of the output tensors instead of copies, so later calls overwrite earlier results',
  edits=[(Q+'interpreter_wrapper_utils.h','''                            tensor->data.raw);
    result''','''                            tensor->data.raw,
                            pybind11::capsule(tensor->data.raw, "tensor"));
    result''')],
  files=dict(BINDF, **{'demo.py': '''
import sys, numpy as np, interpreter_wrapper_lite as w
i = w.LiteInterpreter(b'LCE1 2 1 2 1 3 0 0 0 9 1 4 0 0 0 1 0 1 1 0 0 -1 0', 1, False, False, False)
a = i.predict([np.zeros((1, 3), np.float32)])[0]
keep = a.copy()
i.predict([np.ones((1, 3), np.float32)])
print(keep, a)
sys.exit(not np.array_equal(a, keep))
'''})),
 dict(id='p07', property='Y05', kind='python', needs='an input array that is not C-contiguous (a transposed or strided view)',
  what='inputs are no longer made contiguous, so the raw memory of views is copied in the wrong order',
  edits=[(Q+'interpreter_wrapper_utils.h','''        pybind11::array::ensure(input_list[i], pybind11::array::c_style);''','''        pybind11::array::ensure(input_list[i]);''')],
  files=dict(BINDF, **{'demo.py': '''
import sys, numpy as np, interpreter_wrapper_lite as w
i = w.LiteInterpreter(b'LCE1 1 9 2 2 3 0 0 0 1 0 1 0 0 0 -1 0', 1, False, False, False)
x = np.arange(6, dtype=np.int8).reshape(2, 3)
r = i.predict([np.asfortranarray(x)])[0]
print(r.tolist())
sys.exit(not np.array_equal(r, x))
'''})),
 dict(id='m01', property='M01', kind='mlir', needs='an unknown leading dimension and an encoding on the tensor type',
  what='the new type is built from the dimensions and element type only, which drops the encoding of the tensor type',
  edits=[('larq_compute_engine/mlir/transforms/set_batch_size.cc','return tensor_type.clone(shape_new);','return mlir::RankedTensorType::get(shape_new, tensor_type.getElementType());')],
  files={'demo.sh': MDEMO, 'demo.cc': MCC.replace('CASES', '''
  run("func.func @f(%a: tensor<?x3xf32, \\"e\\">) -> () { return }", "tensor<1x3xf32, \\"e\\">");
  run("func.func @f(%a: tensor<?x3xf32>) -> () { return }", "%arg0: tensor<1x3xf32>");
''')}),
]
