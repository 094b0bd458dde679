#!/usr/bin/env python3
"""Single source of MANIFEST.json (run by hand after editing)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
STUB = ('Assumes the stand-ins for TFLite, FlexBuffers and Ruy in /verif/stubs behave like the real libraries; the kernels themselves are '
        'compiled from /repo unchanged. ')
C = {}
def c(p, technique, note): C[p] = (technique, note)
c('K01', 'explicit-state exploration of the real operator against a reference model', STUB + 'Every geometry up to the bounds in DESIGN.md, all contents of tiny tensors and all single-bit flips of patterned larger ones; contents of large tensors are not all enumerated.')
c('K02', 'exhaustive differential exploration of all kernel implementations', STUB + 'All three registrations on every geometry of the bound, float/int8/bitpacked output.')
c('K03', 'explicit-state exploration of the real operator against a threshold model', STUB + 'Every accumulator value against every neighbouring threshold incl. extremes, every channel count across word borders.')
c('K04', 'explicit-state exploration of the real operator against an exact quantization model', STUB + 'All accumulator values for a lattice of scales, zero points, multipliers and biases; ties may go either way.')
c('K05', 'exhaustive exploration under AddressSanitizer with red zones and fill-independence monitors', STUB + 'An access outside a tensor is an ASan report or a dependence on slack contents; all accepted configurations within the bounds.')
c('K06', 'exhaustive enumeration of operation histories up to a depth on the real operators', STUB + 'All histories of resize/allocate/move/rewrite/invoke up to depth 5 (quick), each invocation compared with a fresh operator.')
c('K07', 'exhaustive enumeration of configurations of the real operator init/prepare/invoke', STUB + 'Cross product of option and tensor alphabets; accepted configurations are computed and compared.')
c('K08', 'schedule enumeration under a controlled scheduler with access-conflict detection', STUB + 'All block partitions and orders within the bounds; recorded memory accesses of concurrent blocks must not conflict, so finer interleavings are equivalent.')
c('K09', 'explicit-state exploration of the real operator against a reference model', STUB + 'All sign patterns of short rows, every position of long ones, all int8 values and zero points.')
c('K10', 'explicit-state exploration of the real operator against a reference model', STUB + 'All bit patterns of short rows, every position of long ones, a lattice of scales and zero points.')
c('K11', 'explicit-state exploration of the real operator against a reference model', STUB + 'All geometries up to the bounds, all contents of tiny images and single flips of larger ones.')
c('K12', 'exhaustive enumeration of registration histories', STUB + 'All flag combinations, resolver contents and registration sequences up to length 2 (3 thorough); implementations identified by their documented support and results.')
c('M01', 'exhaustive enumeration of function signatures through the real pass against a type model', 'The pass is compiled from /repo against MLIR 18. All signatures over the type alphabet of DESIGN.md up to 4 arguments (5 thorough), 5 body shapes, modules of 1-2 functions; functions returning an argument directly are not verified afterwards.')
ML = ('The passes are compiled from /repo against MLIR 18; the operator definitions and rewrite patterns (.td) are turned into C++ by mlir/gen.py (no mlir-tblgen here) and TensorFlow/TFLite operators '
      'are stand-ins; the repository\'s lit tests pass through them (tools/lit.py). Values come from an independent interpreter (mlir/eval.cc); NaN and overflowing values are not explored. ')
c('M02', 'exhaustive enumeration of operator graphs through the real pass with a reference interpreter', ML + 'Every sign function over shape, constant and type alphabets, every convolution geometry/attribute/filter alphabet with the odd weight at every position, two-layer networks with pass-through operators, both targets. Which matching graphs are rewritten is not prescribed here (M12 does).')
c('M03', 'exhaustive enumeration of operator graphs through the real pass with a reference interpreter', ML + 'All chains of up to 2 operators behind a binary convolution (3 of a core alphabet, 4 thorough), every set of extra users, both targets.')
c('M04', 'exhaustive enumeration of accumulators through the real pass against exact arithmetic', ML + 'Every accumulator value of 14 filter sizes (24 thorough) against a lattice of multipliers and biases at and beside every sign change, all activations; where single-precision evaluation of the output itself rounds to another sign, either bit is accepted.')
c('M05', 'exhaustive enumeration of constants through the real folders and passes against a bit-level model', ML + 'All sign patterns of tiny constants, every position of larger ones, all ranks 0-5, element types, dense/resource/sparse constants; which constants are folded is not prescribed, only that the result is right.')
c('M06', 'exhaustive enumeration of padded convolutions through the real passes with a reference interpreter', ML + 'Every padding up to 2 per side of every small image, filter, stride and dilation, both convolution kinds, padding constants zero/one/other, dynamic and wrong shapes; which paddings are fused is not prescribed, only that values stay equal.')
c('M07', 'exhaustive enumeration of operator graphs through the real pass with a reference interpreter', ML + 'All chains of up to 3 (de)quantizations, binary operators and activations over 9 quantized types (4 over a core alphabet), with every set of intermediate values used elsewhere, and all forms of per-channel operands; multipliers and biases are representable in their quantized types.')
c('M08', 'exhaustive enumeration of operator graphs through the real pass with a reference interpreter', ML + 'All graphs of up to 3 of the removable and neighbouring operators over the type and use alphabets of DESIGN.md.')
c('M09', 'exhaustive enumeration of operator attributes through the real legalization and its inverse', ML + 'Every combination of attribute values and encoding-width borders; option bytes are decoded by an independent reader and the translation back must give the same operator.')
c('M10', 'exhaustive enumeration of detection graphs through the real pass against a reference specification', ML + 'All combinations of quantized types, use patterns, output types and options of DESIGN.md.')
E2E = ML + 'The runtime operators are those of /repo, compiled against the stand-ins of the kernel checks. '
c('K13', 'exhaustive enumeration of operator attributes through the real legalization into the real runtime operators', E2E + 'Every combination of small attribute values and every value around encoding widths; strides and dilations of convolutions up to 32767 (the limit of TFLite\'s own parameters).')
c('M12', 'exhaustive enumeration of networks through all real passes into the real runtime operators', E2E + 'TensorFlow\'s own legalization between the passes is a stand-in. All geometries, channel and group counts and operator sequences of the bounds in DESIGN.md, both targets, every implementation; all constants are exact in single precision, so results must be equal.')
WORLD = ML + 'The driver and the entry points of /repo are real; TensorFlow around them is the scripted world of mlir/world.cc (importer, TFLite and TensorFlow passes with the effects that matter, exporter). '
c('M11', 'exhaustive enumeration of models and settings through the real entry points and passes into the real runtime operators', WORLD + 'All models of the layer grammar of DESIGN.md x weights x pass-through operators x sign idiom x padding x batch x target x quantization x entry point. The order of passes is judged by its effect only.')
c('M13', 'exhaustive enumeration of settings through the real entry points with recording services', WORLD + 'Argument alphabets in DESIGN.md; names of 2 to 130 characters.')
c('M14', 'exhaustive fault injection: every step of every kind of conversion fails', WORLD + 'One failing step per conversion; steps are the calls into TensorFlow (LCE passes themselves are not made to fail).')
PY = 'The Python code of /repo runs unchanged (TensorFlow 2.16 and the TFLite flatbuffer schema that comes with it). '
c('Y01', 'exhaustive enumeration of argument combinations and converter behaviours on the real code', PY + 'The native converter is a recording stand-in; model.save is mostly a stand-in that writes a minimal saved model. Argument alphabets in DESIGN.md.')
c('Y02', 'exhaustive enumeration of small model graphs with a symbolic-evaluation oracle', PY + 'All combinations of input/output forms of 1-2 inputs and outputs with tensor numberings, operator-code tables and signatures; control-flow operators are not modelled.')
c('Y03', 'exhaustive enumeration of small model graphs with a symbolic-evaluation oracle', PY + 'All combinations of up to 3 output forms and two subgraphs; control-flow operators are not modelled.')
c('Y04', 'exhaustive enumeration of inputs on the real code with a stand-in native interpreter', PY + 'All containers, malformed inputs, 1-3 inputs/outputs, 1-3 samples (4 thorough).')
c('Y05', 'exhaustive enumeration of inputs and call histories on the real binding under AddressSanitizer', 'The binding is compiled from /repo with pybind11 against a stand-in tflite::Interpreter (stubs/binding). All call histories up to length 4 (5 thorough).')
ARM = 'The operators of /repo are compiled for AArch64 (clang -O2) with their inline assembly and intrinsics, and the machine code is executed by an interpreter of the instruction set (a64/emu.cc), which checks every memory access against AddressSanitizer\'s shadow and the calling convention; the portable reference kernel run the same way binds the interpreter to the model. '
c('A01', 'exhaustive enumeration of small configurations on the AArch64 machine code in an instruction-set interpreter', ARM + 'Grids around the register-block sizes of the kernels, all divisions of the matrix multiplication into cells of a small alphabet; floating-point contraction is off.')
c('A02', 'exhaustive enumeration of small configurations on the AArch64 machine code in an instruction-set interpreter', ARM + 'The grids of K09-K11, smaller contents.')
c('A03', 'exhaustive enumeration of operation histories on the AArch64 machine code in an instruction-set interpreter', ARM + 'The histories of K06.')
A32 = ARM.replace('AArch64', '32-bit ARM (ARMv7, NEON)').replace('a64/', 'a32/')
c('A04', 'exhaustive enumeration of small configurations on the 32-bit ARM machine code in an instruction-set interpreter', A32 + 'The grids of A01, results on and beside every tie between integers included; ARM (not Thumb) instructions.')
c('A05', 'exhaustive enumeration of small configurations on the 32-bit ARM machine code in an instruction-set interpreter', A32 + 'The grids of A02.')
c('A06', 'exhaustive enumeration of operation histories on the 32-bit ARM machine code in an instruction-set interpreter', A32 + 'The histories of K06.')
NA = {}
json.dump(dict(version=1, setup_cmd='true',
               checks=[dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p,
                            technique=C[p][0], level='model_checking', level_note=C[p][1]) for p in props if p in C],
               not_applicable=[dict(property=p, reason=NA.get(p, 'not built yet')) for p in props if p not in C],
               notes='No hooks in /repo. properties.jsonl and MANIFEST.json are generated by gen_props.py and gen_manifest.py.'),
          open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(C), 'claimed')
