#!/usr/bin/env python3
"""A generator of C++ from the operator definitions (ODS) and declarative
rewrite patterns (DRR) of the repository, for the subset of both languages it
uses: this sandbox has llvm-tblgen but not mlir-tblgen.  The generated matching
and rewriting steps follow mlir-tblgen's (operator nest, attribute defaults,
captures, benefits, result types of root and nested operators).

gen.py ops FILE.td NAMESPACE OUT_PREFIX   -> OUT.h.inc OUT.cc.inc OUT_dialect.h.inc OUT_dialect.cc.inc
gen.py rewriters FILE.td OUT.inc
gen.py both: see main()"""
import json, os, re, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))


def load(td, repo):
    r = subprocess.run(['llvm-tblgen', '--dump-json', '-I/usr/lib/llvm-18/include', '-I' + HERE + '/td', '-I' + repo, td], capture_output=True, text=True)
    if r.returncode:
        sys.exit('llvm-tblgen failed on %s:\n%s' % (td, r.stderr))
    return json.loads(r.stdout)


class Gen:
    def __init__(self, recs):
        self.R = recs

    def rec(self, init):
        return self.R[init['def']]

    def isa(self, init, cls):
        if not isinstance(init, dict) or init.get('kind') != 'def':
            return False
        r = self.R.get(init['def'])
        return r is not None and cls in r['!superclasses']

    # ------------------------------------------------------------ predicates
    def cond(self, pred, subs=()):
        r = self.rec(pred) if 'kind' in pred else pred
        sc = r['!superclasses']
        if 'CPred' in sc:
            e = r['predExpr']
            for a, b in subs:
                e = e.replace(a, b)
            return '(' + e + ')'
        if 'And' in sc or 'Or' in sc or 'Neg' in sc or 'Concat' in sc or 'SubstLeaves' in sc or 'CombinedPred' in sc:
            kids = r['children']
            if 'SubstLeaves' in sc:
                # applied to the expressions of the leaves, innermost first
                return self.cond(kids[0], ((r['pattern'], r['replacement']),) + tuple(subs))
            k = [self.cond(x, subs) for x in kids]
            if 'Concat' in sc:
                return '(' + r['prefix'] + k[0] + r['suffix'] + ')'
            kind = r['kind']['def']
            if kind == 'PredCombinerNot':
                return '(!' + k[0] + ')'
            if not k:
                return '(true)' if kind == 'PredCombinerAnd' else '(false)'
            return '(' + (' && ' if kind == 'PredCombinerAnd' else ' || ').join(k) + ')'
        raise SystemExit('unsupported predicate ' + r['!name'])

    @staticmethod
    def fmt(t, args=(), self_='', builder='rewriter', op='', **kw):
        def f(m):
            s = m.group(1)
            if s.isdigit():
                return str(args[int(s)])
            if s == '_self':
                return self_
            if s == '_builder':
                return builder
            if s == '_op':
                return op
            if s in kw:
                return kw[s]
            raise SystemExit('unsupported substitution $%s in %s' % (s, t))
        return re.sub(r'\$(\d+|_?[A-Za-z]\w*)', f, t)

    # -------------------------------------------------------------- operators
    def op(self, r):
        """A description of an operator record."""
        o = dict(rec=r, name=r['!name'])
        o['cls'] = r['!name'].split('_', 1)[1] if '_' in r['!name'] else r['!name']
        d = self.rec(r['opDialect'])
        ns = r.get('cppNamespace') or d['cppNamespace']
        o['ns'] = ns
        o['qual'] = '::' + ns.strip(':') + '::' + o['cls']
        o['opname'] = d['name'] + '.' + r['opName']
        args, operands, attrs = [], [], []
        for init, nm in r['arguments']['args']:
            a = self.arg(init, nm)
            if a['kind'] == 'operand':
                a['index'] = len(operands)
                operands.append(a)
            else:
                attrs.append(a)
            args.append(a)
        res = []
        for init, nm in r['results']['args']:
            a = self.arg(init, nm)
            a['index'] = len(res)
            res.append(a)
        o.update(args=args, operands=operands, attrs=attrs, results=res)
        t = []

        def walk(l):
            for x in l:
                y = self.rec(x)
                if 'traits' in y and 'TraitList' in y['!superclasses']:
                    walk(y['traits'])
                else:
                    t.append(y)
        walk(r['traits'])
        o['traits'] = t
        o['trait_names'] = [x['!name'] for x in t]
        return o

    def arg(self, init, nm):
        r = self.rec(init)
        sc = r['!superclasses']
        if 'OpVariable' in sc or 'Arg' in sc:
            r = self.rec(r['constraint'])
            sc = r['!superclasses']
        if 'Attr' in sc or 'AttrConstraint' in sc:
            base = r
            chain = 'baseAttr' if 'baseAttr' in r else None
            a = dict(kind='attr', name=nm, rec=r, storage=r['storageType'].strip(), ret=r['returnType'].strip(), conv=r['convertFromStorage'], build=r['constBuilderCall'],
                     default=r.get('defaultValue') or '', optional=bool(r.get('isOptional')))
            while isinstance(base.get('baseAttr'), dict):
                base = self.rec(base['baseAttr'])
            a['base'] = base
            a['build'] = r['constBuilderCall'] or base['constBuilderCall']
            return a
        variadic = 'Variadic' in sc
        optional = 'Optional' in sc
        b = self.rec(r['baseType']) if (variadic or optional) else r
        return dict(kind='operand', name=nm, rec=b, variadic=variadic or optional, optional=optional)

    @staticmethod
    def camel(n):
        return ''.join(w[:1].upper() + w[1:] for w in n.split('_'))

    # --------------------------------------------------------- ODS generation
    def gen_op(self, o):
        r = o['rec']
        C = o['cls']
        nop, nres = len(o['operands']), len(o['results'])
        vop = [a for a in o['operands'] if a['variadic']]
        vres = [a for a in o['results'] if a['variadic']]
        if len(vop) > 1 or len(vres) > 1:
            raise SystemExit('more than one variadic group: ' + o['name'])
        tr = ['::mlir::OpTrait::ZeroRegions']
        if vres:
            tr.append('::mlir::OpTrait::VariadicResults')
        elif nres == 0:
            tr.append('::mlir::OpTrait::ZeroResults')
        elif nres == 1:
            tr += ['::mlir::OpTrait::OneResult', '::mlir::OpTrait::OneTypedResult<::mlir::Type>::Impl']
        else:
            tr.append('::mlir::OpTrait::NResults<%d>::Impl' % nres)
        tr.append('::mlir::OpTrait::ZeroSuccessors')
        if vop:
            tr.append('::mlir::OpTrait::VariadicOperands' if nop == 1 else '::mlir::OpTrait::AtLeastNOperands<%d>::Impl' % (nop - 1))
        elif nop == 0:
            tr.append('::mlir::OpTrait::ZeroOperands')
        elif nop == 1:
            tr.append('::mlir::OpTrait::OneOperand')
        else:
            tr.append('::mlir::OpTrait::NOperands<%d>::Impl' % nop)
        tr.append('::mlir::OpTrait::OpInvariants')
        same = 'SameOperandsAndResultType' in o['trait_names']
        effects = False
        for t in o['traits']:
            n = t['!name']
            if n == 'NoMemoryEffect':
                tr.append('::mlir::MemoryEffectOpInterface::Trait')
                effects = True
            elif n == 'AlwaysSpeculatable':
                tr += ['::mlir::ConditionallySpeculatable::Trait', '::mlir::OpTrait::AlwaysSpeculatableImplTrait']
            elif 'NativeTrait' in t['!superclasses'] and 'trait' in t:
                tr.append(t['cppNamespace'] + '::' + t['trait'])
            elif 'PredTrait' in t['!superclasses'] or 'PredOpTrait' in t['!superclasses']:
                continue
            else:
                raise SystemExit('unsupported trait %s of %s' % (n, o['name']))
        L = []
        w = L.append
        w('class %s : public ::mlir::Op<%s, %s> {' % (C, C, ', '.join(tr)))
        w(' public:\n  using Op::Op;\n  using Op::print;')
        # adaptor
        w('  class FoldAdaptor {\n   public:')
        w('    FoldAdaptor(::llvm::ArrayRef<::mlir::Attribute> o, ::mlir::DictionaryAttr a, ::mlir::EmptyProperties = {}, ::mlir::RegionRange = {}) : o_(o), a_(a) {}')
        w('    FoldAdaptor(::llvm::ArrayRef<::mlir::Attribute> o, %s op) : o_(o), a_(op->getAttrDictionary()) {}' % C)
        w('    ::llvm::ArrayRef<::mlir::Attribute> getOperands() { return o_; }\n    ::mlir::DictionaryAttr getAttributes() { return a_; }')
        for a in o['operands']:
            if not a['variadic'] and not vop:
                w('    ::mlir::Attribute get%s() { return o_[%d]; }' % (self.camel(a['name']), a['index']))
        w('   private:\n    ::llvm::ArrayRef<::mlir::Attribute> o_;\n    ::mlir::DictionaryAttr a_;\n  };')
        w('  static ::llvm::ArrayRef<::llvm::StringRef> getAttributeNames() {')
        if o['attrs']:
            w('    static ::llvm::StringRef n[] = {%s};\n    return ::llvm::ArrayRef(n);' % ', '.join('"%s"' % a['name'] for a in o['attrs']))
        else:
            w('    return {};')
        w('  }')
        w('  static constexpr ::llvm::StringLiteral getOperationName() { return ::llvm::StringLiteral("%s"); }' % o['opname'])
        # operand ranges
        w('  std::pair<unsigned, unsigned> getODSOperandIndexAndLength(unsigned i) {')
        if vop:
            vi = vop[0]['index']
            w('    unsigned n = getOperation()->getNumOperands() - %d;\n    return i < %d ? std::pair<unsigned, unsigned>(i, 1) : i == %d ? std::pair<unsigned, unsigned>(i, n) : std::pair<unsigned, unsigned>(i + n - 1, 1);' % (nop - 1, vi, vi))
        else:
            w('    return {i, 1};')
        w('  }\n  ::mlir::Operation::operand_range getODSOperands(unsigned i) {\n    auto v = getODSOperandIndexAndLength(i);\n    return {std::next(getOperation()->operand_begin(), v.first), std::next(getOperation()->operand_begin(), v.first + v.second)};\n  }')
        w('  ::mlir::Operation::result_range getODSResults(unsigned i) {')
        if vres:
            if nres != 1:
                raise SystemExit('variadic results mixed')
            w('    return getOperation()->getResults();')
        else:
            w('    return {std::next(getOperation()->result_begin(), i), std::next(getOperation()->result_begin(), i + 1)};')
        w('  }')
        for a in o['operands']:
            if a['optional']:
                w('  ::mlir::Value get%s() { auto o = getODSOperands(%d); return o.empty() ? ::mlir::Value() : *o.begin(); }' % (self.camel(a['name']), a['index']))
            elif a['variadic']:
                w('  ::mlir::Operation::operand_range get%s() { return getODSOperands(%d); }' % (self.camel(a['name']), a['index']))
            else:
                w('  ::mlir::Value get%s() { return *getODSOperands(%d).begin(); }' % (self.camel(a['name']), a['index']))
                w('  ::mlir::OpOperand& get%sMutable() { return getOperation()->getOpOperand(getODSOperandIndexAndLength(%d).first); }' % (self.camel(a['name']), a['index']))
        for a in o['results']:
            if a['variadic']:
                w('  ::mlir::Operation::result_range get%s() { return getODSResults(%d); }' % (self.camel(a['name']), a['index']))
            else:
                w('  ::mlir::Value get%s() { return *getODSResults(%d).begin(); }' % (self.camel(a['name']), a['index']))
        for a in o['attrs']:
            n = self.camel(a['name'])
            if a['default'] and not a['optional']:
                w('  %s get%sAttr() {\n    auto a = (*this)->getAttrOfType<%s>("%s");\n    if (!a) { ::mlir::Builder b((*this)->getContext()); a = %s; }\n    return a;\n  }' %
                  (a['storage'], n, a['storage'], a['name'], self.fmt(a['build'], [a['default']], builder='b')))
            else:
                w('  %s get%sAttr() { return (*this)->getAttrOfType<%s>("%s"); }' % (a['storage'], n, a['storage'], a['name']))
            w('  %s get%s() { auto attr = get%sAttr(); return %s; }' % (a['ret'], n, n, self.fmt(a['conv'], self_='attr')))
            w('  void set%sAttr(%s attr) { (*this)->setAttr("%s", attr); }' % (n, a['storage'], a['name']))
        # builders
        seen = set()

        def builder(params, body, defaults=()):
            sig = tuple(p[0] for p in params)
            if sig in seen:
                return
            seen.add(sig)
            ps = ''.join(', %s %s' % p for p in params)
            w('  static void build(::mlir::OpBuilder& odsBuilder, ::mlir::OperationState& odsState%s) {\n%s\n  }' % (ps, body))
        for b in r['builders'] or []:
            b = self.rec(b)
            ps = []
            for init, nm in b['dagParams']['args']:
                ty = init if isinstance(init, str) else self.rec(init)['type']
                ps.append((ty, nm))
            seen.add(tuple(p[0] for p in ps))
            s = ''.join(', %s %s' % p for p in ps)
            if b.get('body'):
                w('  static void build(::mlir::OpBuilder& odsBuilder, ::mlir::OperationState& odsState%s) {\n%s\n  }' % (s.replace(', Value', ', ::mlir::Value').replace(', StringAttr', ', ::mlir::StringAttr').replace(', UnitAttr', ', ::mlir::UnitAttr').replace(', BoolAttr', ', ::mlir::BoolAttr'),
                                                                                                               b['body'].replace('$_builder', 'odsBuilder').replace('$_state', 'odsState')))
            else:
                w('  static void build(::mlir::OpBuilder& odsBuilder, ::mlir::OperationState& odsState%s);' % re.sub(r', (?=[A-Z])', ', ::mlir::', s))
        norm = [tuple('::mlir::' + x if re.match(r'[A-Z]', x) else x for x in s) for s in seen]
        seen.update(norm)
        if not r['skipDefaultBuilders']:
            builder([('::mlir::TypeRange', 't'), ('::mlir::ValueRange', 'o'), ('::llvm::ArrayRef<::mlir::NamedAttribute>', 'a = {}')],
                    '    odsState.addOperands(o);\n    odsState.addAttributes(a);\n    odsState.addTypes(t);')
            if same:
                builder([('::mlir::ValueRange', 'o'), ('::llvm::ArrayRef<::mlir::NamedAttribute>', 'a = {}')],
                        '    odsState.addOperands(o);\n    odsState.addAttributes(a);\n    odsState.addTypes(o[0].getType());')
            for typed in (['types'] + ([] if vres else ['each']) + (['same'] if same else [])):
                for raw in (False, True):
                    ps, body = [], []
                    if typed == 'types':
                        ps.append(('::mlir::TypeRange', 'odsTypes'))
                        body.append('odsState.addTypes(odsTypes);')
                    elif typed == 'each':
                        for a in o['results']:
                            ps.append(('::mlir::Type', 'odsT_' + a['name']))
                            body.append('odsState.types.push_back(odsT_%s);' % a['name'])
                    late = None
                    for a in o['args']:
                        if a['kind'] == 'operand':
                            ps.append(('::mlir::ValueRange' if a['variadic'] else '::mlir::Value', a['name']))
                            body.append('odsState.addOperands(%s);' % a['name'])
                            if typed == 'same' and late is None:
                                late = 'odsState.types.push_back(%s.getType());' % a['name']
                        elif raw and a['base']['constBuilderCall'] and a['ret'] != a['storage'] and not a['optional']:
                            ps.append((a['ret'], a['name']))
                            body.append('odsState.addAttribute("%s", %s);' % (a['name'], self.fmt(a['build'], [a['name']], builder='odsBuilder')))
                        else:
                            ps.append((a['storage'], a['name']))
                            body.append('if (%s) odsState.addAttribute("%s", %s);' % (a['name'], a['name'], a['name']))
                    if late:
                        body.append(late)
                    builder(ps, '    ' + '\n    '.join(body))
        # verification
        w('  ::mlir::LogicalResult verifyInvariantsImpl() {')
        for a in o['attrs']:
            w('    { ::mlir::Attribute attr = (*this)->getAttr("%s");' % a['name'])
            if not a['optional'] and not a['default']:
                w('      if (!attr) return emitOpError("requires attribute \'%s\'");' % a['name'])
            w('      if (attr && !(%s)) return emitOpError("attribute \'%s\' failed to satisfy its constraint");\n    }' % (self.fmt(self.cond(a['rec']['predicate']), self_='attr'), a['name']))
        for what, l in (('Operands', o['operands']), ('Results', o['results'])):
            for a in l:
                w('    for (auto v : getODS%s(%d)) { ::mlir::Type type = v.getType(); (void)type;\n      if (!(%s)) return emitOpError("%s #%d failed to satisfy its type constraint, but got ") << type;\n    }' %
                  (what, a['index'], self.fmt(self.cond(a['rec']['predicate']), self_='type'), what, a['index']))
        w('    return ::mlir::success();\n  }\n  ::mlir::LogicalResult verifyInvariants() { return verifyInvariantsImpl(); }')
        if r['hasVerifier']:
            w('  ::mlir::LogicalResult verify();')
        if r['hasFolder']:
            if nres == 1 and not vres:
                w('  ::mlir::OpFoldResult fold(FoldAdaptor adaptor);')
            else:
                w('  ::mlir::LogicalResult fold(FoldAdaptor adaptor, ::llvm::SmallVectorImpl<::mlir::OpFoldResult>& results);')
        if r['hasCanonicalizer']:
            w('  static void getCanonicalizationPatterns(::mlir::RewritePatternSet& results, ::mlir::MLIRContext* context);')
        if effects:
            w('  void getEffects(::llvm::SmallVectorImpl<::mlir::SideEffects::EffectInstance<::mlir::MemoryEffects::Effect>>&) {}')
        if r.get('extraClassDeclaration'):
            w(self.fmt(r['extraClassDeclaration']) if '$' in r['extraClassDeclaration'] else r['extraClassDeclaration'])
        w('};')
        return '\n'.join(L)

    def all_ops(self, dialect):
        return [self.op(self.R[n]) for n in self.R['!instanceof'].get('Op', []) if self.R[n]['opDialect'] and self.rec(self.R[n]['opDialect'])['name'] == dialect]

    def gen_dialect(self, dialect):
        d = next(self.R[n] for n in self.R['!instanceof']['Dialect'] if self.R[n]['name'] == dialect)
        cls = d['!name'] if d['!name'].endswith('Dialect') else d['!name'] + 'Dialect'
        cls = cls.replace('_', '')
        ns = d['cppNamespace'].strip(':').split('::')
        o = ''.join('namespace %s {\n' % n for n in ns)
        c = ''.join('}  // namespace %s\n' % n for n in reversed(ns))
        h = o + 'class %s : public ::mlir::Dialect {\n  explicit %s(::mlir::MLIRContext* context) : ::mlir::Dialect(getDialectNamespace(), context, ::mlir::TypeID::get<%s>()) { initialize(); }\n  void initialize();\n  friend class ::mlir::MLIRContext;\n public:\n  static constexpr ::llvm::StringLiteral getDialectNamespace() { return ::llvm::StringLiteral("%s"); }\n' % (cls, cls, cls, dialect)
        if d['hasConstantMaterializer']:
            h += '  ::mlir::Operation* materializeConstant(::mlir::OpBuilder& builder, ::mlir::Attribute value, ::mlir::Type type, ::mlir::Location loc) override;\n'
        h += d.get('extraClassDeclaration') or ''
        h += '};\n' + c
        q = '::'.join([''] + ns + [cls])
        h += 'MLIR_DECLARE_EXPLICIT_TYPE_ID(%s)\n' % q
        return h, 'MLIR_DEFINE_EXPLICIT_TYPE_ID(%s)\n' % q, o, c

    def gen_ops(self, dialect):
        ops = self.all_ops(dialect)
        h, cc, o, c = self.gen_dialect(dialect)
        oh = '#ifdef GET_OP_CLASSES\n#undef GET_OP_CLASSES\n' + o + '\n'.join(self.gen_op(x) for x in ops) + '\n' + c
        oh += ''.join('MLIR_DECLARE_EXPLICIT_TYPE_ID(%s)\n' % x['qual'] for x in ops) + '#endif\n'
        oc = '#ifdef GET_OP_LIST\n#undef GET_OP_LIST\n' + ',\n'.join(x['qual'] for x in ops) + '\n#endif\n'
        oc += '#ifdef GET_OP_CLASSES\n#undef GET_OP_CLASSES\n' + ''.join('MLIR_DEFINE_EXPLICIT_TYPE_ID(%s)\n' % x['qual'] for x in ops) + '#endif\n'
        return h, cc, oh, oc

    # --------------------------------------------------------- DRR generation
    def gen_rewriters(self):
        out, names = [], []
        for k, n in enumerate(self.R['!instanceof'].get('Pattern', [])):
            out.append(Pattern(self, self.R[n], k).gen())
            names.append('GeneratedConvert%d' % k)
        out.append('void LLVM_ATTRIBUTE_UNUSED populateWithGenerated(::mlir::RewritePatternSet& patterns) {')
        out += ['  patterns.add<%s>(patterns.getContext());' % n for n in names]
        out.append('}')
        return '\n'.join(out) + '\n'


class Pattern:
    def __init__(self, g, r, k):
        self.g, self.r, self.k = g, r, k
        self.syms = {}        # name -> ('operand', arg) | ('attr', arg) | ('op', opdesc, var)
        self.decl, self.match, self.ops = [], [], 0
        self.uid = 0
        self.created = []

    def op_of(self, dag):
        if not (isinstance(dag, dict) and dag.get('kind') == 'dag') or not self.g.isa(dag['operator'], 'Op'):
            return None
        return self.g.op(self.g.rec(dag['operator']))

    def fail(self, cond, why):
        return 'if (%s) return rewriter.notifyMatchFailure(op0, "%s");' % (cond, why)

    def num_ops(self, dag):
        return 1 + sum(self.num_ops(a) for a, _ in dag['args'] if self.op_of(a)) if self.op_of(dag) else 0

    def bind(self, name, sym):
        if name in self.syms:
            raise SystemExit('symbol $%s bound twice in a source pattern' % name)
        self.syms[name] = sym

    # ---------------------------------------------------------------- source
    def source(self, dag, var):
        g = self.g
        o = self.op_of(dag)
        if o is None:
            raise SystemExit('unsupported source pattern: %s' % dag.get('printable'))
        m = self.match
        c = 'casted_' + var
        m.append('auto %s = ::llvm::dyn_cast<%s>(%s);' % (c, o['qual'], var))
        m.append(self.fail('!' + c, 'not the expected operator'))
        if dag.get('name'):
            self.bind(dag['name'], ('op', o, c))
        args = list(dag['args'])
        if args and self.g.isa(args[-1][0].get('operator', {}) if isinstance(args[-1][0], dict) else {}, 'ReturnTypeDirective'):
            raise SystemExit('returnType directive in a source pattern')
        if len(args) != len(o['args']):
            raise SystemExit('%s: %d arguments for %d' % (o['name'], len(args), len(o['args'])))
        for (init, name), a in zip(args, o['args']):
            unset = init is None or (isinstance(init, dict) and init.get('kind') == 'unset') or (isinstance(init, dict) and init.get('printable') == '?')
            if a['kind'] == 'operand':
                rng = '%s.getODSOperands(%d)' % (c, a['index'])
                sub = None if unset else self.op_of(init)
                if sub:
                    if a['variadic']:
                        raise SystemExit('nested operator under a variadic operand')
                    self.ops += 1
                    v = 'op%d' % self.ops
                    m.append('::mlir::Operation* %s = (*%s.begin()).getDefiningOp();' % (v, rng))
                    m.append(self.fail('!' + v, 'no defining operator'))
                    if name:
                        raise SystemExit('named nested operand')
                    self.source(init, v)
                    m.append('tblgen_ops.push_back(%s);' % v)
                    continue
                if not unset:
                    if not g.isa(init, 'TypeConstraint'):
                        raise SystemExit('unsupported operand matcher %s' % init)
                    m.append('for (auto v : %s) { ::mlir::Type type = v.getType(); (void)type; %s }' % (rng, self.fail('!(%s)' % g.fmt(g.cond(g.rec(init)['predicate']), self_='type'), 'operand type')))
                if name and name != '_' and name in self.syms:
                    # the same value twice
                    if self.syms[name][0] != 'operand' or a['variadic'] or self.syms[name][1]['variadic']:
                        raise SystemExit('symbol $%s bound twice in a source pattern' % name)
                    m.append(self.fail('*%s.begin() != %s' % (rng, name), 'not the same value'))
                elif name and name != '_':
                    if a['variadic']:
                        m.append('auto %s = %s;' % (name, rng))
                    else:
                        m.append('::mlir::Value %s = *%s.begin();' % (name, rng))
                    self.bind(name, ('operand', a))
            else:
                self.uid += 1
                t = 'attr%d' % self.uid
                m.append('auto %s = %s->getAttrOfType<%s>("%s"); (void)%s;' % (t, 'casted_' + var, a['storage'], a['name'], t))
                if a['default']:
                    m.append('if (!%s) %s = %s;' % (t, t, g.fmt(a['build'], [a['default']])))
                elif not a['optional']:
                    m.append(self.fail('!' + t, 'missing attribute'))
                if not unset:
                    if not g.isa(init, 'AttrConstraint'):
                        raise SystemExit('unsupported attribute matcher %s' % init)
                    m.append('{ ::mlir::Attribute attr = %s; (void)attr; %s }' % (t, self.fail('!(%s)' % self.attr_cond(init, 'attr'), 'attribute constraint')))
                if name and name != '_':
                    m.append('%s %s = %s; (void)%s;' % (a['storage'], name, t, name))
                    self.bind(name, ('attr', a))

    def attr_cond(self, init, self_):
        return self.g.fmt(self.g.cond(self.g.rec(init)['predicate']), self_=self_)

    def value(self, name):
        """C++ of a bound symbol used as a single value or attribute"""
        base, idx = name, None
        m = re.match(r'(.*)__(\d+)$', name)
        if name not in self.syms and m:
            base, idx = m.group(1), int(m.group(2))
        s = self.syms[base]
        if s[0] == 'op':
            o = s[1]
            if idx is not None:
                return '(*%s.getODSResults(%d).begin())' % (s[2], idx)
            if len(o['results']) == 1 and not o['results'][0]['variadic']:
                return '(*%s.getODSResults(0).begin())' % s[2]
            if len(o['results']) == 1:
                return '%s.getODSResults(0)' % s[2]
            return '%s->getResults()' % s[2]
        return base

    def constraints(self):
        g = self.g
        for d in self.r['constraints']:
            r = g.rec(d['operator'])
            sc = r['!superclasses']
            args = [self.value(n) for _, n in d['args']]
            if 'TypeConstraint' in sc:
                self.match.append('{ ::mlir::Type type = %s.getType(); (void)type; %s }' % (args[0], self.fail('!(%s)' % g.fmt(g.cond(r['predicate']), self_='type'), 'type constraint')))
            elif 'AttrConstraint' in sc:
                self.match.append('{ ::mlir::Attribute attr = %s; (void)attr; %s }' % (args[0], self.fail('!(%s)' % g.fmt(g.cond(r['predicate']), self_='attr'), 'attribute constraint')))
            else:
                self.match.append(self.fail('!(%s)' % g.fmt(g.cond(r['predicate']), args, self_=args[0] if args else ''), 'constraint'))

    # ---------------------------------------------------------------- result
    def leaf_attr(self, init, name):
        """An attribute (or native call on one) in a result pattern."""
        g = self.g
        if isinstance(init, dict) and init.get('kind') == 'def':
            r = g.rec(init)
            sc = r['!superclasses']
            if 'ConstantAttr' in sc:
                base = g.rec(r['attr'])
                while not base['constBuilderCall'] and isinstance(base.get('baseAttr'), dict):
                    base = g.rec(base['baseAttr'])
                return g.fmt(base['constBuilderCall'], [r['value']])
            if 'NativeCodeCall' in sc:
                return g.fmt(r['expression'], [], self_=self.value(name), _loc='odsLoc')
        if name:
            return self.value(name)
        raise SystemExit('unsupported result argument %s' % init)

    def arg(self, init, name, rw):
        if isinstance(init, dict) and init.get('kind') == 'dag':
            return self.result(init, rw, 1)
        return self.leaf_attr(init, name)

    def native(self, dag, rw):
        g = self.g
        r = g.rec(dag['operator'])
        args = [self.arg(i, n, rw) for i, n in dag['args']]
        self.uid += 1
        v = 'nativeVar_%d' % self.uid
        rw.append('auto %s = %s; (void)%s;' % (v, g.fmt(r['expression'], args, self_=args[0] if args else '', _loc='odsLoc'), v))
        return v

    def result(self, dag, rw, depth, index=None):
        """Emits the creation; returns a C++ expression of the value(s)."""
        g = self.g
        opr = dag['operator']
        if g.isa(opr, 'NativeCodeCall'):
            v = self.native(dag, rw)
            if dag.get('name'):
                rw.append('auto %s = %s; (void)%s;' % (dag['name'], v, dag['name']))
                self.syms[dag['name']] = ('operand', None)
            return v
        if opr['def'] == 'replaceWithValue':
            return self.arg(dag['args'][0][0], dag['args'][0][1], rw)
        o = self.op_of(dag)
        if o is None:
            raise SystemExit('unsupported result pattern %s' % dag.get('printable'))
        vals, types = [], None
        args = list(dag['args'])
        while args and isinstance(args[-1][0], dict) and args[-1][0].get('kind') == 'dag' and args[-1][0]['operator']['def'] in ('returnType', 'location'):
            d = args.pop()[0]  # (locations are not observed)
            if d['operator']['def'] == 'returnType':
                types = []
                for init, name in d['args']:
                    if isinstance(init, str):
                        types.append(g.fmt(init, [], _loc='odsLoc'))
                    elif isinstance(init, dict) and init.get('kind') == 'dag':
                        types.append(self.native(init, rw))
                    else:
                        types.append(self.value(name) + '.getType()')
        if len(args) != len(o['args']):
            raise SystemExit('%s: %d arguments for %d' % (o['name'], len(args), len(o['args'])))
        # nested operators are created first, in argument order
        for (init, name), a in zip(args, o['args']):
            vals.append(self.arg(init, name, rw))
        self.uid += 1
        v = 'tblgen_%s_%d' % (o['cls'], self.uid)
        same = any(t['!name'] in ('SameOperandsAndResultType', 'FirstAttrDerivedResultType') for t in o['traits'])
        rw.append('%s %s;' % (o['qual'], v))
        if depth > 0 and not same and types is None:
            rw.append('%s = rewriter.create<%s>(odsLoc%s);' % (v, o['qual'], ''.join(', ' + x for x in vals)))
        else:
            rw.append('{ ::llvm::SmallVector<::mlir::Value, 4> tblgen_values; ::llvm::SmallVector<::mlir::NamedAttribute, 4> tblgen_attrs; ::llvm::SmallVector<::mlir::Type, 4> tblgen_types;')
            for x, a in zip(vals, o['args']):
                if a['kind'] == 'operand':
                    if a['variadic']:
                        rw.append('for (auto v : %s) tblgen_values.push_back(v);' % x)
                    else:
                        rw.append('tblgen_values.push_back(%s);' % x)
                else:
                    rw.append('if (auto tmpAttr = %s) tblgen_attrs.emplace_back(rewriter.getStringAttr("%s"), tmpAttr);' % (x, a['name']))
            if types is not None:
                for x in types:
                    rw.append('tblgen_types.push_back(%s);' % x)
                rw.append('%s = rewriter.create<%s>(odsLoc, tblgen_types, tblgen_values, tblgen_attrs); }' % (v, o['qual']))
            elif same:
                rw.append('%s = rewriter.create<%s>(odsLoc, tblgen_values, tblgen_attrs); }' % (v, o['qual']))
            else:
                n = len(o['results'])
                first = 0 if index is None else index
                for i in range(n):
                    rw.append('for (auto v : casted_op0.getODSResults(%d)) tblgen_types.push_back(v.getType());' % (first + i))
                rw.append('%s = rewriter.create<%s>(odsLoc, tblgen_types, tblgen_values, tblgen_attrs); }' % (v, o['qual']))
        name = dag.get('name')
        self.syms[name or v] = ('op', o, v)
        return self.value(name or v)

    def gen(self):
        r, g = self.r, self.g
        src = r['sourcePattern']
        root = self.op_of(src)
        if root is None:
            raise SystemExit('unsupported root %s' % src.get('printable'))
        self.source(src, 'op0')
        self.constraints()
        benefit = self.num_ops(src)
        for init, _ in r['benefitDelta']['args']:
            benefit += int(init)
        rw = []
        res = r['resultPatterns']
        nres = len(root['results'])
        vals = []
        for i, d in enumerate(res):
            aux = i < len(res) - nres
            if aux:
                self.result(d, rw, 1)
            else:
                vals.append(self.result(d, rw, 0, i - (len(res) - nres)))
        for d in r.get('supplementalPatterns') or []:
            self.result(d, rw, 1)
        if not res:
            rw.append('rewriter.eraseOp(op0);')
        else:
            rw.append('::llvm::SmallVector<::mlir::Value, 4> tblgen_repl_values;')
            for v in vals:
                rw.append('standin_push(tblgen_repl_values, %s);' % v)
            rw.append('rewriter.replaceOp(op0, tblgen_repl_values);')
        L = ['struct GeneratedConvert%d : public ::mlir::RewritePattern {' % self.k,
             '  GeneratedConvert%d(::mlir::MLIRContext* context) : ::mlir::RewritePattern("%s", %d, context, {}) {}' % (self.k, root['opname'], benefit),
             '  ::mlir::LogicalResult matchAndRewrite(::mlir::Operation* op0, ::mlir::PatternRewriter& rewriter) const override {',
             '    ::llvm::SmallVector<::mlir::Operation*, 4> tblgen_ops;',
             '    tblgen_ops.push_back(op0);']
        L += ['    ' + x for x in self.match]
        L += ['    ::llvm::SmallVector<::mlir::Location, 4> odsLocs;\n    for (auto* o : tblgen_ops) odsLocs.push_back(o->getLoc());\n    auto odsLoc = rewriter.getFusedLoc(odsLocs); (void)odsLoc;']
        L += ['    ' + x for x in rw]
        L += ['    return ::mlir::success();', '  }', '};']
        return '\n'.join(L)


def write(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as f:
        f.write(s)


def main():
    mode, repo, out = sys.argv[1:4]
    L = 'larq_compute_engine/mlir/'
    if mode == 'ops':
        # the repository's dialect
        h, cc, oh, oc = Gen(load(repo + '/' + L + 'ir/lce_ops.td', repo)).gen_ops('lq')
        write(out + '/' + L + 'ir/lce_dialect.h.inc', h)
        write(out + '/' + L + 'ir/lce_dialect.cc.inc', cc)
        write(out + '/' + L + 'ir/lce_ops.h.inc', oh)
        write(out + '/' + L + 'ir/lce_ops.cc.inc', oc)
    elif mode == 'standin':
        for d, f in (('tfl', 'lite/ir/tfl_ops'), ('tf', 'tensorflow/ir/tf_ops')):
            h, cc, oh, oc = Gen(load(HERE + '/td/tensorflow/compiler/mlir/' + f + '.td', repo)).gen_ops(d)
            for ext, s in (('_dialect.h.inc', h), ('_dialect.cc.inc', cc), ('.h.inc', oh), ('.cc.inc', oc)):
                write('%s/standin/%s%s' % (out, d, ext), s)
    else:
        td, inc = mode.split('=')
        write(out + '/' + L + 'transforms/' + inc, Gen(load(repo + '/' + L + 'transforms/' + td, repo)).gen_rewriters())


main()
