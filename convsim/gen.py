#!/usr/bin/env python3
"""Generates, from llvm-tblgen's record dumps, the C++ that mlir-tblgen would
generate for the converter (it is not installed here): operator classes,
dialect classes and declarative rewrite patterns.

gen.py ops  DUMP.json CPPNAMESPACE PREFIX   -> PREFIX{ops.h,ops.cc,dialect.h,dialect.cc}.inc
gen.py pats DUMP.json OUT.inc
"""
import json, re, sys


class Gen:
    def __init__(self, dump):
        self.d = json.load(open(dump))

    def rec(self, ref):
        return self.d[ref["def"]]

    def isa(self, name, cls):
        return cls in self.d[name]["!superclasses"]

    # ---- predicates -> C++
    def pred(self, name, leaf=lambda s: s):
        r = self.d[name]
        if "predExpr" in r and "CPred" in r["!superclasses"]:
            return "(" + leaf(r["predExpr"]) + ")"
        kind = r["kind"]["def"]
        sub = leaf
        if kind == "PredCombinerSubstLeaves":
            sub = lambda s: leaf(s.replace(r["pattern"], r["replacement"]))
        kids = [self.pred(c["def"], sub) for c in r["children"]]
        if kind == "PredCombinerAnd":
            return "(" + (" && ".join(kids) or "true") + ")"
        if kind == "PredCombinerOr":
            return "(" + (" || ".join(kids) or "false") + ")"
        if kind == "PredCombinerNot":
            return "(!" + kids[0] + ")"
        if kind == "PredCombinerSubstLeaves":
            return kids[0]
        if kind == "PredCombinerConcat":
            return "(" + leaf(r["prefix"]) + kids[0] + leaf(r["suffix"]) + ")"
        raise SystemExit("predicate " + kind)

    def constraint(self, name):
        p = self.d[name].get("predicate")
        return self.pred(p["def"]) if p and p["def"] != "" else "(true)"

    # ---- operators
    def op(self, name):
        return Op(self, name)


def camel(s):
    return "".join(p[:1].upper() + p[1:] for p in s.split("_"))


class Op:
    def __init__(self, g, name):
        self.g, self.name = g, name
        r = self.r = g.d[name]
        self.dialect = g.rec(r["opDialect"])
        self.ns = self.dialect["cppNamespace"]
        self.cls = name.split("_", 1)[1] if "_" in name else name
        self.full = self.ns + "::" + self.cls
        self.opname = self.dialect["name"] + "." + r["opName"]
        self.args = []  # (kind, name, constraint def name, variadic)
        for a, n in r["arguments"]["args"]:
            self.args.append(self.arg(a, n))
        self.results = [self.arg(a, n) for a, n in r["results"]["args"]]

    def arg(self, a, n):
        g = self.g
        c = a["def"]
        while g.isa(c, "Arg") or "OpVariable" in g.d[c]["!superclasses"]:
            c = g.d[c]["constraint"]["def"]
        if g.isa(c, "AttrConstraint"):
            return ("attr", n, c, False)
        if g.isa(c, "Variadic") or g.isa(c, "Optional"):
            return ("operand", n, g.d[c]["baseType"]["def"], True)
        return ("operand", n, c, False)

    @property
    def operands(self):
        return [a for a in self.args if a[0] == "operand"]

    @property
    def attrs(self):
        return [a for a in self.args if a[0] == "attr"]


def storage(g, c):
    return g.d[c].get("storageType", "::mlir::Attribute").strip() or "::mlir::Attribute"


def attr_base(g, c):
    """the constraint that says how the attribute is stored"""
    r = g.d[c]
    while "storageType" not in r and r.get("attr"):
        r = g.d[r["attr"]["def"]]
    return r


def const_attr(g, c, builder):
    """C++ building the value of a ConstantAttr, an enum case or a default."""
    r = g.d[c]
    if g.isa(c, "ConstantAttr"):
        a = g.rec(r["attr"])
        return subst(a["constBuilderCall"], builder, args=[r["value"]])
    raise SystemExit("constant " + c)


def default_attr(g, c, builder):
    r = g.d[c]
    return subst(r["constBuilderCall"], builder, args=[r["defaultValue"]])


def has_default(g, c):
    v = g.d[c].get("defaultValue")
    return bool(v) and not g.isa(c, "UnitAttr") and c != "UnitAttr"


def subst(fmt, builder, self_=None, args=(), loc="odsLoc"):
    def one(m):
        t = m.group(1)
        if t.isdigit():
            if int(t) >= len(args):
                raise SystemExit("missing argument $" + t + " of " + fmt)
            return args[int(t)]
        if t == "_builder":
            return builder
        if t == "_loc":
            return loc
        if t == "_self":
            return self_ if self_ is not None else "op0"
        if t == "_op":
            return "(*op0)"
        if t == "_state":
            return "odsState"
        raise SystemExit("unknown $" + t)
    return re.sub(r"\$(\d+|_builder|_loc|_self|_op|_state)", one, fmt)


# ------------------------------------------------------------------ operators
def gen_ops(g, ns, prefix):
    names = [n for n in g.d["!instanceof"]["Op"] if g.rec(g.d[n]["opDialect"])["cppNamespace"] == ns]
    ops = [g.op(n) for n in names]
    dn = [n for n in g.d["!instanceof"]["Dialect"] if g.d[n]["cppNamespace"] == ns][0]
    d = g.d[dn]
    dcls = dn.replace("_", "") if not d.get("cppClassName") else d["cppClassName"]
    dcls = {"TFLDialect": "TensorFlowLiteDialect", "TFDialect": "TensorFlowDialect"}.get(dcls, dcls)
    nsl = [x for x in ns.split("::") if x]
    op_ns = "".join("namespace %s {\n" % x for x in nsl)
    cl_ns = "}\n" * len(nsl)

    h = op_ns + f"""class {dcls} : public ::mlir::Dialect {{
  explicit {dcls}(::mlir::MLIRContext *context);
  void initialize();
  friend class ::mlir::MLIRContext;
public:
  ~{dcls}() override;
  static constexpr ::llvm::StringLiteral getDialectNamespace() {{ return ::llvm::StringLiteral("{d['name']}"); }}
"""
    if d.get("hasConstantMaterializer"):
        h += "  ::mlir::Operation *materializeConstant(::mlir::OpBuilder &builder, ::mlir::Attribute value, ::mlir::Type type, ::mlir::Location loc) override;\n"
    h += (d.get("extraClassDeclaration") or "") + "};\n" + cl_ns + f"MLIR_DECLARE_EXPLICIT_TYPE_ID({ns}::{dcls})\n"
    open(prefix + "dialect.h.inc", "w").write(h)
    deps = "".join(f"  getContext()->loadDialect<{x}>();\n" for x in d.get("dependentDialects") or [])
    c = f"MLIR_DEFINE_EXPLICIT_TYPE_ID({ns}::{dcls})\n" + op_ns + f"""{dcls}::{dcls}(::mlir::MLIRContext *context) : ::mlir::Dialect(getDialectNamespace(), context, ::mlir::TypeID::get<{dcls}>()) {{
{deps}  initialize();
}}
{dcls}::~{dcls}() = default;
""" + cl_ns
    open(prefix + "dialect.cc.inc", "w").write(c)

    H, C, L = "", "", ",\n".join(o.full for o in ops)
    for o in ops:
        H += op_ns + f"class {o.cls};\n" + cl_ns
    for o in ops:
        hh, cc = gen_op(g, o)
        H += op_ns + hh + cl_ns + f"MLIR_DECLARE_EXPLICIT_TYPE_ID({o.full})\n"
        C += op_ns + cc + cl_ns + f"MLIR_DEFINE_EXPLICIT_TYPE_ID({o.full})\n"
    open(prefix + "ops.h.inc", "w").write("#ifdef GET_OP_CLASSES\n#undef GET_OP_CLASSES\n" + H + "#endif\n")
    open(prefix + "ops.cc.inc", "w").write("#ifdef GET_OP_LIST\n#undef GET_OP_LIST\n" + L + "\n#endif\n#ifdef GET_OP_CLASSES\n#undef GET_OP_CLASSES\n" + C + "#endif\n")


def flatten_traits(g, refs):
    out = []
    for t in refs:
        r = g.rec(t)
        if "TraitList" in r["!superclasses"]:
            out += flatten_traits(g, r["traits"])
        else:
            out.append(r)
    return out


def gen_op(g, o):
    nres, nopd = len(o.results), len(o.operands)
    var = any(a[3] for a in o.operands)
    rvar = any(a[3] for a in o.results)
    traits = ["::mlir::OpTrait::ZeroRegions"]
    if rvar:
        traits.append("::mlir::OpTrait::VariadicResults")
    elif nres == 0:
        traits.append("::mlir::OpTrait::ZeroResults")
    elif nres == 1:
        t = g.d[o.results[0][2]].get("cppClassName") or "::mlir::Type"
        traits += ["::mlir::OpTrait::OneResult", f"::mlir::OpTrait::OneTypedResult<{t}>::Impl"]
    else:
        traits.append(f"::mlir::OpTrait::NResults<{nres}>::Impl")
    traits.append("::mlir::OpTrait::ZeroSuccessors")
    traits.append("::mlir::OpTrait::VariadicOperands" if var else "::mlir::OpTrait::ZeroOperands" if nopd == 0 else "::mlir::OpTrait::OneOperand" if nopd == 1 else f"::mlir::OpTrait::NOperands<{nopd}>::Impl")
    traits.append("::mlir::OpTrait::OpInvariants")
    effects = False
    for t in flatten_traits(g, o.r["traits"]):
        n = t.get("trait") or t.get("cppInterfaceName") or ""
        if t["!name"] == "NoMemoryEffect" or "MemoryEffect" in n:
            traits.append("::mlir::MemoryEffectOpInterface::Trait")
            effects = True
        elif n == "ConditionallySpeculatable" or "Speculatab" in t["!name"] and "Interface" in str(t["!superclasses"]):
            traits.append("::mlir::ConditionallySpeculatable::Trait")
        elif "NativeTrait" in t["!superclasses"] or "NativeOpTrait" in t["!superclasses"] or "trait" in t:
            ns = t.get("cppNamespace") or "::mlir::OpTrait"
            traits.append(ns + "::" + n)
    seen, tr = set(), []
    for t in traits:
        if t not in seen:
            seen.add(t)
            tr.append(t)
    cls = o.cls
    H = f"class {cls} : public ::mlir::Op<{cls}, {', '.join(tr)}> {{\npublic:\n  using Op::Op;\n  using Op::print;\n"
    C = ""
    an = [a[1] for a in o.attrs]
    H += "  static ::llvm::ArrayRef<::llvm::StringRef> getAttributeNames() {\n"
    H += ("    static ::llvm::StringRef names[] = {" + ", ".join(f'::llvm::StringRef("{a}")' for a in an) + "};\n    return ::llvm::ArrayRef(names);\n  }\n" if an else "    return {};\n  }\n")
    H += f'  static constexpr ::llvm::StringLiteral getOperationName() {{ return ::llvm::StringLiteral("{o.opname}"); }}\n'

    # operands and results
    def ranges(list_, variadic, rng, get, idx):
        s = f"  {rng} getODS{idx}s(unsigned index) {{\n"
        if variadic:
            k = [a[3] for a in list_].index(True)
            s += f"    unsigned extra = getOperation()->getNum{idx}s() - {len(list_) - 1};\n"
            s += f"    unsigned start = index <= {k} ? index : index - 1 + extra, size = index == {k} ? extra : 1;\n"
        else:
            s += "    unsigned start = index, size = 1;\n"
        s += f"    return {rng}(std::next(getOperation()->{get}_begin(), start), std::next(getOperation()->{get}_begin(), start + size));\n  }}\n"
        return s
    H += ranges(o.operands, var, "::mlir::Operation::operand_range", "operand", "Operand")
    H += ranges(o.results, rvar, "::mlir::Operation::result_range", "result", "Result")
    for kind, lst in (("Operand", o.operands), ("Result", o.results)):
        for i, a in enumerate(lst):
            if not a[1]:
                continue
            if a[3]:
                H += f"  auto get{camel(a[1])}() {{ return getODS{kind}s({i}); }}\n"
            else:
                t = g.d[a[2]].get("cppClassName") or "::mlir::Type"
                H += f"  ::mlir::TypedValue<{t}> get{camel(a[1])}() {{ return ::llvm::cast<::mlir::TypedValue<{t}>>(*getODS{kind}s({i}).begin()); }}\n"
            if kind == "Operand" and not a[3]:
                H += f"  ::mlir::OpOperand &get{camel(a[1])}Mutable() {{ return getOperation()->getOpOperand({i}); }}\n"
    # attributes
    for _, n, c, _v in o.attrs:
        st = storage(g, c)
        r = g.d[c]
        H += f'  {st} get{camel(n)}Attr() {{ return ::llvm::dyn_cast_or_null<{st}>((*this)->getAttr("{n}")); }}\n'
        H += f'  void set{camel(n)}Attr({st} attr) {{ (*this)->setAttr("{n}", attr); }}\n'
        conv = r.get("convertFromStorage") or "$_self"
        ret = r.get("returnType") or st
        body = f"    auto attr = get{camel(n)}Attr();\n"
        if has_default(g, c):
            body += f"    if (!attr) {{ ::mlir::Builder odsBuilder((*this)->getContext()); attr = {default_attr(g, c, 'odsBuilder')}; }}\n"
            if ret.strip().startswith("::std::optional"):
                ret = "auto"
        H += f"  {ret} get{camel(n)}() {{\n{body}    return {subst(conv, 'odsBuilder', 'attr')};\n  }}\n"

    # builders
    sb = "::mlir::OpBuilder &odsBuilder, ::mlir::OperationState &odsState"
    names = {"attr": [], "raw": []}
    for form in ("attr", "raw"):
        if form == "raw" and not any(raw_type(g, a[2]) for a in o.attrs):
            continue
        for typed in ((True, False) if nres == 1 and not rvar else (False,)):
            ps, body = [], ""
            ps.append("::mlir::Type resultType" if typed else "::mlir::TypeRange resultTypes")
            body += "  odsState.addTypes(" + ("resultType" if typed else "resultTypes") + ");\n"
            for a in o.args:
                if a[0] == "operand":
                    ps.append(("::mlir::ValueRange " if a[3] else "::mlir::Value ") + a[1])
                    body += f"  odsState.addOperands({a[1]});\n"
                elif form == "raw" and raw_type(g, a[2]):
                    ps.append(f"{raw_type(g, a[2])} {a[1]}")
                    b = g.d[a[2]]["constBuilderCall"]
                    body += f'  odsState.addAttribute("{a[1]}", {subst(b, "odsBuilder", args=[a[1]])});\n'
                else:
                    ps.append(f"{storage(g, a[2])} {a[1]}")
                    body += f'  if ({a[1]}) odsState.addAttribute("{a[1]}", {a[1]});\n'
            H += f"  static void build({sb}, {', '.join(ps)});\n"
            C += f"void {cls}::build({sb}, {', '.join(ps)}) {{\n{body}}}\n"
    H += f"  static void build({sb}, ::mlir::TypeRange resultTypes, ::mlir::ValueRange operands, ::llvm::ArrayRef<::mlir::NamedAttribute> attributes = {{}});\n"
    C += f"void {cls}::build({sb}, ::mlir::TypeRange resultTypes, ::mlir::ValueRange operands, ::llvm::ArrayRef<::mlir::NamedAttribute> attributes) {{\n  odsState.addTypes(resultTypes);\n  odsState.addOperands(operands);\n  odsState.addAttributes(attributes);\n}}\n"
    for b in o.r.get("builders") or []:
        br = g.rec(b)
        ps = []
        for t, n in br["dagParams"]["args"]:
            dflt = ""
            if isinstance(t, dict):
                t, dflt = g.rec(t)["type"], g.rec(t).get("defaultValue") or ""
            ps.append((t, n, dflt))
        H += f"  static void build({sb}{''.join(', %s %s%s' % (t, n, ' = ' + d if d else '') for t, n, d in ps)});\n"
        if (br.get("body") or "").strip():
            C += f"void {cls}::build({sb}{''.join(', %s %s' % (t, n) for t, n, _ in ps)}) {{\n{subst(br['body'], 'odsBuilder')}}}\n"

    # folding
    H += "  class FoldAdaptor {\n   public:\n"
    H += f"    FoldAdaptor(::llvm::ArrayRef<::mlir::Attribute> operands, {cls} op);\n"
    H += "    ::llvm::ArrayRef<::mlir::Attribute> getOperands() { return odsOperands; }\n    ::mlir::DictionaryAttr getAttributes() { return odsAttrs; }\n"
    if not var:
        for i, a in enumerate(o.operands):
            H += f"    ::mlir::Attribute get{camel(a[1])}() {{ return odsOperands[{i}]; }}\n"
    for _, n, c, _v in o.attrs:
        H += f'    {storage(g, c)} get{camel(n)}Attr() {{ return ::llvm::dyn_cast_or_null<{storage(g, c)}>(odsAttrs.get("{n}")); }}\n'
        conv = g.d[c].get("convertFromStorage") or "$_self"
        if not has_default(g, c):
            H += f"    {g.d[c].get('returnType') or storage(g, c)} get{camel(n)}() {{ auto attr = get{camel(n)}Attr(); return {subst(conv, '', 'attr')}; }}\n"
    H += "   private:\n    ::llvm::ArrayRef<::mlir::Attribute> odsOperands;\n    ::mlir::DictionaryAttr odsAttrs;\n  };\n"
    C += f"{cls}::FoldAdaptor::FoldAdaptor(::llvm::ArrayRef<::mlir::Attribute> operands, {cls} op) : odsOperands(operands), odsAttrs(op->getAttrDictionary()) {{}}\n"
    if o.r.get("hasFolder"):
        H += "  ::mlir::OpFoldResult fold(FoldAdaptor adaptor);\n" if nres == 1 and not rvar else "  ::mlir::LogicalResult fold(FoldAdaptor adaptor, ::llvm::SmallVectorImpl<::mlir::OpFoldResult> &results);\n"
    if o.r.get("hasCanonicalizer"):
        H += "  static void getCanonicalizationPatterns(::mlir::RewritePatternSet &results, ::mlir::MLIRContext *context);\n"
    if o.r.get("hasCanonicalizeMethod"):
        H += f"  static ::mlir::LogicalResult canonicalize({cls} op, ::mlir::PatternRewriter &rewriter);\n  static void getCanonicalizationPatterns(::mlir::RewritePatternSet &results, ::mlir::MLIRContext *context);\n"
        C += f"void {cls}::getCanonicalizationPatterns(::mlir::RewritePatternSet &results, ::mlir::MLIRContext *context) {{ results.add(canonicalize); }}\n"
    if o.r.get("hasVerifier"):
        H += "  ::mlir::LogicalResult verify();\n"
    if effects:
        H += "  void getEffects(::llvm::SmallVectorImpl<::mlir::SideEffects::EffectInstance<::mlir::MemoryEffects::Effect>> &effects) {}\n"
    H += "  ::mlir::LogicalResult verifyInvariantsImpl();\n  ::mlir::LogicalResult verifyInvariants();\n"
    C += f"::mlir::LogicalResult {cls}::verifyInvariantsImpl() {{\n"
    for _, n, c, _v in o.attrs:
        r = g.d[c]
        opt = r.get("isOptional") or has_default(g, c) or c == "UnitAttr"
        C += f'  if (auto attr = (*this)->getAttr("{n}")) {{\n    if (!{subst(g.constraint(c), "::mlir::Builder(getContext())", "attr")}) return emitOpError("attribute \'{n}\' failed to satisfy constraint");\n  }}'
        C += "\n" if opt else f' else {{\n    return emitOpError("requires attribute \'{n}\'");\n  }}\n'
    for kind, lst in (("Operand", o.operands), ("Result", o.results)):
        for i, a in enumerate(lst):
            C += f"  for (::mlir::Value v : getODS{kind}s({i})) {{\n    ::mlir::Type type = v.getType();\n    (void)type;\n    if (!{subst(g.constraint(a[2]), '::mlir::Builder(getContext())', 'type')}) return emitOpError(\"{kind.lower()} #{i} has the wrong type: \") << type;\n  }}\n"
    C += "  return ::mlir::success();\n}\n"
    C += f"::mlir::LogicalResult {cls}::verifyInvariants() {{\n  if (::mlir::succeeded(verifyInvariantsImpl()){' && ::mlir::succeeded(verify())' if o.r.get('hasVerifier') else ''}) return ::mlir::success();\n  return ::mlir::failure();\n}}\n"
    H += "public:\n" + (o.r.get("extraClassDeclaration") or "") + "};\n"
    C += (o.r.get("extraClassDefinition") or "").replace("$cppClass", cls)
    return H, C


def raw_type(g, c):
    r = g.d[c]
    ret, b = (r.get("returnType") or "").strip(), r.get("constBuilderCall") or ""
    if not b or "$0" not in b or ret.startswith("::mlir") or ret.startswith("::std::optional") or not ret:
        return None
    if r["!name"] == "UnitAttr":
        return None
    return ret


# ------------------------------------------------------------------- patterns
class Pattern:
    def __init__(self, g, name, index):
        self.g, self.name, self.index = g, name, index
        self.r = g.d[name]
        self.sym = {}  # symbol -> (kind, cpp expression, extra)
        self.decls, self.out = [], []
        self.n = 0
        self.nops = 0

    def tmp(self, p="v"):
        self.n += 1
        return f"tblgen_{p}{self.n}"

    def emit(self, s):
        self.out.append("    " + s)

    def fail_unless(self, cond):
        self.emit(f"if (!({cond})) return ::mlir::failure();")

    def bind(self, name, kind, expr, type_, extra=None):
        if name in (None, "", "_"):
            return
        base = name.split("__")[0] if re.search(r"__\d+$", name) else name
        if name in self.sym:
            k, e, _ = self.sym[name]
            self.fail_unless(f"{e} == {expr}")
            return
        v = "sym_" + re.sub(r"\W", "_", name)
        if kind == "range":
            self.emit(f"{type_} {v} = {expr};")
        else:
            self.emit(f"{type_} {v} = {expr}; (void){v};")
        self.sym[name] = (kind, v, extra)

    # ---- matching
    def match(self, dag, opvar):
        g = self.g
        opdef = dag["operator"]["def"]
        if not g.isa(opdef, "Op"):
            raise SystemExit(f"pattern {self.name}: cannot match {opdef}")
        o = g.op(opdef)
        self.nops += 1
        c = self.tmp("cast")
        self.fail_unless(opvar)
        self.emit(f"auto {c} = ::llvm::dyn_cast<{o.full}>({opvar});")
        self.fail_unless(c)
        self.emit(f"tblgen_ops.push_back({opvar});")
        if dag.get("name"):
            self.bind(dag["name"], "op", c, o.full, o)
        if len(dag["args"]) != len(o.args):
            raise SystemExit(f"pattern {self.name}: {opdef} takes {len(o.args)} arguments, not {len(dag['args'])}")
        k = 0
        for (arg, name), (kind, an, con, variadic) in zip(dag["args"], o.args):
            if kind == "operand":
                rng = f"{c}.getODSOperands({k})"
                k += 1
                if isinstance(arg, dict) and arg["kind"] == "dag":
                    v = self.tmp("def")
                    self.match_nested(arg, f"(*{rng}.begin())", v)
                elif variadic:
                    self.bind(name, "range", rng, "::mlir::Operation::operand_range")
                else:
                    v = f"(*{rng}.begin())"
                    if arg is not None:
                        self.check_value(arg["def"], v)
                    self.bind(name, "value", v, "::mlir::Value")
            else:
                if isinstance(arg, dict) and arg["kind"] == "dag":
                    raise SystemExit(f"pattern {self.name}: nested attribute pattern")
                a = self.tmp("attr")
                st = storage(g, con)
                self.emit(f'auto {a} = {opvar}->getAttrOfType<{st}>("{an}"); (void){a};')
                if has_default(g, con):
                    self.emit(f"if (!{a}) {a} = {default_attr(g, con, 'rewriter')};")
                if arg is not None:
                    self.fail_unless(a)
                    self.check_attr(arg, a)
                self.bind(name, "attr", a, st)

    def match_nested(self, dag, value, v):
        g = self.g
        opdef = dag["operator"]["def"]
        if g.isa(opdef, "NativeCodeCall"):
            r = g.d[opdef]
            names = []
            for arg, name in dag["args"]:
                t = self.tmp("m")
                self.emit(f"::mlir::Attribute {t};")
                names.append((t, arg, name))
            e = subst(r["expression"], "rewriter", f"{value}.getDefiningOp()", [t for t, _, _ in names], "op0->getLoc()")
            self.fail_unless(f"{value}.getDefiningOp()")
            self.emit(f"if (::mlir::failed({e})) return ::mlir::failure();")
            for t, arg, name in names:
                if arg is not None:
                    self.check_attr(arg, t)
                self.bind(name, "attr", t, "::mlir::Attribute")
            return
        self.emit(f"::mlir::Operation *{v} = {value}.getDefiningOp();")
        self.match(dag, v)

    def check_value(self, c, v):
        if not self.g.isa(c, "TypeConstraint"):
            raise SystemExit(f"pattern {self.name}: operand constraint {c}")
        e = subst(self.g.constraint(c), "rewriter", "type")
        self.fail_unless(f"[&](::mlir::Type type) -> bool {{ return {e}; }}({v}.getType())")

    def check_attr(self, arg, a):
        c = arg["def"]
        g = self.g
        if g.isa(c, "EnumAttrCaseInfo"):
            raise SystemExit("enum case")
        e = subst(g.constraint(c), "rewriter", "attr")
        self.fail_unless(f"[&](::mlir::Attribute attr) -> bool {{ return {e}; }}({a})")

    # ---- building
    def use(self, name):
        """a symbol as a value or an attribute"""
        m = re.match(r"^(.*?)__(\d+)$", name)
        if name in self.sym:
            kind, e, x = self.sym[name]
            if kind == "op":
                return f"(*{e}.getODSResults(0).begin())"
            return e
        if m and m.group(1) in self.sym and self.sym[m.group(1)][0] == "op":
            return f"(*{self.sym[m.group(1)][1]}.getODSResults({m.group(2)}).begin())"
        raise SystemExit(f"pattern {self.name}: unknown ${name}")

    def leaf(self, arg, name):
        g = self.g
        if arg is None:
            return self.use(name)
        if isinstance(arg, str):
            return arg if re.match(r"^[\d.\-]+$", arg) else json.dumps(arg)
        if isinstance(arg, int):
            return str(arg)
        c = arg["def"]
        if g.isa(c, "NativeCodeCall"):
            return subst(g.d[c]["expression"], "rewriter", self.use(name))
        if g.isa(c, "ConstantAttr"):
            return const_attr(g, c, "rewriter")
        if name:
            return self.use(name)
        if c == "UnitAttr":
            return "rewriter.getUnitAttr()"
        raise SystemExit(f"pattern {self.name}: result argument {c}")

    def build(self, arg, name, root=False):
        """returns a C++ expression"""
        g = self.g
        if not (isinstance(arg, dict) and arg["kind"] == "dag"):
            return self.leaf(arg, name)
        opdef = arg["operator"]["def"]
        if opdef == "replaceWithValue":
            a, n = arg["args"][0]
            return self.build(a, n)
        if g.isa(opdef, "NativeCodeCall"):
            r = g.d[opdef]
            xs = [self.build(a, n) for a, n in arg["args"]]
            e = subst(r["expression"], "rewriter", xs[0] if xs else None, xs)
            if r.get("numReturns", 1) == 0:
                self.emit(f"{e};")
                return "void"
            v = self.tmp("native")
            self.emit(f"auto {v} = {e}; (void){v};")
            if arg.get("name"):
                self.sym[arg["name"]] = ("value", v, None)
            return v
        if not g.isa(opdef, "Op"):
            raise SystemExit(f"pattern {self.name}: result operator {opdef}")
        o = g.op(opdef)
        args = list(arg["args"])
        rtype = None
        while args and isinstance(args[-1][0], dict) and args[-1][0]["kind"] == "dag" and args[-1][0]["operator"]["def"] in ("returnType", "location"):
            t = args.pop()[0]
            if t["operator"]["def"] == "returnType":
                x = self.build(*t["args"][0])
                rtype = f"::convsim::TypeOf({x})"
        if len(args) != len(o.args):
            raise SystemExit(f"pattern {self.name}: {opdef} takes {len(o.args)} arguments, not {len(args)}")
        xs = [self.build(a, n) for a, n in args]
        v = self.tmp("new")
        if root or rtype:
            vals, attrs = self.tmp("vals"), self.tmp("attrs")
            self.emit(f"::llvm::SmallVector<::mlir::Value, 4> {vals};")
            self.emit(f"::llvm::SmallVector<::mlir::NamedAttribute, 4> {attrs};")
            for x, a in zip(xs, o.args):
                if a[0] == "operand":
                    self.emit(f"::convsim::Append({vals}, {x});")
                else:
                    self.emit(f'if (::mlir::Attribute tmp = {x}) {attrs}.emplace_back(rewriter.getStringAttr("{a[1]}"), tmp);')
            types = f"::mlir::TypeRange(op0->getResultTypes())" if not rtype else f"::mlir::TypeRange({{{rtype}}})"
            if opdef == "Arith_ConstantOp" and not rtype:
                self.emit(f"{o.full} {v} = rewriter.create<{o.full}>(odsLoc, ::llvm::cast<::mlir::TypedAttr>({attrs}[0].getValue()));")
            else:
                self.emit(f"{o.full} {v} = rewriter.create<{o.full}>(odsLoc, {types}, {vals}, {attrs});")
        else:
            ps = []
            for x, a in zip(xs, o.args):
                if a[0] == "operand":
                    ps.append(x if a[3] else f"::mlir::Value({x})")
                else:
                    ps.append(f"::llvm::cast_or_null<{storage(g, a[2])}>(::mlir::Attribute({x}))")
            self.emit(f"{o.full} {v} = rewriter.create<{o.full}>({', '.join(['odsLoc'] + ps)});")
        if arg.get("name"):
            self.sym[arg["name"]] = ("op", v, o)
        return f"(*{v}.getODSResults(0).begin())" if not root else f"{v}->getResults()"

    def generate(self):
        g, r = self.g, self.r
        src = r["sourcePattern"]
        root = g.op(src["operator"]["def"])
        if len(r["resultPatterns"]) != 1:
            raise SystemExit(f"pattern {self.name}: {len(r['resultPatterns'])} results")
        self.match(src, "op0")
        self.emit("::mlir::Location odsLoc = rewriter.getFusedLoc(::convsim::Locs(tblgen_ops)); (void)odsLoc;")
        # constraints come before the rewrite; locations are only needed after
        fused = self.out.pop()
        for c in r["constraints"]:
            cd = c["operator"]["def"]
            args = [self.leaf(a, n) for a, n in c["args"]]
            self_ = args[0] if args else "op0"
            if g.isa(cd, "TypeConstraint"):
                self.check_value(cd, self_)
                continue
            if g.isa(cd, "NativeCodeCall"):
                raise SystemExit("native constraint")
            e = subst(g.constraint(cd), "rewriter", self_, args)
            self.fail_unless(e)
        self.out.append(fused)
        res = r["resultPatterns"][0]
        e = self.build(res, None, root=True)
        for s in r["supplementalPatterns"]:
            self.build(s, None)
        self.emit("::llvm::SmallVector<::mlir::Value, 4> repl;")
        if e != "void":
            self.emit(f"::convsim::Append(repl, {e});")
        self.emit("rewriter.replaceOp(op0, repl);")
        self.emit("return ::mlir::success();")
        delta = r["benefitDelta"]["args"][0][0]
        k = self.index
        return f"""struct GeneratedConvert{k} : public ::mlir::RewritePattern {{
  GeneratedConvert{k}(::mlir::MLIRContext *context) : ::mlir::RewritePattern("{root.opname}", {self.nops + delta}, context, {{}}) {{}}
  ::mlir::LogicalResult matchAndRewrite(::mlir::Operation *op0, ::mlir::PatternRewriter &rewriter) const override {{
    ::llvm::SmallVector<::mlir::Operation *, 4> tblgen_ops;
""" + "\n".join(self.out) + "\n  }\n};\n"


def gen_pats(g, out):
    s = ""
    names = g.d["!instanceof"].get("Pattern", [])
    for i, n in enumerate(names):
        s += Pattern(g, n, i).generate()
    s += "void __attribute__((unused)) populateWithGenerated(::mlir::RewritePatternSet &patterns) {\n"
    for i in range(len(names)):
        s += f"  patterns.add<GeneratedConvert{i}>(patterns.getContext());\n"
    s += "}\n"
    open(out, "w").write(s)


if __name__ == "__main__":
    g = Gen(sys.argv[2])
    if sys.argv[1] == "ops":
        gen_ops(g, sys.argv[3], sys.argv[4])
    else:
        gen_pats(g, sys.argv[3])
