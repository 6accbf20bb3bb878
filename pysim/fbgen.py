"""Generated TFLite models and an independent view of them."""
import flatbuffers
import numpy as np
from tensorflow.lite.python import schema_py_generated as S

F32, I8, I32, U8, I16 = S.TensorType.FLOAT32, S.TensorType.INT8, S.TensorType.INT32, S.TensorType.UINT8, S.TensorType.INT16
BO = S.BuiltinOperator


class Gen:
    """Builds one model from a random stream."""

    def __init__(self, rng, kind, marker):
        self.rng, self.kind = rng, kind
        self.tensors, self.ops, self.codes, self.buffers = [], [], [], [S.BufferT()]
        self.serial = 0
        self.marker = marker

    def code(self, builtin, custom=None, version=1):
        for i, c in enumerate(self.codes):
            if c.builtinCode == builtin and c.customCode == custom:
                return i
        c = S.OperatorCodeT()
        c.builtinCode = builtin
        c.deprecatedBuiltinCode = min(builtin, 127)
        c.customCode = custom
        c.version = version
        self.codes.append(c)
        return len(self.codes) - 1

    def tensor(self, name, ty, data=False, shape=None):
        t = S.TensorT()
        r = self.rng
        t.name = ("%s_%d" % (name, self.serial)).encode()
        self.serial += 1
        t.type = ty
        t.shape = np.array(shape or [1, r.choice([1, 2, 3, 7])], np.int32)
        if r.random() < 0.3:
            t.shapeSignature = np.array([-1] + list(t.shape[1:]), np.int32)
        if ty in (I8, U8, I16):
            q = S.QuantizationParametersT()
            q.scale = np.array([r.choice([0.5, 0.25, 0.02])], np.float32)
            q.zeroPoint = np.array([r.choice([0, 3, -7])], np.int64)
            if r.random() < 0.5:
                q.min, q.max = np.array([-1.0], np.float32), np.array([1.0], np.float32)
            t.quantization = q
        elif r.random() < 0.5:
            t.quantization = S.QuantizationParametersT()
        t.buffer = 0
        if data:
            b = S.BufferT()
            b.data = np.frombuffer(r.randbytes(r.choice([4, 8, 20])), np.uint8)
            self.buffers.append(b)
            t.buffer = len(self.buffers) - 1
        elif r.random() < 0.3:
            self.buffers.append(S.BufferT())
            t.buffer = len(self.buffers) - 1
        if r.random() < 0.1:
            t.isVariable = True
        if r.random() < 0.5:
            t.hasRank = True
        if r.random() < 0.05:
            t.sparsity = S.SparsityParametersT()
            t.sparsity.traversalOrder = np.array([0, 1], np.int32)
        self.tensors.append(t)
        return t

    def op(self, code, ins, outs, custom_options=None, options=None):
        o = S.OperatorT()
        o._code = code
        o._in, o._out = ins, outs
        if custom_options is not None:
            o.customOptions = np.frombuffer(custom_options, np.uint8)
        if options is not None:
            o.builtinOptionsType, o.builtinOptions = options
        o._mid = []
        self.ops.append(o)
        return o

    def pool(self, graph_in, n, ty, float_ok):
        """Some inner operators between the available tensors."""
        r = self.rng
        avail = list(graph_in)
        for _ in range(n):
            k = min(len(avail), r.choice([1, 1, 2]))
            ins = r.sample(avail, k)
            out = self.tensor("mid", r.choice([ty, ty, I32]))
            x = r.random()
            if x < 0.4:
                o = S.AddOptionsT() if hasattr(S, "AddOptionsT") else None
                self.op(self.code(BO.ADD), ins, [out], options=(S.BuiltinOptions.AddOptions, o))
            elif x < 0.48:
                state = self.tensor("state", ty)
                o = self.op(self.code(BO.UNIDIRECTIONAL_SEQUENCE_LSTM), ins[:1] + [None, state], [out])
                o._mid = [self.tensor("scale", r.choice([I8, I16])) for _ in range(r.choice([0, 1, 5]))]
            elif x < 0.52:
                self.op(self.code(BO.VAR_HANDLE), [], [out])
            elif x < 0.7:
                w = self.tensor("weights", I8, data=True)
                o = self.op(self.code(BO.CONV_2D, version=3), ins[:1] + [w] + [None], [out])
                if r.random() < 0.3:
                    o.mutatingVariableInputs = np.array([True, False, False])
            elif x < 0.85:
                w = self.tensor("filter", I32, data=True)
                self.op(self.code(BO.CUSTOM, b"LceBconv2d"), ins[:1] + [w, None, None, None], [out], custom_options=r.randbytes(12))
            else:
                self.op(self.code(BO.CUSTOM, b"LceQuantize"), ins[:1], [out])
            avail.append(out)
        return avail

    def build(self):
        r, kind = self.rng, self.kind
        nin, nout = r.choice([1, 1, 2, 3]), r.choice([1, 1, 2, 3])
        order = [(BO.QUANTIZE, None), (BO.DEQUANTIZE, None), (BO.ADD, None), (BO.CONV_2D, None), (BO.CUSTOM, b"LceBconv2d"), (BO.CUSTOM, b"LceQuantize")]
        if kind == "float":
            order = order[2:]
        r.shuffle(order)
        for b, c in order:
            if r.random() < 0.7:
                self.code(b, c)
        int_in = r.random() < 0.1
        inputs, inner = [], []
        for i in range(nin):
            x = self.tensor("in", F32)
            inputs.append(x)
            odd = i == self.odd_in(nin)
            if kind == "float" or (kind == "partial_in" and odd):
                inner.append(x)
                continue
            q = self.tensor("in_q", U8 if kind == "uint8_in" and odd else I16 if kind == "int16_in" and odd else I8)
            self.op(self.code(BO.QUANTIZE), [x], [q])
            inner.append(q)
            if kind == "shared_in" and odd:
                y = self.tensor("float_use", F32)
                self.op(self.code(BO.ADD), [x, x], [y])
                inner.append(y)
            if kind == "twice_in" and odd:
                q2 = self.tensor("in_q2", I8)
                self.op(self.code(BO.QUANTIZE), [x], [q2])
                inner.append(q2)
        if int_in and kind != "float":
            x = self.tensor("in_int", I32)
            inputs.append(x)
            inner.append(x)
        base = F32 if kind == "float" else I8
        avail = self.pool(inner, r.choice([0, 1, 2, 3, 5]), base, kind == "float")
        outputs = []
        for i in range(nout):
            odd = i == self.odd_in(nout)
            if kind == "float" or (kind == "partial_out" and odd):
                y = self.tensor("out", F32)
                src = r.choice([a for a in avail] or inner)
                self.op(self.code(BO.ADD), [src, src], [y])
                outputs.append(y)
                continue
            eights = [a for a in avail if a.type == I8]
            if kind in ("uint8_out", "int16_out") and odd:
                src = self.tensor("tail", U8 if kind == "uint8_out" else I16)
                self.op(self.code(BO.ADD), [avail[0]], [src])
            elif eights and r.random() < 0.7:
                src = r.choice(eights)
            else:
                src = self.tensor("tail", I8)
                self.op(self.code(BO.ADD), [r.choice(avail)], [src])
            y = self.tensor("out", F32)
            self.op(self.code(BO.DEQUANTIZE), [src], [y])
            outputs.append(y)
            if kind == "used_out" and odd:
                z = self.tensor("after", F32)
                self.op(self.code(BO.ADD), [y], [z])
                if r.random() < 0.5:
                    w = self.tensor("after_q", I8)
                    self.op(self.code(BO.QUANTIZE), [z], [w])
                    v = self.tensor("after_out", F32)
                    self.op(self.code(BO.DEQUANTIZE), [w], [v])
        # inner quantize and dequantize operators which must stay
        if kind != "float" and r.random() < 0.4:
            a = self.tensor("inner_f", F32)
            b = self.tensor("inner_q", I8)
            src = r.choice([t for t in avail if t.type == I8] or [inner[0]])
            if src.type == I8:
                self.op(self.code(BO.DEQUANTIZE), [src], [a])
                self.op(self.code(BO.QUANTIZE), [a], [b])
        if kind == "in_is_out":
            outputs.append(inputs[0])
        if r.random() < 0.15 and kind != "in_is_out":
            outputs.append(outputs[r.randrange(len(outputs))])  # the same output twice
        # a random valid order of tensors and operators
        if r.random() < 0.7:
            r.shuffle(self.tensors)
        elif r.random() < 0.5:  # boundary tensors last: they can be cut off the end
            tail = [t for t in self.tensors if t in inputs or t in outputs]
            self.tensors = [t for t in self.tensors if t not in tail] + tail
        self.topological()
        sg = self.subgraph(self.tensors, self.ops, inputs, outputs, b"main")
        m = S.ModelT()
        m.version = 3
        m.description = self.marker
        m.subgraphs = [sg]
        sig_tensors = (inputs, outputs)
        if r.random() < 0.7:
            s = S.SignatureDefT()
            s.signatureKey = b"serving_default"
            s.subgraphIndex = 0
            s.inputs, s.outputs = [], []
            idx = {id(t): i for i, t in enumerate(sg.tensors)}
            ins = list(enumerate(inputs))
            outs = list(enumerate(outputs))
            if r.random() < 0.5:
                ins.reverse()
                outs.reverse()
            for i, t in ins:
                s.inputs.append(tmap(b"x%d" % i, idx[id(t)]))
            for i, t in outs:
                s.outputs.append(tmap(b"y%d" % i, idx[id(t)]))
            m.signatureDefs = [s]
            if r.random() < 0.2:
                s2 = S.SignatureDefT()
                s2.signatureKey, s2.subgraphIndex = b"other", 0
                s2.inputs = [tmap(b"a", t.tensorIndex) for t in s.inputs]
                s2.outputs = [tmap(b"b", t.tensorIndex) for t in s.outputs[:1]]
                m.signatureDefs.append(s2)
        if r.random() < 0.3:  # another subgraph, of some control flow or with a signature
            g2 = Gen(r, "float", b"")
            g2.codes, g2.buffers, g2.serial = self.codes, self.buffers, self.serial + 1000
            a, b = g2.tensor("body_in", F32), g2.tensor("body_out", F32)
            q = g2.tensor("body_q", I8)
            g2.op(g2.code(BO.QUANTIZE) if kind != "float" else g2.code(BO.ADD), [a], [q])
            g2.op(g2.code(BO.DEQUANTIZE) if kind != "float" else g2.code(BO.ADD), [q], [b])
            m.subgraphs.append(g2.subgraph(g2.tensors, g2.ops, [a], [b], b"body"))
            if r.random() < 0.3:
                s = S.SignatureDefT()
                s.signatureKey, s.subgraphIndex = b"body", 1
                s.inputs, s.outputs = [tmap(b"x", 0)], [tmap(b"y", 1)]
                m.signatureDefs = (m.signatureDefs or []) + [s]
                r.shuffle(m.signatureDefs)
        if r.random() < 0.5:
            b = S.BufferT()
            b.data = np.frombuffer(b"runtime 2.16 " + r.randbytes(3), np.uint8)
            self.buffers.append(b)
            md = S.MetadataT()
            md.name = b"min_runtime_version"
            md.buffer = len(self.buffers) - 1
            m.metadata = [md]
            if r.random() < 0.3:
                m.metadataBuffer = np.array([md.buffer], np.int32)
        m.operatorCodes = self.codes
        m.buffers = self.buffers
        b = flatbuffers.Builder(1024)
        b.Finish(m.Pack(b), file_identifier=b"TFL3")
        return bytes(b.Output())

    def odd_in(self, n):
        if not hasattr(self, "_odd"):
            self._odd = self.rng.randrange(8)
        return self._odd % n

    def topological(self):
        ops = self.ops
        made = {id(t) for o in ops for t in o._out}
        ready, done, left = [], set(), list(ops)
        while left:
            can = [o for o in left if all(t is None or id(t) not in made or id(t) in done for t in o._in)]
            o = self.rng.choice(can) if self.rng.random() < 0.5 else can[0]
            left = [x for x in left if x is not o]
            ready.append(o)
            done |= {id(t) for t in o._out}
        self.ops = ready

    def subgraph(self, tensors, ops, inputs, outputs, name):
        g = S.SubGraphT()
        idx = {id(t): i for i, t in enumerate(tensors)}
        g.tensors = tensors
        g.name = name
        g.inputs = np.array([idx[id(t)] for t in inputs], np.int32)
        g.outputs = np.array([idx[id(t)] for t in outputs], np.int32)
        for o in ops:
            o.opcodeIndex = o._code
            o.inputs = np.array([-1 if t is None else idx[id(t)] for t in o._in], np.int32)
            o.outputs = np.array([idx[id(t)] for t in o._out], np.int32)
            if o._mid:
                o.intermediates = np.array([idx[id(t)] for t in o._mid], np.int32)
        g.operators = ops
        return g


def sibling(data, rng):
    """The same model with its operator codes, tensors and buffers in another order."""
    m = S.ModelT.InitFromObj(S.Model.GetRootAsModel(bytearray(data), 0))

    def perm(n, keep=0):
        new = list(range(keep, n))
        rng.shuffle(new)
        new = list(range(keep)) + new
        return new  # old index -> new index

    def place(xs, new):
        out = [None] * len(xs)
        for i, x in enumerate(xs):
            out[new[i]] = x
        return out

    what = rng.choice(["codes", "codes", "tensors", "both", "all"])
    if what != "tensors":
        new = perm(len(m.operatorCodes))
        m.operatorCodes = place(m.operatorCodes, new)
        for g in m.subgraphs:
            for o in g.operators:
                o.opcodeIndex = new[o.opcodeIndex]
    if what == "all":
        new = perm(len(m.buffers), 1)
        m.buffers = place(m.buffers, new)
        for g in m.subgraphs:
            for t in g.tensors:
                t.buffer = new[t.buffer]
        for x in m.metadata or []:
            x.buffer = new[x.buffer]
        if m.metadataBuffer is not None:
            m.metadataBuffer = np.array([new[i] for i in m.metadataBuffer], np.int32)
    if what != "codes":
        for k, g in enumerate(m.subgraphs):
            new = perm(len(g.tensors))
            idx = lambda xs: None if xs is None else np.array([new[i] if i >= 0 else i for i in listy(xs)], np.int32)
            g.tensors = place(g.tensors, new)
            g.inputs, g.outputs = idx(g.inputs), idx(g.outputs)
            for o in g.operators:
                o.inputs, o.outputs, o.intermediates = idx(o.inputs), idx(o.outputs), idx(o.intermediates)
            for s in m.signatureDefs or []:
                if s.subgraphIndex == k:
                    for t in s.inputs + s.outputs:
                        t.tensorIndex = new[t.tensorIndex]
    b = flatbuffers.Builder(1024)
    b.Finish(m.Pack(b), file_identifier=b"TFL3")
    return bytes(b.Output())


def tmap(name, i):
    t = S.TensorMapT()
    t.name, t.tensorIndex = name, i
    return t


KINDS = ["q", "q", "q", "float", "partial_in", "partial_out", "shared_in", "twice_in", "uint8_in", "int16_in", "uint8_out", "int16_out", "used_out", "in_is_out"]


def generate(rng, kind, marker):
    return Gen(rng, kind, marker).build()


def plain(x):
    if isinstance(x, np.ndarray):
        return [plain(y) for y in x.tolist()]
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if hasattr(x, "__dict__"):
        return {k: plain(v) for k, v in sorted(x.__dict__.items())}
    return x


def listy(x):
    return [] if x is None or isinstance(x, int) else [int(y) for y in x]


def canon(data):
    """The model with every index resolved to what it refers to."""
    if data[4:8] != b"TFL3":
        raise ValueError("no TFL3 identifier")
    m = S.ModelT.InitFromObj(S.Model.GetRootAsModel(bytearray(data), 0))

    def buf(i):
        b = m.buffers[i]
        d = getattr(b, "data", None)
        return b"" if d is None or len(d) == 0 else bytes(np.asarray(d, np.uint8).tobytes())

    codes = [plain(c) for c in m.operatorCodes]
    out = {"version": m.version, "description": m.description, "codes": codes, "subgraphs": [], "signatures": [],
           "metadata_buffer": [buf(i) for i in listy(m.metadataBuffer)], "metadata": [(x.name, buf(x.buffer)) for x in (m.metadata or [])]}
    for g in m.subgraphs:
        names = [t.name for t in g.tensors]

        def nm(i):
            i = int(i)
            if i == -1:
                return None
            if i < 0 or i >= len(names):
                raise ValueError("tensor index %d of %d" % (i, len(names)))
            return names[i]

        ts = []
        for t in g.tensors:
            p = plain(t)
            p["buffer"] = buf(t.buffer)
            ts.append(p)
        ops = []
        for o in g.operators or []:
            p = plain(o)
            p["opcodeIndex"] = codes[o.opcodeIndex]
            p["inputs"] = [nm(i) for i in listy(o.inputs)]
            p["outputs"] = [nm(i) for i in listy(o.outputs)]
            p["intermediates"] = [nm(i) for i in listy(o.intermediates)]
            ops.append(p)
        out["subgraphs"].append({"name": g.name, "tensors": ts, "ops": ops, "inputs": [nm(i) for i in listy(g.inputs)], "outputs": [nm(i) for i in listy(g.outputs)]})
    for s in m.signatureDefs or []:
        names = [t.name for t in m.subgraphs[s.subgraphIndex].tensors]
        out["signatures"].append({"key": s.signatureKey, "subgraph": s.subgraphIndex,
                                  "inputs": [(t.name, names[t.tensorIndex]) for t in s.inputs], "outputs": [(t.name, names[t.tensorIndex]) for t in s.outputs]})
    return out


def types_of(c):
    g = c["subgraphs"][0]
    ty = {t["name"]: t["type"] for t in g["tensors"]}
    return [ty[n] for n in g["inputs"]], [ty[n] for n in g["outputs"]]


def rewritten(c, int8_in, int8_out):
    """The model with int8 inputs and/or outputs; None if it cannot have them."""
    import copy
    c = copy.deepcopy(c)
    g = c["subgraphs"][0]
    ty = {t["name"]: t["type"] for t in g["tensors"]}
    ren_in, ren_out, dead_ops = {}, {}, []
    if int8_in:
        for n in g["inputs"]:
            if ty[n] != F32 or n in ren_in:
                continue
            users = [o for o in g["ops"] if n in o["inputs"]]
            if len(users) != 1 or users[0]["opcodeIndex"]["builtinCode"] != BO.QUANTIZE or ty[users[0]["outputs"][0]] != I8 or n in g["outputs"]:
                return None
            ren_in[n] = users[0]["outputs"][0]
            dead_ops.append(id(users[0]))
    if int8_out:
        for n in g["outputs"]:
            if ty[n] != F32 or n in ren_out:
                continue
            made = [o for o in g["ops"] if n in o["outputs"]]
            users = [o for o in g["ops"] if n in o["inputs"]]
            if users or len(made) != 1 or made[0]["opcodeIndex"]["builtinCode"] != BO.DEQUANTIZE or ty[made[0]["inputs"][0]] != I8:
                return None
            ren_out[n] = made[0]["inputs"][0]
            dead_ops.append(id(made[0]))
    g["inputs"] = [ren_in.get(n, n) for n in g["inputs"]]
    g["outputs"] = [ren_out.get(n, n) for n in g["outputs"]]
    g["ops"] = [o for o in g["ops"] if id(o) not in dead_ops]
    gone = set(ren_in) | set(ren_out)
    g["tensors"] = [t for t in g["tensors"] if t["name"] not in gone]
    for s in c["signatures"]:
        if s["subgraph"] == 0:
            s["inputs"] = [(a, ren_in.get(b, b)) for a, b in s["inputs"]]
            s["outputs"] = [(a, ren_out.get(b, b)) for a, b in s["outputs"]]
    return c


def difference(a, b, path=""):
    if type(a) is not type(b):
        return "%s: %r instead of %r" % (path, b, a)
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return "%s.%s: present on one side only" % (path, k)
            d = difference(a[k], b[k], path + "." + str(k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "%s: %d entries instead of %d" % (path, len(b), len(a))
        for i, (x, y) in enumerate(zip(a, b)):
            d = difference(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if a != b and not (a != a and b != b):
        return "%s: %r instead of %r" % (path, b, a)
    return None
