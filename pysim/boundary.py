"""C11: the real extension and Interpreter class on the simulated runtime.

Every run is a process of its own (forked), so that a crash is an outcome.
"""
import array, ctypes, gc, importlib.util, mmap, os, pickle, signal, sys, types, zlib
import numpy as np
import flatbuffers
from flatbuffers import flexbuffers
from base import Violation

REPO = os.environ.get("LCE_REPO", "/repo")
VENV = "/opt/lce/venv/lib/python3.12/site-packages"


def load(name, path):
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


S = load("schema_py_generated", os.path.join(VENV, "tensorflow/lite/python/schema_py_generated.py"))
T = S.TensorType
NP = {T.FLOAT32: "float32", T.UINT8: "uint8", T.INT8: "int8", T.INT16: "int16", T.INT32: "int32", T.INT64: "int64", T.BOOL: "bool",
      T.FLOAT16: "float16", T.FLOAT64: "float64", T.COMPLEX64: "complex64", T.UINT32: "uint32", T.UINT16: "uint16", T.UINT64: "uint64"}
GOOD = [T.FLOAT32, T.UINT8, T.INT8, T.INT16, T.INT32, T.INT64, T.BOOL]
ODD = [T.FLOAT16, T.FLOAT64, T.COMPLEX64, T.UINT32, T.UINT16, T.UINT64]
CUSTOM = S.BuiltinOperator.CUSTOM


class Ten:
    def __init__(self, ty, shape, data=None, scales=None, zeros=None):
        self.ty, self.shape, self.data, self.scales, self.zeros = ty, tuple(shape), data, scales, zeros

    @property
    def dtype(self):
        return np.dtype(NP[self.ty])


class Model:
    """A model file and what it computes."""

    def __init__(self, rng, serial):
        self.rng = rng
        self.tensors, self.ops = [], []
        self.dynamic = False
        self.conv = False
        kind = rng.choice(["mix"] * 6 + ["sign", "pack", "unpack", "conv", "conv", "dynconv"])
        self.kind = kind
        getattr(self, "make_" + kind)()
        self.odd = [i for i in self.inputs + self.outputs if self.tensors[i].ty not in GOOD]
        self.bytes = self.serialise(serial)

    # ---- structure
    def add(self, *a, **k):
        self.tensors.append(Ten(*a, **k))
        return len(self.tensors) - 1

    def shape(self, size0=None):
        r = self.rng
        x = r.random()
        if x < 0.08:
            return ()
        rank = r.choice([1, 2, 2, 3, 4, 4, 5])
        s = [r.choice([1, 1, 2, 3, 4, 5, 8, 17]) for _ in range(rank)]
        while np.prod(s) > 4000:
            s[r.randrange(rank)] = 1
        if r.random() < 0.6:
            s[0] = 1
        if r.random() < 0.03:
            s[r.randrange(rank)] = 0
        return tuple(s)

    def quant(self, ty, shape):
        r = self.rng
        if ty not in (T.INT8, T.UINT8, T.INT16, T.INT32, T.FLOAT32) or r.random() < 0.4 or (ty == T.FLOAT32 and r.random() < 0.9):
            return {}
        if r.random() < 0.7:
            return {"scales": [r.choice([0.5, 0.1, 1.0, 0.0123, 3.4e-8, 1e30])], "zeros": [r.choice([0, 0, 3, -128, 127, 255, -1])]}
        n = r.choice([2, 3, 5])
        return {"scales": [r.choice([0.5, 0.1, 0.003]) for _ in range(n)], "zeros": [0] * n}

    def io(self, odd):
        r = self.rng
        ty = r.choice(ODD) if odd else r.choice(GOOD + [T.FLOAT32, T.INT8])
        sh = self.shape()
        return self.add(ty, sh, **self.quant(ty, sh))

    def weights(self, nbytes):
        return self.add(T.INT8, (nbytes,), data=self.rng.randbytes(nbytes))

    def op(self, name, ins, outs, options):
        self.ops.append((name, ins, outs, options))

    def mix(self, ins, outs, dynamic=False):
        self.op("SimMix", ins, outs, (self.rng.getrandbits(31), int(dynamic)))

    def make_mix(self):
        r = self.rng
        nin, nout = r.choice([0, 1, 1, 1, 2, 2, 3, 5]), r.choice([1, 1, 1, 2, 2, 3, 5])
        odd = r.random() < 0.08
        self.inputs = [self.io(odd and r.random() < 0.5) for _ in range(nin)]
        avail = list(self.inputs)
        for _ in range(r.choice([0, 0, 1, 2, 6])):
            m = self.add(r.choice(GOOD), self.shape())
            dyn = r.random() < 0.15
            self.dynamic |= dyn
            self.mix(r.sample(avail, min(len(avail), r.choice([1, 2]))) + ([self.weights(r.choice([4, 400, 5000]))] if r.random() < 0.5 else []), [m], dyn)
            avail.append(m)
        self.outputs = []
        while len(self.outputs) < nout:
            k = min(nout - len(self.outputs), r.choice([1, 1, 2, 3]))
            outs = [self.io(odd and r.random() < 0.5) for _ in range(k)]
            dyn = r.random() < 0.12
            self.dynamic |= dyn
            self.mix(r.sample(avail, min(len(avail), r.choice([1, 2, 3]))) + ([self.weights(r.choice([4, 400, 5000]))] if r.random() < 0.4 else []), outs, dyn)
            self.outputs += outs
        r.shuffle(self.outputs)
        if r.random() < 0.06 and self.inputs:
            self.outputs.insert(r.randrange(len(self.outputs) + 1), self.inputs[0])
        if r.random() < 0.06:
            self.outputs.append(self.outputs[0])

    def chw(self):
        r = self.rng
        return r.choice([1, 1, 2]), r.choice([3, 4, 6]), r.choice([3, 5]), r.choice([1, 3, 16, 31, 32, 33, 64, 70])

    def make_sign(self):
        n, h, w, c = self.chw()
        a, b, d = self.add(T.FLOAT32, (n, h, w, c)), self.add(T.INT32, (n, h, w, (c + 31) // 32)), self.add(T.FLOAT32, (n, h, w, c))
        self.op("LceQuantize", [a], [b], None)
        self.op("LceDequantize", [b], [d], None)
        self.inputs, self.outputs = [a], [d] if self.rng.random() < 0.6 else [d, b]

    def make_pack(self):
        n, h, w, c = self.chw()
        a, b = self.add(T.FLOAT32, (n, h, w, c)), self.add(T.INT32, (n, h, w, (c + 31) // 32))
        self.op("LceQuantize", [a], [b], None)
        self.inputs, self.outputs = [a], [b]

    def make_unpack(self):
        n, h, w, c = self.chw()
        b, d = self.add(T.INT32, (n, h, w, (c + 31) // 32)), self.add(T.FLOAT32, (n, h, w, c))
        self.op("LceDequantize", [b], [d], None)
        self.inputs, self.outputs = [b], [d]

    def convolution(self, b, n, h, w, c):
        r = self.rng
        self.conv = True
        o, kh, kw = r.choice([1, 4, 5, 17]), r.choice([1, 2, 3]), r.choice([1, 3])
        wt = np.where(np.array([r.random() for _ in range(o * kh * kw * c)]).reshape(o, kh, kw, c) < 0.5, -1, 1).astype(np.int64)
        mult = np.array([r.choice([1.0, 0.5, -2.0, 0.25]) for _ in range(o)], np.float32)
        bias = np.array([r.choice([0.0, 1.0, -3.5]) for _ in range(o)], np.float32)
        f = self.add(T.INT32, (o, kh, kw, (c + 31) // 32), data=pack(wt).tobytes())
        m = self.add(T.FLOAT32, (o,), data=mult.tobytes())
        s = self.add(T.FLOAT32, (o,), data=bias.tobytes())
        y = self.add(T.FLOAT32, (n, h - kh + 1, w - kw + 1, o))
        self.op("LceBconv2d", [b, f, m, s, -1], [y], (wt, mult, bias, c))
        return y

    def make_conv(self):
        n, h, w, c = self.chw()
        a, b = self.add(T.FLOAT32, (n, h, w, c)), self.add(T.INT32, (n, h, w, (c + 31) // 32))
        self.op("LceQuantize", [a], [b], None)
        self.inputs = [a]
        self.outputs = [self.convolution(b, n, h, w, c)]

    def make_dynconv(self):
        # the size after the first operator is known at run time only
        n, h, w, _ = self.chw()
        c = self.rng.choice([32, 64, 96])  # no padding bits: the mixing operator sets all bits
        a, i = self.add(T.INT8, self.shape()), self.add(T.INT32, (1, h, w, (c + 31) // 32))
        self.mix([a], [i], True)
        self.dynamic = True
        self.inputs = [a]
        self.outputs = [self.convolution(i, 1, h, w, c)]
        if self.rng.random() < 0.5:
            o = self.add(T.INT32, (1,))
            self.mix([a], [o])
            self.outputs.append(o)

    # ---- file
    def serialise(self, serial):
        r = self.rng
        m = S.ModelT()
        m.version = 3
        m.description = b"model %d" % serial
        m.buffers = [S.BufferT()]
        m.operatorCodes = []
        codes = {}
        g = S.SubGraphT()
        g.tensors, g.operators = [], []
        for i, t in enumerate(self.tensors):
            x = S.TensorT()
            x.shape = np.array(t.shape, np.int32)
            x.type = t.ty
            x.name = b"tensor_%d_%d" % (serial, i)
            x.buffer = 0
            if t.data is not None:
                b = S.BufferT()
                b.data = np.frombuffer(t.data, np.uint8)
                m.buffers.append(b)
                x.buffer = len(m.buffers) - 1
            if t.scales is not None:
                q = S.QuantizationParametersT()
                q.scale, q.zeroPoint = np.array(t.scales, np.float32), np.array(t.zeros, np.int64)
                x.quantization = q
            g.tensors.append(x)
        for name, ins, outs, options in self.ops:
            if name not in codes:
                c = S.OperatorCodeT()
                c.builtinCode = c.deprecatedBuiltinCode = CUSTOM
                c.customCode = name.encode()
                m.operatorCodes.append(c)
                codes[name] = len(m.operatorCodes) - 1
            o = S.OperatorT()
            o.opcodeIndex = codes[name]
            o.inputs, o.outputs = np.array(ins, np.int32), np.array(outs, np.int32)
            if name == "SimMix":
                co = options[0].to_bytes(4, "little") + options[1].to_bytes(4, "little")
            elif name == "LceBconv2d":
                co = bytes(flexbuffers.Dumps({"stride_height": 1, "stride_width": 1, "dilation_height_factor": 1, "dilation_width_factor": 1,
                                              "padding": 1, "pad_values": 0, "channels_in": options[3], "fused_activation_function": 0}))
            else:
                co = b""
            if co:
                o.customOptions = np.frombuffer(co, np.uint8)
            g.operators.append(o)
        g.inputs, g.outputs = np.array(self.inputs, np.int32), np.array(self.outputs, np.int32)
        m.subgraphs = [g]
        b = flatbuffers.Builder(1024)
        b.Finish(m.Pack(b), b"TFL3")
        return bytes(b.Output())

    # ---- meaning
    def run(self, arrays):
        v = {i: (t.data, t.shape) for i, t in enumerate(self.tensors) if t.data is not None}
        for i, a in zip(self.inputs, arrays):
            v[i] = (np.ascontiguousarray(a).tobytes(), tuple(a.shape))
        for name, ins, outs, opt in self.ops:
            if name == "SimMix":
                st = opt[0]
                for i in ins:
                    st = zlib.crc32(v[i][0], st)
                for k, o in enumerate(outs):
                    t = self.tensors[o]
                    sh = list(t.shape)
                    if opt[1] and sh:
                        sh[0] = 1 + (st >> 8) % 3
                    n = int(np.prod(sh)) * t.dtype.itemsize
                    x = (np.uint64(st + 977 * k) + np.arange(n, dtype=np.uint64) * np.uint64(0x9E3779B9)) & np.uint64(0xFFFFFFFF)
                    x = (x * np.uint64(0x85EBCA6B)) & np.uint64(0xFFFFFFFF)
                    x ^= x >> np.uint64(13)
                    b = ((x >> np.uint64(8)) & np.uint64(255)).astype(np.uint8)
                    if t.ty == T.BOOL:
                        b &= 1
                    v[o] = (b.tobytes(), tuple(sh))
            elif name == "LceQuantize":
                b, sh = v[ins[0]]
                x = np.frombuffer(b, np.float32).reshape(sh)
                p = pack(np.where(x < 0, -1, 1))
                v[outs[0]] = (p.tobytes(), p.shape)
            elif name == "LceDequantize":
                b, sh = v[ins[0]]
                c = self.tensors[outs[0]].shape[-1]
                y = unpack(np.frombuffer(b, np.uint32).reshape(sh), c).astype(np.float32)
                v[outs[0]] = (y.tobytes(), y.shape)
            else:
                wt, mult, bias, c = opt
                b, sh = v[ins[0]]
                x = unpack(np.frombuffer(b, np.uint32).reshape(sh), c)
                n, h, w, _ = x.shape
                o, kh, kw, _ = wt.shape
                y = np.zeros((n, h - kh + 1, w - kw + 1, o), np.int64)
                for i in range(kh):
                    for j in range(kw):
                        y += np.einsum("nhwc,oc->nhwo", x[:, i:i + h - kh + 1, j:j + w - kw + 1], wt[:, i, j])
                z = (y.astype(np.float32) * mult + bias).astype(np.float32)
                v[outs[0]] = (z.tobytes(), z.shape)
        return [(v[i][0], v[i][1], self.tensors[i].dtype) for i in self.outputs]


def pack(x):
    c = x.shape[-1]
    w = (c + 31) // 32
    bits = np.zeros(x.shape[:-1] + (w * 32,), np.uint32)
    bits[..., :c] = x < 0
    return (bits.reshape(x.shape[:-1] + (w, 32)) << np.arange(32, dtype=np.uint32)).sum(-1, dtype=np.uint64).astype(np.uint32)


def unpack(p, c):
    bits = (p[..., None] >> np.arange(32, dtype=np.uint32)) & 1
    return 1 - 2 * bits.reshape(p.shape[:-1] + (-1,))[..., :c].astype(np.int64)


# ---- inputs
class Odd:
    """An object numpy turns into an array with the object's help."""

    def __init__(self, f):
        self.f = f

    def __array__(self, *a, **k):
        return self.f()


class Sub(np.ndarray):
    pass


class SomeError(Exception):
    pass


def raiser(e):
    def f():
        raise e
    return f


def values(rng, ty, shape):
    d = np.dtype(NP[ty])
    n = int(np.prod(shape))
    if ty == T.BOOL:
        a = np.frombuffer(bytes(x & 1 for x in rng.randbytes(n)), np.bool_)
    elif ty in (T.FLOAT32, T.FLOAT64):
        a = np.array([rng.uniform(-2, 2) for _ in range(min(n, 64))] or [0.0], d)
        a = np.resize(a, n) if n else a[:0]
    else:
        a = np.frombuffer(rng.randbytes(n * d.itemsize), d)
    return a.reshape(shape).copy()


def present(rng, a):
    """The same values as another kind of object; (kind, object)."""
    k = rng.choice(["plain", "plain", "plain", "fortran", "strided", "negative", "readonly", "subclass", "unaligned", "pickled", "metadata",
                    "alias", "list", "object", "view", "transposed", "broadcast", "masked", "native", "ctypes"])
    try:
        if k == "fortran":
            return k, np.asfortranarray(a) if a.ndim else a
        if k == "strided" and a.ndim:
            b = np.zeros(a.shape[:-1] + (a.shape[-1] * 2,), a.dtype)
            b[..., ::2] = a
            return k, b[..., ::2]
        if k == "negative" and a.ndim:
            return k, np.ascontiguousarray(a[::-1])[::-1]
        if k == "readonly":
            b = a.copy()
            b.flags.writeable = False
            return k, b
        if k == "subclass":
            return k, a.view(Sub)
        if k == "unaligned":
            raw = np.zeros(a.nbytes + 1, np.uint8)
            raw[1:] = np.frombuffer(a.tobytes(), np.uint8)
            return k, raw[1:].view(a.dtype).reshape(a.shape) if a.nbytes else a
        if k == "pickled":
            return k, pickle.loads(pickle.dumps(a))
        if k == "metadata":
            return k, a.view(np.dtype(a.dtype, metadata={"unit": "x"}))
        if k == "alias" and a.dtype == np.int64:
            return k, a.view(np.dtype("longlong"))
        if k == "native":
            return k, a.astype(a.dtype.newbyteorder("S")).view(a.dtype.newbyteorder("S")).astype(a.dtype.newbyteorder("="))
        if k == "list" and a.dtype in (np.bool_, np.int64) and a.size:
            return k, a.tolist()
        if k == "object":
            return k, Odd(lambda: a)
        if k == "view":
            return k, memoryview(a)
        if k == "transposed" and a.ndim > 1:
            return k, np.ascontiguousarray(a.T).T
        if k == "broadcast" and a.ndim and a.shape[0] == 1:
            return k, np.broadcast_to(a[0], a.shape)
        if k == "masked":
            return k, np.ma.masked_array(a, mask=False)
        if k == "ctypes" and a.ndim and a.size:
            return k, np.ctypeslib.as_ctypes(a)
    except (TypeError, ValueError, NotImplementedError):
        pass
    return "plain", a


def spoil(rng, a, good):
    """An input the model must not take; (kind, object)."""
    k = rng.choice(["dtype", "dtype", "samebytes", "swapped", "rank+", "rank-", "dim", "dim", "reshape", "flat", "ragged", "none", "string",
                    "dict", "number", "raises", "raises", "huge", "objects", "generator", "structured", "zero", "list", "float16", "wrongarray", "bytes"])
    d = a.dtype
    if k == "dtype":
        o = [x for x in ("float32", "float64", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "bool", "complex64") if np.dtype(x) != d]
        return k, a.astype(rng.choice(o))
    if k == "samebytes":
        o = [x for x in ("float32", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float64", "bool", "S4", "V4", "V1") if np.dtype(x) != d and np.dtype(x).itemsize == d.itemsize]
        if o:
            return k, np.frombuffer(a.tobytes(), rng.choice(o)).reshape(a.shape)
    if k == "swapped" and d.itemsize > 1:
        return k, a.astype(d.newbyteorder(">"))
    if k == "rank-" and a.ndim:
        return k, a[0] if a.shape[0] else a.reshape(-1)[None, None]
    if k == "dim" and a.ndim:
        s = list(a.shape)
        i = rng.randrange(len(s))
        s[i] = rng.choice([s[i] + 1, max(0, s[i] - 1), s[i] * 2, s[i] + 100])
        return k, np.resize(a, s) if a.size and all(s) else np.zeros(s, d)
    if k == "reshape" and a.ndim > 1:
        s = list(a.shape)
        rng.shuffle(s)
        return k, a.reshape(s)
    if k == "flat":
        return k, a.reshape(-1)
    if k == "ragged":
        return k, [[1.0, 2.0], [3.0]]
    if k == "none":
        return k, None
    if k == "string":
        return k, "x" * max(1, a.nbytes)
    if k == "bytes":
        return k, a.tobytes()
    if k == "dict":
        return k, {"a": a}
    if k == "number":
        return k, rng.choice([1, 2.5, 3j, 10**40])
    if k == "raises":
        e = rng.choice([ValueError("v"), MemoryError(), KeyboardInterrupt(), RuntimeError("r"), SomeError("s"), SystemExit(1), RecursionError("deep")])
        return k, Odd(raiser(e))
    if k == "huge":
        return k, np.broadcast_to(np.zeros((), d), (1 << 20, 1 << 20) + a.shape[2:])
    if k == "objects":
        return k, a.astype(object)
    if k == "generator":
        return k, (x for x in [1.0, 2.0])
    if k == "structured":
        return k, np.zeros(a.shape, [("x", d)])
    if k == "zero":
        return k, np.zeros((0,) + a.shape[1:], d)
    if k == "list":
        return k, a.tolist()
    if k == "float16":
        return k, a.astype("float16")
    if k == "wrongarray":
        return k, Odd(lambda: "not an array")
    return "rank+", a[None]


def convert(x):
    try:
        return np.asarray(x, order="C")
    except BaseException:
        return None


FAULTS = {"none": 0, "resize_tensor": 1, "add_tensors": 2, "ruy_allocation": 3, "arena_commit": 4, "cancelled_inference": 5, "operator_new": 6}


class Interp:
    def __init__(self, model, obj, wrapped):
        self.model, self.obj, self.wrapped = model, obj, wrapped
        self.refuses = False
        self.last = None

    def native(self):
        return self.obj.interpreter if self.wrapped else self.obj


class Child:
    """One run, in its own process."""

    def __init__(self, prof, run, where):
        self.p, self.r, self.where = prof, run, where

    def at(self, text):
        b = text.encode()[:400]
        self.where.seek(0)
        self.where.write(b + b"\0")

    def arm(self, kind, n):
        self.p.ctl.ctl_fault(FAULTS.get(kind, 0), n)
        self.failed = self.p.mem.counts()[1]
        self.p.mem.arm(n if kind == "array_allocation" else -1)

    def disarm(self, kind):
        """True if a fault hit."""
        hit = bool(self.p.ctl.ctl_fired()) or self.p.mem.counts()[1] != self.failed
        self.p.ctl.ctl_fault(0, 0)
        self.p.mem.arm(-1)
        if hit and kind != "none":
            self.r.count("fault_" + kind)
            self.r.note("fault", kind)
        return hit and kind != "none"

    def keep(self, a, b, why):
        self.kept.append((a, b, why))

    def check_kept(self):
        for a, b, why in self.kept:
            if np.asarray(a).tobytes() != b:
                raise Violation("a result changed after it had been returned: " + why)

    def run(self):
        r = self.r
        rng = r.rng("plan")
        self.kept = []
        models = [Model(r.rng("model%d" % i), i) for i in range(rng.choice([1, 1, 2, 3]))]
        for m in models:
            r.shape.add(m.bytes)
        live0 = self.p.mem.counts()[2]
        interps = []
        n = rng.choice([3, 6, 10, 16])
        wild = rng.choice([0.0, 0.2, 0.5])
        for k in range(n):
            er = r.rng("event%d" % k)
            what = er.choice(["create", "valid", "valid", "valid", "invalid", "invalid", "info", "destroy", "scribble", "count", "class", "badmodel"])
            if not interps and what not in ("badmodel",):
                what = "create"
            fault = "none"
            if er.random() < wild:
                fault = er.choice(["resize_tensor", "add_tensors", "ruy_allocation", "arena_commit", "operator_new", "operator_new"] if what == "create" else
                                  ["cancelled_inference", "array_allocation", "array_allocation", "operator_new", "ruy_allocation", "resize_tensor", "add_tensors"])
            nth = er.choice([0, 0, 1, 2, 3, 5, 8, 13, 30])
            pick = er.random()
            if not r.event("%s%s" % (what, "" if fault == "none" else ", the %d. %s fails" % (nth, fault))):
                continue
            if what in ("create", "badmodel"):
                getattr(self, what)(er, models, interps, fault, nth, pick)
            elif interps:
                it = interps[int(pick * len(interps))]
                getattr(self, what)(er, it, interps, fault, nth)
            self.check_kept()
        # the end: everything goes away, results stay
        self.at("destroying the interpreters")
        it = None
        interps.clear()
        self.check_kept()
        if self.p.ctl.ctl_interpreters() != 0:
            gc.collect()
        if self.p.ctl.ctl_interpreters() != 0:
            raise Violation("%d interpreters outlive the objects that own them" % self.p.ctl.ctl_interpreters())
        for a, b, why in self.kept:
            r.out.add(b)
        a = None
        self.kept.clear()
        if self.p.mem.counts()[2] != live0:
            gc.collect()
        if self.p.mem.counts()[2] > live0:
            raise Violation("%d arrays are never released" % (self.p.mem.counts()[2] - live0))

    # ---- events
    def create(self, er, models, interps, fault, nth, pick):
        r, m = self.r, models[int(pick * len(models))]
        threads, ref, ind, xnn = er.choice([1, 1, 2, 4, -1, 0, 7, -2]), er.random() < 0.3, er.random() < 0.3, er.random() < 0.2
        wrapped = er.random() < 0.5
        style = er.random()
        self.at("creating an interpreter of a %s model (threads %d, reference %d, indirect %d)" % (m.kind, threads, ref, ind))
        b = bytes(bytearray(m.bytes))
        obj, err = None, None
        self.arm(fault, nth)
        try:
            if not wrapped:
                obj = self.p.ext.LiteInterpreter(b, threads, ref, ind, xnn)
            elif style < 0.5:
                obj = self.p.Interpreter(b, num_threads=threads, use_reference_bconv=ref, use_indirect_bgemm=ind, use_xnnpack=xnn)
            else:
                obj = self.p.Interpreter(b, threads, ref, ind, xnn)
        except Exception as e:
            err = type(e).__name__
        hit = self.disarm(fault)
        del b
        r.note("created", m.kind, wrapped, threads, err or "ok")
        if threads < -1:
            if obj is not None:
                raise Violation("an interpreter was created with %d threads" % threads)
            return
        if err is not None:
            r.count("creations_failed")
            if not hit:
                raise Violation("creating an interpreter of a valid %s model failed with %s" % (m.kind, err))
            return
        r.count("interpreters")
        if self.p.ctl.ctl_threads() != threads:
            raise Violation("an interpreter runs with %d threads instead of the requested %d" % (self.p.ctl.ctl_threads(), threads))
        if self.p.ctl.ctl_default_delegates() != int(xnn):
            raise Violation("default delegates are %s although use_xnnpack is %s" % (bool(self.p.ctl.ctl_default_delegates()), xnn))
        kern = self.p.ctl.ctl_kernel()
        want = 2 if ref else 3 if ind else 1
        if kern != 0 and kern != want:
            raise Violation("the convolution runs kernel %d instead of %d (reference %s, indirect %s)" % (kern, want, ref, ind))
        interps.append(Interp(m, obj, wrapped))
        interps[-1].refuses = m.kind == "dynconv" and kern == 3  # the indirect kernel does not run on run-time sizes

    def badmodel(self, er, models, interps, fault, nth, pick):
        good = models[int(pick * len(models))].bytes
        b = er.choice([b"", b"TFL3", b"\0" * 7, b"\0" * 64, good[:4] + b"TFL2" + good[8:], b"x" * 1000, bytearray(good), good.decode("latin1"), None, memoryview(good)])
        self.at("creating an interpreter of something that is not a model")
        try:
            self.p.ext.LiteInterpreter(b, 1, False, False, False)
        except Exception as e:
            self.r.note("bad model", type(e).__name__)
            self.r.count("bad_models")
            return
        raise Violation("an interpreter was created of something that is not a model: %r" % (b[:20] if b else b))

    def arrays(self, er, m):
        return [values(er, m.tensors[i].ty, m.tensors[i].shape) for i in m.inputs]

    def predict(self, it, args, valid, fault, nth, what, interps, arrays):
        r, m = self.r, it.model
        self.at("predict: " + what)
        before = [bytes(memoryview(np.ascontiguousarray(a)).cast("B")) if a.size else b"" for a in arrays]
        res = err = None
        self.arm(fault, nth)
        try:
            res = it.native().predict(args)
        except Exception as e:
            err = type(e).__name__
        except (KeyboardInterrupt, SystemExit) as e:
            err = type(e).__name__
        hit = self.disarm(fault)
        r.note("predict", what, err or "ok")
        for a, b in zip(arrays, before):
            if a.tobytes() != b:
                raise Violation("predict changed its input (%s)" % what)
        if err is not None:
            r.count("predictions_raised")
            if valid and not hit and not m.odd and not it.refuses:
                raise Violation("a valid prediction raised %s (%s)" % (err, what))
            if hit and m.dynamic and it in interps:
                interps.remove(it)  # only a new interpreter is defined after a failure at run-time sizes
            return
        if not valid:
            raise Violation("a prediction ran although its inputs do not fit the model (%s)" % what)
        r.count("predictions")
        self.compare(m, res, m.run(arrays), what)

    def compare(self, m, res, want, what):
        if type(res) is not list or len(res) != len(want):
            raise Violation("predict returned %r instead of a list of %d arrays (%s)" % (type(res).__name__, len(want), what))
        for k, (x, (b, sh, dt)) in enumerate(zip(res, want)):
            if not isinstance(x, np.ndarray) or x.dtype != dt or tuple(x.shape) != tuple(sh):
                raise Violation("output %d is %s %s instead of %s %s (%s)" % (k, getattr(x, "dtype", type(x)), getattr(x, "shape", None), dt, sh, what))
            if np.ascontiguousarray(x).tobytes() != b:
                raise Violation("output %d has wrong values (%s, %s model)" % (k, what, m.kind))
            self.keep(x, b, what)

    def valid(self, er, it, interps, fault, nth):
        m = it.model
        arrays = self.arrays(er, m)
        kinds, args = [], []
        x = er.random()
        if x < 0.35 and it.last is not None:
            # the client writes new values into the arrays of its last prediction
            args = it.last
            for a, b in zip(args, arrays):
                if er.random() < 0.8:
                    a[...] = b
            arrays = [a.copy() for a in args]
            self.r.count("presented_same_arrays")
            return self.predict(it, args if er.random() < 0.5 else list(args), True, fault, nth, "valid, the arrays of before", interps, arrays)
        if x < 0.5 and self.kept:
            # a result becomes an input
            for k, a in enumerate(arrays):
                fit = [o for o, _, _ in self.kept if isinstance(o, np.ndarray) and o.dtype == a.dtype and o.shape == a.shape]
                if fit:
                    arrays[k] = er.choice(fit)
                    self.r.count("presented_results")
            if len(arrays) > 1 and arrays[0].dtype == arrays[1].dtype and arrays[0].shape == arrays[1].shape:
                arrays[1] = arrays[0]
                self.r.count("presented_twice")
        if x < 0.7:
            it.last = args = [np.array(a, order="C") for a in arrays]
            return self.predict(it, args, True, fault, nth, "valid, plain", interps, arrays)
        for a in arrays:
            k, x = present(er, a)
            c = convert(x)
            if c is None or c.dtype != a.dtype or c.shape != a.shape or c.tobytes() != a.tobytes():
                k, x = "plain", a
            kinds.append(k)
            args.append(x)
            self.r.count("presented_" + k)
        self.predict(it, args, True, fault, nth, "valid, " + "/".join(kinds), interps, arrays)

    def invalid(self, er, it, interps, fault, nth):
        m = it.model
        arrays = self.arrays(er, m)
        if not arrays:
            return self.count(er, it, interps, fault, nth)
        bad = set(er.sample(range(len(arrays)), er.choice([1, 1, len(arrays)])))
        kinds, args, good = [], [], True
        for i, a in enumerate(arrays):
            if i not in bad:
                args.append(a)
                continue
            k, x = spoil(er, a, m)
            if k == "generator" or k == "huge":
                c = None
            else:
                c = convert(x)
            fits = c is not None and c.dtype == a.dtype and c.shape == a.shape
            if fits:
                arrays[i] = c
            good &= fits
            kinds.append(k)
            args.append(x)
            self.r.count("spoiled_" + k)
        self.predict(it, args, good, fault, nth, "invalid, " + "/".join(kinds), interps, arrays)

    def count(self, er, it, interps, fault, nth):
        m = it.model
        arrays = self.arrays(er, m)
        k = er.choice(["fewer", "more", "none", "tuple", "array", "nothing", "dict"])
        if k == "fewer" and arrays:
            args = arrays[:-1]
        elif k == "more":
            args = arrays + [np.zeros(3, np.float32)]
        elif k == "none":
            args = None
        elif k == "tuple":
            args = tuple(arrays)
        elif k == "array":
            args = arrays[0] if arrays else np.zeros(1)
        elif k == "dict":
            args = dict(enumerate(arrays))
        else:
            args, k = [], "nothing"
            if not arrays:
                args, k = [None], "more"
        self.r.count("wrong_counts")
        if not isinstance(args, list):
            fault = "none"  # pybind11 reports the wrong type: nothing of the package runs
        self.predict(it, args, False, fault, nth, "list: " + k, interps, arrays)

    def info(self, er, it, interps, fault, nth):
        r, m = self.r, it.model
        self.at("asking for types, shapes, scales and zero points")
        o = it.obj if it.wrapped and er.random() < 0.7 else it.native()
        for side, ids in (("input", m.inputs), ("output", m.outputs)):
            ts = [m.tensors[i] for i in ids]
            for name in er.sample(["types", "shapes", "scales", "zero_points"], 4):
                f = fault if er.random() < 0.5 else "none"
                self.arm(f, nth)
                got = err = None
                try:
                    got = getattr(o, "%s_%s" % (side, name))
                except Exception as e:
                    err = type(e).__name__
                hit = self.disarm(f)
                r.count("reports")
                if err is not None:
                    if hit or (name == "types" and any(t.ty not in GOOD for t in ts)):
                        continue
                    raise Violation("asking for the %s %s raised %s" % (side, name, err))
                if name == "types":
                    ok = len(got) == len(ts) and all(np.dtype(g) == t.dtype for g, t in zip(got, ts))
                elif name == "shapes":
                    ok = len(got) == len(ts) and all(type(g) is tuple and (g == t.shape or (m.dynamic and side == "output" and g[1:] == t.shape[1:])) for g, t in zip(got, ts))
                elif name == "scales":
                    def sc(t):
                        if t.scales is None:
                            return None
                        x = [float(np.float32(s)) for s in t.scales]
                        return x[0] if len(x) == 1 else x
                    ok = got == [sc(t) for t in ts]
                else:
                    ok = got == [None if t.zeros is None else t.zeros[0] for t in ts]
                if not ok:
                    raise Violation("the %s %s are reported as %r for tensors %r" % (side, name, got, [(t.dtype.name, t.shape, t.scales, t.zeros) for t in ts]))
                r.note(side, name, repr(got))

    def destroy(self, er, it, interps, fault, nth):
        self.at("destroying an interpreter")
        interps.remove(it)
        self.r.count("destroyed")

    def scribble(self, er, it, interps, fault, nth):
        """The client writes into a result; nothing else may change."""
        if not self.kept:
            return
        self.at("writing into a result")
        k = er.randrange(len(self.kept))
        a, b, why = self.kept[k]
        if a.size and a.flags.writeable:
            a.view(np.uint8 if a.ndim else a.dtype)[...] = 1
            self.kept[k] = (a, a.tobytes(), why)
            self.r.count("results_overwritten")
        self.check_kept()
        self.valid(er, it, interps, "none", 0)

    def class_(self, er, it, interps, fault, nth):
        """Interpreter.predict over batches."""
        m = it.model
        ts = [m.tensors[i] for i in m.inputs]
        outs = [m.tensors[i] for i in m.outputs]
        if not it.wrapped or m.odd or m.dynamic or not ts or any(not t.shape or t.shape[0] != 1 for t in ts) or any(not t.shape for t in outs):
            return self.valid(er, it, interps, fault, nth)
        n = er.choice([1, 2, 3])
        batches = [values(er, t.ty, (n,) + t.shape[1:]) for t in ts]
        style = er.choice(["list", "array", "iterator"])
        if style == "array" and len(batches) > 1:
            style = "list"
        x = batches if style == "list" else batches[0] if style == "array" else iter([[b[i] for b in batches] for i in range(n)])
        self.at("Interpreter.predict with %d samples as %s" % (n, style))
        res = err = None
        self.arm(fault, nth)
        try:
            res = it.obj.predict(x)
        except Exception as e:
            err = type(e).__name__
        hit = self.disarm(fault)
        self.r.note("class", n, style, err or "ok")
        if err is not None:
            if not hit:
                raise Violation("Interpreter.predict raised %s" % err)
            return
        parts = [m.run([b[i:i + 1] for b in batches]) for i in range(n)]
        want = []
        for k in range(len(outs)):
            cat = np.concatenate([np.frombuffer(p[k][0], p[k][2]).reshape(p[k][1]) for p in parts])
            want.append((cat.tobytes(), cat.shape, cat.dtype))
        self.r.count("class_predictions")
        self.compare(m, [res] if len(outs) == 1 else res, want, "Interpreter.predict")


setattr(Child, "class", Child.class_)


class C11:
    def __init__(self):
        d = os.environ["LCE_CACHE"]
        self.mem = load("memctl", os.path.join(d, "memctl.so"))
        self.mem.install()
        so = os.path.join(d, "interpreter_wrapper_lite.so")
        self.ext = load("interpreter_wrapper_lite", so)
        with open("/proc/self/maps") as f:
            ranges = [l.split()[0].split("-") for l in f if l.rstrip().endswith("/interpreter_wrapper_lite.so") and "x" in l.split()[1]]
        self.mem.scope(min(int(a, 16) for a, _ in ranges), max(int(b, 16) for _, b in ranges))
        self.ctl = ctypes.CDLL(so)
        self.ctl.ctl_begin.argtypes = [ctypes.c_uint64, ctypes.c_int, ctypes.c_void_p, ctypes.c_size_t]
        self.ctl.ctl_fault.argtypes = [ctypes.c_int, ctypes.c_long]
        self.ctl.ctl_counter.restype = ctypes.c_uint64
        self.ctl.ctl_live.restype = ctypes.c_uint64
        for name in ("larq_compute_engine", "larq_compute_engine.tflite", "larq_compute_engine.tflite.python"):
            m = types.ModuleType(name)
            m.__path__ = [os.path.join(REPO, *name.split("."))]
            sys.modules[name] = m
        sys.modules["larq_compute_engine.tflite.python.interpreter_wrapper_lite"] = self.ext
        sys.modules["larq_compute_engine.tflite.python"].interpreter_wrapper_lite = self.ext
        from larq_compute_engine.tflite.python.interpreter import Interpreter
        self.Interpreter = Interpreter
        self.where = mmap.mmap(-1, 4096)
        self.native = mmap.mmap(-1, 4096)
        self.address = ctypes.addressof(ctypes.c_char.from_buffer(self.native))
        np.zeros(3).astype("float16")

    def run(self, r):
        self.where[:2] = b"-\0"
        self.native[:1] = b"\0"
        a, b = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(a)
                signal.signal(signal.SIGTERM, signal.SIG_IGN)
                signal.alarm(60)
                r.counts = {}
                self.ctl.ctl_begin(r.seed, int(r.verbose), self.address, 2000)
                self.mem.seed(r.seed)
                msg = None
                try:
                    Child(self, r, self.where).run()
                except Violation as v:
                    msg = str(v)
                r.count("tensor_array_moves", self.ctl.ctl_counter(9))
                out = pickle.dumps((msg, r.counts, r.steps, r.history.value(), r.out.value(), r.shape.value()))
                i = 0
                while i < len(out):
                    i += os.write(b, out[i:])
            except BaseException:
                import traceback
                traceback.print_exc(file=sys.__stderr__)
                code = 70
            os._exit(code)
        os.close(b)
        data = b""
        while True:
            try:
                x = os.read(a, 1 << 16)
            except InterruptedError:
                continue
            if not x:
                break
            data += x
        os.close(a)
        _, st = os.waitpid(pid, 0)
        where = bytes(self.where[:400]).split(b"\0")[0].decode(errors="replace")
        text = bytes(self.native[:1000]).split(b"\0")[0].decode(errors="replace")
        if os.WIFSIGNALED(st):
            r.history.add("signal", os.WTERMSIG(st), where)
            if os.WTERMSIG(st) == signal.SIGALRM:
                raise Violation("the process does not go on (%s)" % where)
            raise Violation("the process crashed with signal %d (%s)" % (os.WTERMSIG(st), where))
        code = os.WEXITSTATUS(st)
        if code == 77 and not text.startswith("harness"):
            r.history.add(text, where)
            raise Violation("%s (%s)" % (text, where))
        if code != 0:
            raise RuntimeError("the run ended with %d: %s" % (code, text))
        msg, counts, r.steps, h, o, s = pickle.loads(data)
        for k, v in counts.items():
            r.count(k, v)
        r.history.add(h)
        r.out.add(o)
        r.shape.add(s)
        if msg is not None:
            raise Violation(msg)
