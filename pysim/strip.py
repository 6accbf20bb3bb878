"""C24: stripping the final dequantizers of generated models, by clients that
interleave with each other, are interrupted, run out of memory and try again."""
import copy, errno, os, random, sys, types
import flatbuffers
import numpy as np
from base import Tasks, Violation, fresh_package
import fbgen
from fbgen import BO, F32, I8, I16, I32, U8, S, Gen, tmap

REPO = os.environ.get("LCE_REPO", "/repo")
PKG = os.path.join(REPO, "larq_compute_engine") + os.sep
F16 = S.TensorType.FLOAT16
CODES = [(BO.DEQUANTIZE, None), (BO.CUSTOM, b"LceDequantize"), (BO.ADD, None), (BO.CONV_2D, None), (BO.CUSTOM, b"LceBconv2d"), (BO.CUSTOM, b"LceQuantize"), (BO.QUANTIZE, None)]
# what an output of the model is
OUTS = ["lce_float", "lce_float", "lce_float", "lce_int8", "lce_int8_deq", "lce_int8_deq", "deq", "float", "int8", "int32", "lce_twice", "shared_source", "lce_int8_both", "lce_used", "deq_used",
        "middle_used", "again", "input", "deq_const", "lce_odd"]
REFUSED = ["deq_uint8", "deq_half", "deq_int16", "lce_source", "lce_int16_out"]


class StripGen(Gen):
    def graph(self, prefix, outs, nin):
        """Operators and tensors of one subgraph; the inputs and outputs."""
        r = self.rng
        inputs = [self.tensor(prefix + "in", r.choice([F32, F32, I8, I32])) for _ in range(nin)]
        avail = self.pool(inputs, r.choice([0, 1, 2, 4]), I8, False)
        made = []

        def source(ty):
            have = [t for t in avail if t.type == ty and t not in inputs]
            if have and r.random() < 0.6:
                return r.choice(have)
            t = self.tensor(prefix + "src", ty)
            code = self.code(BO.CUSTOM, b"LceBconv2d") if ty == I32 and r.random() < 0.7 else self.code(BO.ADD)
            self.op(code, [r.choice(avail)], [t], custom_options=r.randbytes(8) if r.random() < 0.5 else None)
            avail.append(t)
            return t

        def lce(src, ty):
            t = self.tensor(prefix + "out", ty)
            self.op(self.code(BO.CUSTOM, b"LceDequantize"), [src], [t], custom_options=b"" if r.random() < 0.5 else None)
            return t

        def deq(src):
            t = self.tensor(prefix + "out", F32)
            self.op(self.code(BO.DEQUANTIZE), [src], [t])
            return t

        def use(t):
            z = self.tensor(prefix + "after", F32)
            self.op(self.code(BO.ADD), [t, t] if r.random() < 0.5 else [t], [z])
            if r.random() < 0.5:
                made.append(z)

        for k in outs:
            if k == "lce_float":
                made.append(lce(source(I32), F32))
            elif k == "lce_int8":
                made.append(lce(source(I32), I8))
            elif k == "lce_int8_deq":
                made.append(deq(lce(source(I32), I8)))
            elif k == "deq":
                made.append(deq(source(I8)))
            elif k in ("float", "int8", "int32"):
                made.append(source({"float": F32, "int8": I8, "int32": I32}[k]))
            elif k == "lce_twice":
                t = lce(source(I32), F32)
                made += [t, t]
            elif k == "shared_source":
                s = source(I32)
                made += [lce(s, F32), lce(s, r.choice([F32, I8]))]
            elif k == "lce_int8_both":
                t = lce(source(I32), I8)
                made += [t, deq(t)] if r.random() < 0.5 else [deq(t), t]
            elif k == "lce_used":
                t = lce(source(I32), r.choice([F32, I8]))
                use(t)
                made.append(t)
            elif k == "deq_used":
                t = deq(source(I8))
                use(t)
                made.append(t)
            elif k == "middle_used":
                t = lce(source(I32), I8)
                use(t)
                made.append(deq(t))
            elif k == "again" and made:
                made.append(r.choice(made))
            elif k == "input":
                made.append(r.choice(inputs))
            elif k == "deq_const":
                made.append(deq(self.tensor(prefix + "const", I8, data=True)))
            elif k == "lce_odd":  # a dequantizer whose input is a constant
                made.append(lce(self.tensor(prefix + "bits", I32, data=True), F32))
            elif k in ("deq_uint8", "deq_half", "deq_int16"):
                made.append(deq(source({"deq_uint8": U8, "deq_half": F16, "deq_int16": I16}[k])))
            elif k == "lce_source":
                made.append(lce(source(r.choice([I8, F32])), F32))
            elif k == "lce_int16_out":
                made.append(lce(source(I32), I16))
        if not made:
            made.append(lce(source(I32), F32))
        # dequantizers that do not feed an output
        for _ in range(r.choice([0, 0, 1, 2])):
            t = lce(source(I32), F32) if r.random() < 0.5 else deq(source(I8))
            z = self.tensor(prefix + "inner", F32)
            self.op(self.code(BO.ADD), [t], [z])
        r.shuffle(made)
        if r.random() < 0.7:
            r.shuffle(self.tensors)
        elif r.random() < 0.6:  # the outputs last, or first: they can be cut off as a whole
            at = [t for t in self.tensors if t in made and t not in inputs]
            rest = [t for t in self.tensors if t not in at]
            self.tensors = rest + at if r.random() < 0.7 else at + rest
        self.topological()
        return inputs, made

    def build(self):
        r = self.rng
        codes = list(CODES)
        r.shuffle(codes)
        nothing = self.kind == "nothing"
        for b, c in codes:
            if r.random() < 0.6 and not (nothing and (b == BO.DEQUANTIZE or c == b"LceDequantize")):
                self.code(b, c)
        n = r.choice([1, 1, 2, 3, 5])
        if nothing:
            outs = [r.choice(["float", "int8", "int32", "input", "again"]) for _ in range(n)] + ["float"]
        else:
            outs = [r.choice(OUTS) for _ in range(n)]
            if self.kind == "refused":
                outs[r.randrange(n)] = r.choice(REFUSED)
        m = S.ModelT()
        m.version, m.description, m.subgraphs, m.signatureDefs = 3, self.marker, [], []

        def add(gen, outs, name, sigs):
            ins, made = gen.graph("%s_" % name, outs, r.choice([1, 1, 2, 3]))
            if nothing:
                gen.ops = [o for o in gen.ops if gen.codes[o._code].builtinCode != BO.DEQUANTIZE and gen.codes[o._code].customCode != b"LceDequantize"]
                made = [t for t in made if t in ins or any(t in o._out for o in gen.ops)] or [ins[0]]
            sg = gen.subgraph(gen.tensors, gen.ops, ins, made, name.encode())
            idx = {id(t): i for i, t in enumerate(gen.tensors)}
            m.subgraphs.append(sg)
            for k in range(sigs):
                s = S.SignatureDefT()
                s.signatureKey = ("%s_%d" % (name, k)).encode()
                s.subgraphIndex = len(m.subgraphs) - 1
                pick = lambda ts: [t for t in ts if k == 0 or r.random() < 0.7]
                s.inputs = [tmap(b"x%d" % i, idx[id(t)]) for i, t in enumerate(pick(ins))]
                s.outputs = [tmap(b"y%d" % i, idx[id(t)]) for i, t in enumerate(pick(made))]
                if r.random() < 0.5:
                    s.inputs.reverse()
                    s.outputs.reverse()
                m.signatureDefs.append(s)

        add(self, outs, "main", r.choice([0, 1, 1, 1, 2]))
        for k in range(r.choice([0, 0, 1, 2])):
            g = StripGen(r, self.kind, b"")
            g.codes, g.buffers, g.serial = self.codes, self.buffers, 1000 * (k + 1)
            add(g, [r.choice(OUTS) for _ in range(r.choice([1, 2]))], "body%d" % k, r.choice([0, 0, 1]))
        r.shuffle(m.signatureDefs)
        if not m.signatureDefs:
            m.signatureDefs = None
        if r.random() < 0.5:
            b = S.BufferT()
            b.data = np.frombuffer(r.randbytes(16), np.uint8)
            self.buffers.append(b)
            md = S.MetadataT()
            md.name, md.buffer = b"min_runtime_version", len(self.buffers) - 1
            m.metadata = [md]
        m.operatorCodes, m.buffers = self.codes, self.buffers
        b = flatbuffers.Builder(1024)
        b.Finish(m.Pack(b), file_identifier=b"TFL3")
        return bytes(b.Output())


def is_code(op, what):
    c = op["opcodeIndex"]
    return c["customCode"] == b"LceDequantize" if what == "lce" else c["builtinCode"] == BO.DEQUANTIZE


def stripped(c):
    """The model without its final dequantizers; a text if it must be refused."""
    if not any(x["customCode"] == b"LceDequantize" or x["builtinCode"] == BO.DEQUANTIZE for x in c["codes"]):
        return "no dequantize operators"
    c = copy.deepcopy(c)
    entry = {0} | {s["subgraph"] for s in c["signatures"]}
    for gi in sorted(entry):
        g = c["subgraphs"][gi]
        ty = {t["name"]: t["type"] for t in g["tensors"]}
        made = {n: o for o in g["ops"] for n in o["outputs"]}
        for what, outs, ins in (("deq", (F32,), (I8,)), ("lce", (F32, I8), (I32,))):
            ren = {}
            for n in g["outputs"]:
                o = made.get(n)
                if o is None or not is_code(o, what):
                    continue
                if ty[n] not in outs or ty[o["inputs"][0]] not in ins:
                    return "a dequantizer of other types"
                ren[n] = o["inputs"][0]
            g["outputs"] = [ren.get(n, n) for n in g["outputs"]]
            for s in c["signatures"]:
                if s["subgraph"] == gi:
                    s["outputs"] = [(a, ren.get(b, b)) for a, b in s["outputs"]]
            dead = {n for n in ren if not any(n in o["inputs"] for o in g["ops"])}
            g["ops"] = [o for o in g["ops"] if not (o["outputs"] and o["outputs"][0] in dead)]
            g["tensors"] = [t for t in g["tensors"] if t["name"] not in dead]
    return c


def make_exception(kind):
    return {"memory": lambda: MemoryError(), "interrupt": lambda: KeyboardInterrupt(), "exit": lambda: SystemExit(3), "runtime": lambda: RuntimeError("failed"),
            "recursion": lambda: RecursionError("deep"), "io": lambda: OSError(errno.EIO, "Input/output error")}[kind]()


class C24:
    def __init__(self):
        sys.modules["larq_compute_engine.mlir.python.tflite_schema"] = fbgen.S
        mod = types.ModuleType("larq_compute_engine.mlir._tf_tfl_flatbuffer")
        mod.convert_saved_model_to_tflite_flatbuffer = mod.convert_graphdef_to_tflite_flatbuffer = None
        sys.modules[mod.__name__] = mod
        sys.modules["larq_compute_engine.tflite.python.interpreter_wrapper_lite"] = types.ModuleType("x")
        import tensorflow as tf
        self.tf = tf
        self.seen = set()
        self.run_ = self.tasks = None
        self.armed = {}
        self.canon_cache = {}
        # memory requests of the serialisation
        B = flatbuffers.Builder
        for name in ("growByteBuffer", "StartVector", "StartObject"):
            real = getattr(B, name)

            def wrapped(b, *a, _real=real, _name=name):
                self.service("builder")
                return _real(b, *a)
            setattr(B, name, wrapped)
        self.load()

    def load(self):
        """The module as a new process has it."""
        util = self.util = fresh_package("larq_compute_engine.mlir.python.util")
        real_copy = copy.deepcopy

        def deepcopy(x, memo=None, *a):
            if memo is None:
                self.service("copy")
            return real_copy(x, memo, *a)
        if not hasattr(util, "copy"):
            return self.watch()
        util.copy = types.SimpleNamespace(**{k: getattr(copy, k) for k in dir(copy) if not k.startswith("__")})
        util.copy.deepcopy = deepcopy
        self.watch()

    def me(self):
        return self.tasks.me()["id"] if self.tasks is not None and self.tasks.me() is not None else None

    def service(self, what):
        me = self.me()
        if me is None or not self.inside.get(me):
            return
        self.tasks.point()
        f = self.armed.get(me)
        if f and f["where"] == what:
            f["left"] -= 1
            if f["left"] == 0:
                self.blow(me, f)

    def blow(self, me, f):
        f["raised"] = make_exception(f["kind"])
        self.run_.count("fault_" + f["where"])
        self.run_.note("fault", f["where"], f["kind"])
        raise f["raised"]

    def watch(self):
        """Lines of the package are places where tasks switch and fail."""
        mon = sys.monitoring
        if mon.get_tool(3) is None:
            mon.use_tool_id(3, "lcesim")
            mon.register_callback(3, mon.events.LINE, self.line)
        todo = []
        for m in list(sys.modules.values()):
            if (getattr(m, "__file__", None) or "").startswith(PKG) and m.__name__ != "larq_compute_engine.mlir.python.tflite_schema":
                for x in vars(m).values():
                    for y in [x] + (list(vars(x).values()) if isinstance(x, type) else []):
                        y = getattr(y, "__wrapped__", y)
                        if isinstance(y, types.FunctionType) and y.__code__.co_filename.startswith(PKG):
                            todo.append(y.__code__)
        while todo:
            c = todo.pop()
            if c not in self.seen:
                self.seen.add(c)
                mon.set_local_events(3, c, mon.events.LINE)
                todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]

    def line(self, code, number):
        me = self.me()
        if me is None or not self.inside.get(me):
            return
        self.tasks.point()
        f = self.armed.get(me)
        if f and f["where"] == "line":
            f["left"] -= 1
            if f["left"] == 0:
                self.blow(me, f)

    def canon(self, b):
        b = bytes(b)
        if b not in self.canon_cache:
            if len(self.canon_cache) > 300:
                self.canon_cache.clear()
            self.canon_cache[b] = fbgen.canon(b)
        return self.canon_cache[b]

    def run(self, run):
        self.load()
        rng = run.rng("plan")
        self.run_ = run
        self.inside, self.armed = {}, {}
        self.tasks = Tasks(run, rng.choice([0.0, 0.01, 0.05, 0.3]))
        nmodels = rng.choice([1, 1, 2, 3])
        kinds = [rng.choice(["plain"] * 8 + ["refused", "nothing"]) for _ in range(nmodels)]
        self.models = [StripGen(random.Random("%d/model%d" % (run.seed, i)), k, b"m%d" % i).build() for i, k in enumerate(kinds)]
        if rng.random() < 0.5:  # a relative of the first model
            self.models.append(fbgen.sibling(self.models[0], run.rng("sibling")))
            kinds.append("sibling")
            nmodels += 1
        self.originals = [bytes(bytearray(m)) for m in self.models]
        self.results = {}  # bytes of the source -> canonical form of its result
        run.shape.add(*kinds)
        for i, k in enumerate(kinds):
            run.note("model", i, k, len(self.models[i]))
        ntasks = rng.choice([1, 1, 2, 2, 3])
        for t in range(ntasks):
            events = []
            for _ in range(rng.choice([1, 2, 3, 5])):
                e = {"do": rng.choice(["strip"] * 6 + ["again", "types"]), "model": rng.randrange(nmodels), "form": rng.choice(["bytes", "bytes", "bytearray"]), "fault": None,
                     "types": rng.choice([("int8", "int8"), ("int8", "float32"), ("float32", "int8")]), "seed": rng.randrange(10**6), "retry": rng.random() < 0.7}
                if rng.random() < 0.3:
                    e["fault"] = {"where": rng.choice(["line", "line", "builder", "copy"]), "kind": rng.choice(["memory", "memory", "interrupt", "exit", "runtime", "recursion", "io"]),
                                  "left": rng.choice([1, rng.randrange(1, 20), rng.randrange(1, 120), rng.randrange(1, 600)])}
                    if e["fault"]["where"] == "copy":
                        e["fault"]["left"] = 1
                events.append(e)
            texts = ["task %d: %s %s %s%s" % (t, e["do"], e["model"], e["form"], " fault %s" % sorted(e["fault"].items()) if e["fault"] else "") for e in events]
            keep = [e for e, x in zip(events, texts) if run.event(x)]
            for e in keep:
                run.shape.add(e["do"], e["form"], e["fault"] and e["fault"]["where"])
            self.tasks.spawn("client%d" % t, lambda t=t, keep=keep: self.client(t, keep))
        self.tasks.run_all()
        for m, o in zip(self.models, self.originals):
            if m != o:
                raise Violation("a model was changed in place")
        self.tasks = None

    def client(self, me, events):
        last = None
        for e in events:
            src = self.models[e["model"]]
            if e["do"] == "again" and last is not None:
                src = last
                self.run_.count("stripped_again")
            if e["do"] == "types":
                src = fbgen.generate(random.Random(e["seed"]), "q", b"t")
            tries = [e["fault"], None] if e["fault"] and e["retry"] else [e["fault"]]
            for f in tries:
                out = self.call(me, e, src, f)
                if out is not None and e["do"] != "types":
                    last = out

    def call(self, me, e, src, f):
        arg = bytearray(src) if e["form"] == "bytearray" else src
        want_fault = dict(f) if f else None
        self.armed[me] = want_fault
        self.inside[me] = True
        out = exc = None
        try:
            if e["do"] == "types":
                i, o = [getattr(self.tf, x) for x in e["types"]]
                out = self.util.modify_integer_quantized_model_io_type(arg, i, o)
            else:
                out = self.util.strip_lcedequantize_ops(arg)
        except BaseException as x:
            if type(x).__name__ == "Cancelled":
                raise
            exc = x
        finally:
            self.inside[me] = False
            self.armed[me] = None
        self.run_.note("task", me, e["do"], "raises " + type(exc).__name__ if exc is not None else "returns", "" if out is None else hash_of(out))
        raised = want_fault and want_fault.get("raised")
        if bytes(arg) != bytes(src):
            raise Violation("the model given to the call was changed")
        if raised is not None:
            if exc is not raised:
                raise Violation("%s was raised inside the call but the caller got %s" % (type(raised).__name__, "a model" if exc is None else "%s: %s" % (type(exc).__name__, exc)))
            exc.__traceback__ = None
            return None
        c = self.canon(src)
        if e["do"] == "types":
            want = fbgen.rewritten(c, e["types"][0] == "int8", e["types"][1] == "int8")
            if want is None:
                want = "types"
        else:
            want = stripped(c)
        if isinstance(want, str):
            if exc is None:
                raise Violation("a model that must be refused (%s) was returned" % want)
            if not isinstance(exc, ValueError):
                raise Violation("a model that must be refused (%s) raised %s: %s" % (want, type(exc).__name__, exc))
            self.run_.count("refused")
            return None
        if exc is not None:
            raise Violation("the model can be stripped but the call raised %s: %s" % (type(exc).__name__, exc))
        if not isinstance(out, bytes):
            raise Violation("the call returned a %s" % type(out).__name__)
        try:
            got = self.canon(out)
        except Exception as x:
            raise Violation("the returned model is damaged: %s" % x)
        d = fbgen.difference(want, got)
        if d:
            raise Violation("the returned model differs from the given one beyond its final dequantizers: %s" % d if e["do"] != "types" else "the model with other types differs: %s" % d)
        if e["do"] != "types":
            self.run_.count("models_stripped")
            if want is not None and c["subgraphs"][0]["outputs"] != want["subgraphs"][0]["outputs"]:
                self.run_.count("outputs_changed")
            self.run_.count("operators_removed", sum(len(g["ops"]) for g in c["subgraphs"]) - sum(len(g["ops"]) for g in want["subgraphs"]))
        else:
            self.run_.count("types_rewritten")
        self.run_.out.add(out)
        return out


def hash_of(b):
    import hashlib
    return hashlib.blake2b(bytes(b), digest_size=6).hexdigest()
