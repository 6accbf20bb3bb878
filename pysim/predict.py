"""C10: predict() over simulated sources, a simulated native interpreter,
clients as tasks, and faults at every step."""
import asyncio, errno, hashlib, os, sys, threading, types
import numpy as np
from base import Run, Tasks, Violation, fresh_package

REPO = os.environ.get("LCE_REPO", "/repo")
PKG = os.path.join(REPO, "larq_compute_engine") + os.sep


class OddError(Exception):
    """Cannot be rebuilt from its message."""

    def __init__(self, a, b, *, c):
        super().__init__(a)
        self.b, self.c = b, c


class OddInterrupt(BaseException):
    pass


def make_exception(kind):
    return {
        "value": lambda: ValueError("source value"),
        "type": lambda: TypeError("'x' object is not iterable"),
        "attribute": lambda: AttributeError("no attribute"),
        "index": lambda: IndexError("list index out of range"),
        "key": lambda: KeyError("k"),
        "nospace": lambda: OSError(errno.ENOSPC, "No space left on device"),
        "io": lambda: OSError(errno.EIO, "Input/output error"),
        "timeout": lambda: TimeoutError("slow"),
        "memory": lambda: MemoryError("no memory"),
        "runtime": lambda: RuntimeError("generator raised StopIteration"),
        "eof": lambda: EOFError(),
        "notimpl": lambda: NotImplementedError(),
        "stopasync": lambda: StopAsyncIteration(),
        "odd": lambda: OddError("a", 2, c=3),
        "interrupt": lambda: KeyboardInterrupt(),
        "exit": lambda: SystemExit(3),
        "genexit": lambda: GeneratorExit(),
        "cancelled": lambda: asyncio.CancelledError(),
        "oddbase": lambda: OddInterrupt("x"),
        "assert": lambda: AssertionError("a"),
        "buffer": lambda: BufferError("b"),
        "arith": lambda: FloatingPointError("f"),
    }[kind]()


KINDS = ["value", "type", "attribute", "index", "key", "nospace", "io", "timeout", "memory", "runtime", "eof", "notimpl", "stopasync",
         "odd", "interrupt", "exit", "genexit", "cancelled", "oddbase", "assert", "buffer", "arith"]
DTYPES = ["float32", "int8", "int32", "uint8", "bool", "int16", "int64", "float32", "int8"]


def same(a, b):
    return isinstance(a, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()


def digest_array(key, shape, dtype):
    n = int(np.prod(shape)) * np.dtype(dtype).itemsize
    b = hashlib.shake_128(key).digest(n)
    if dtype == "bool":
        b = bytes(x & 1 for x in b)
    return np.frombuffer(b, dtype=dtype).reshape(shape).copy()


class Native:
    """Stands for the extension: strict about its inputs, returns new arrays."""

    def __init__(self, world, spec):
        self.world, self.spec = world, spec
        self.input_types = [np.dtype(d).type for _, d in spec["in"]]
        self.input_shapes = [tuple(s) for s, _ in spec["in"]]
        self.output_types = [np.dtype(d).type for _, d in spec["out"]]
        self.output_shapes = [tuple(s) for s, _ in spec["out"]]
        self.input_scales = [0.5] * len(spec["in"])
        self.output_scales = [None] * len(spec["out"])
        self.input_zero_points = [3] * len(spec["in"])
        self.output_zero_points = [None] * len(spec["out"])

    def predict(self, inputs):
        return self.world.native_predict(self, inputs)

    def compute(self, arrays):
        h = hashlib.blake2b(str(self.spec["key"]).encode(), digest_size=16)
        for a in arrays:
            h.update(np.ascontiguousarray(a).tobytes() + repr(a.shape).encode())
        return [digest_array(h.digest() + bytes([j]), s, d) for j, (s, d) in enumerate(self.spec["out"])]


class Source:
    """An iterator over samples which records when it is asked."""

    def __init__(self, world, spec, plan):
        self.world, self.spec, self.plan = world, spec, plan
        self.k = 0
        self.ended = False
        self.buffers = None

    def __iter__(self):
        return self

    def __next__(self):
        return self.world.source_next(self)


class StderrSim:
    """The terminal: may fail at some write."""

    def __init__(self, world):
        self.world = world

    def write(self, s):
        return self.world.stderr_write(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise OSError("no file")

    encoding = "utf-8"


class C10:
    def __init__(self):
        pkg = types.ModuleType("larq_compute_engine")
        pkg.__path__ = [os.path.join(REPO, "larq_compute_engine")]
        sys.modules["larq_compute_engine"] = pkg
        import tqdm, tqdm.std
        tqdm.tqdm.monitor_interval = 0
        self.tqdm = tqdm.tqdm
        self.clock = 1e9
        self.clock_rng = None
        tqdm.std.time = self.now
        sys.unraisablehook = lambda *_: None

    # ---- simulated environment
    def now(self):
        if self.clock_rng is not None:
            x = self.clock_rng.random()
            before = self.clock
            if x < 0.05:
                self.clock -= self.clock_rng.random() * 1e5
                self.run_.count("fault_clock_jump_back")
            elif x < 0.1:
                self.clock += self.clock_rng.random() * 1e7
                self.run_.count("fault_clock_jump_forward")
            else:
                self.clock += self.clock_rng.random()
            self.run_.count("simulated_milliseconds", int(1000 * abs(self.clock - before)))
        return self.clock

    def stderr_write(self, s):
        c = self.call()
        if c is not None and c["plan"].get("stderr_fault") is not None:
            c["writes"] += 1
            if c["writes"] == c["plan"]["stderr_fault"]:
                c["stderr_failed"] = OSError(errno.EPIPE, "Broken pipe")
                self.run_.count("fault_stderr")
                raise c["stderr_failed"]
        return len(s)

    def call(self):
        t = self.tasks.me()
        return self.stacks[t["id"]][-1] if t is not None and self.stacks[t["id"]] else None

    def fail(self, text):
        raise_violation = Violation(text)
        if self.violation is None:
            self.violation = raise_violation
        raise raise_violation

    def make_sample(self, spec, rng):
        return [digest_array(rng.randbytes(8), s[1:], d) for s, d in spec["in"]]

    # ---- what the code under test calls
    def source_next(self, src):
        self.tasks.point()
        c = self.call()
        if c is None or c["source"] is not src:
            self.fail("the data source was asked for a sample outside the predict call it was given to")
        if c["pending"] is not None:
            self.fail("the data source was asked for sample %d before sample %d was processed" % (src.k, src.k - 1))
        p = src.plan
        if c["produced"] >= p["lengths"][c["index"]] or src.k >= p["total"]:
            self.run_.note("end of source", src.k)
            c["ended"] = True
            raise StopIteration
        k = src.k
        f = p["faults"].get(k)
        if f is not None and k not in p["done_faults"]:
            p["done_faults"].add(k)
            if f[0] == "raise":
                c["raised"] = make_exception(f[1])
                self.run_.count("fault_source_raises")
                self.run_.note("source raises", k, f[1])
                raise c["raised"]
            if f[0] == "stopiter_in_middle":
                pass
            if f[0] == "reenter":
                self.run_.count("reentrant_calls")
                self.do_call(f[1], nested=True)
                if self.call() is not c:
                    self.fail("lost the outer call")
        src.k += 1
        sample = p["samples"][k]
        c["produced"] += 1
        c["pending"] = [a.copy() for a in sample]
        c["bad"] = False
        self.run_.note("sample", k)
        if f is not None and f[0] == "bad":
            c["bad"] = True
            self.run_.count("fault_bad_sample")
            return self.bad_sample(f[1], sample)
        if p["reuse"]:
            if src.buffers is None:
                src.buffers = [np.empty_like(a) for a in sample]
            for b, a in zip(src.buffers, sample):
                b[...] = a
            self.run_.count("reused_buffers")
            arrays = src.buffers
        else:
            arrays = [a.copy() for a in sample]
        if p["container"] == "array" or (p["container"] == "mixed" and k % 2 and len(arrays) == 1):
            return arrays[0]
        if p["container"] == "tuple":
            return tuple(arrays)
        return arrays if p["reuse"] and p["container"] == "list" else list(arrays)

    def bad_sample(self, kind, sample):
        if kind == "none":
            return None
        if kind == "missing":
            return [a.copy() for a in sample[:-1]]
        if kind == "extra":
            return [a.copy() for a in sample] + [sample[0].copy()]
        if kind == "shape":
            a = sample[0]
            return [np.zeros(a.shape + (2,), a.dtype)] + [b.copy() for b in sample[1:]]
        return [sample[0].astype("complex64")] + [b.copy() for b in sample[1:]]

    def native_predict(self, nat, inputs):
        self.tasks.point()
        c = self.call()
        if c is None or c["native"] is not nat:
            self.fail("an inference ran outside the predict call it belongs to")
        r = self.run_
        if not isinstance(inputs, list):
            self.fail("the native interpreter got %s instead of a list" % type(inputs).__name__)
        k = c["runs"]
        if c["failed_native"] or c["raised"] is not None:
            self.fail("another inference ran after the call had failed")
        if c["source"] is not None:
            if c["pending"] is None:
                self.fail("inference %d ran without a new sample" % k)
            want = None if c["bad"] else c["pending"]
        else:
            if k >= len(c["plan"]["samples"]):
                self.fail("inference %d ran for %d samples" % (k, len(c["plan"]["samples"])))
            want = c["plan"]["samples"][k] if c["plan"]["form"] != "wrong" else None
        err = None
        if len(inputs) != len(nat.spec["in"]):
            err = "wrong number of inputs"
        else:
            for a, (s, d) in zip(inputs, nat.spec["in"]):
                a = np.asarray(a)
                if a.dtype != np.dtype(d) or a.shape != tuple(s):
                    err = "expected %s %s, got %s %s" % (d, s, a.dtype, a.shape)
        if err is not None:
            if want is not None:
                self.fail("sample %d reached the native interpreter changed: %s" % (k, err))
            c["failed_native"] = True
            c["raised"] = RuntimeError(err)
            r.note("native rejects", k)
            raise c["raised"]
        if want is not None:
            for j, (a, w) in enumerate(zip(inputs, want)):
                if not same(np.asarray(a), w[np.newaxis]):
                    self.fail("inference %d got other values for input %d than sample %d had" % (k, j, k))
        f = c["plan"].get("native_fault")
        copies = [np.array(a, copy=True) for a in inputs]
        r.note("inference", k, *[hashlib.blake2b(a.tobytes(), digest_size=6).hexdigest() for a in copies])
        self.tasks.point()
        for a, b in zip(inputs, copies):
            if not same(np.asarray(a), b):
                self.fail("the inputs of inference %d changed while it ran" % k)
        if f is not None and f[0] == k:
            c["failed_native"] = True
            c["raised"] = make_exception(f[1])
            r.count("fault_inference_raises")
            r.note("inference raises", k, f[1])
            raise c["raised"]
        out = nat.compute(copies)
        c["outputs"].append([o.copy() for o in out])
        c["runs"] += 1
        c["pending"] = None
        self.tasks.point()
        return out

    def tracer(self, frame, what, arg):
        if not frame.f_code.co_filename.startswith(PKG):
            return None
        if what == "line":
            c = self.call()
            if c is not None:
                c["lines"] += 1
                i = c["plan"].get("interrupt")
                if i is not None and c["lines"] == i[0] and c["raised"] is None:
                    c["raised"] = make_exception(i[1])
                    c["interrupted"] = True
                    self.run_.count("fault_interrupt_at_line")
                    self.run_.note("interrupt", i[1])
                    raise c["raised"]
            self.tasks.point()
        return self.tracer

    # ---- the client
    def do_call(self, plan, nested=False):
        r = self.run_
        t = self.tasks.me()
        nat = self.natives[plan["model"]]
        interp = self.interps[plan["model"]]
        src = None
        idx = 0
        if plan["form"] == "iterator":
            sp = plan["source"]
            src = sp.get("object") or Source(self, nat.spec, sp)
            sp["object"] = src
            idx = sp["used"]
            sp["used"] += 1
            if src.k >= sp["total"] or sp["lengths"][idx] == 0:
                return
            if sp["busy"]:
                return
            x = src
            w = sp["wrap"]
            # wrappers do not survive an exception, the source itself does
            if w == "generator":
                x = (s for s in src)
            elif w == "map":
                x = map(lambda s: s, src)
            elif w == "iter":
                x = iter(src)
            n = min(sp["lengths"][idx], sp["total"] - src.k)
            sp["busy"] = True
        elif plan["form"] == "array":
            x = plan["array"]
            n = len(plan["samples"])
        elif plan["form"] == "list":
            x = plan["list"]
            n = len(plan["samples"])
        else:
            x = plan["wrong"]
            n = 0
        c = {"plan": plan, "native": nat, "source": src, "index": idx, "produced": 0, "runs": 0, "pending": None, "bad": False,
             "ended": False, "raised": None, "failed_native": False, "outputs": [], "writes": 0, "stderr_failed": None, "lines": 0,
             "interrupted": False}
        before = None
        if plan["form"] == "array":
            before = x.copy()
        elif plan["form"] == "list":
            before = [a.copy() for a in x]
        self.stacks[t["id"]].append(c)
        first_k = src.k if src else 0
        result, exc = None, None
        old = sys.gettrace()
        sys.settrace(self.tracer)
        try:
            result = interp.predict(x, verbose=plan["verbose"]) if plan["kw"] else (interp.predict(x, plan["verbose"]) if plan["verbose"] else interp.predict(x))
        except Violation:
            raise
        except BaseException as e:
            if type(e).__name__ == "Cancelled":
                raise
            exc = e
        finally:
            sys.settrace(old)
            if c["stderr_failed"] is not None:
                self.tqdm.set_lock(threading.RLock())
            popped = self.stacks[t["id"]].pop()
            if src is not None:
                plan["source"]["busy"] = False
        if self.violation is not None:
            raise self.violation
        if popped is not c:
            self.fail("call stack broken")
        r.note("call ends", "exception " + type(exc).__name__ if exc is not None else "result", c["runs"])
        if before is not None:
            for a, b in zip([x] if plan["form"] == "array" else x, [before] if plan["form"] == "array" else before):
                if not same(a, b):
                    self.fail("predict changed the array it was given")
        if exc is not None:
            if c["stderr_failed"] is not None and exc is c["stderr_failed"]:
                pass
            elif c["raised"] is not None:
                if exc is not c["raised"]:
                    self.fail("%s was raised in the call but the caller got %s: %s" % (type(c["raised"]).__name__, type(exc).__name__, exc))
            elif c["bad"] or plan["form"] == "wrong":
                pass
            else:
                self.fail("predict raised %s: %s although nothing failed" % (type(exc).__name__, exc))
            r.count("calls_raised")
            r.out.add(type(exc).__name__)
            return
        # a result
        if c["raised"] is not None:
            self.fail("%s was raised after %d of %d samples but predict returned a result" % (type(c["raised"]).__name__, c["runs"], n))
        if c["bad"] or plan["form"] == "wrong":
            self.fail("predict returned a result for inputs the model does not accept")
        if c["runs"] != n:
            self.fail("predict returned after %d inferences for %d samples" % (c["runs"], n))
        if src is not None and src.k - first_k != n:
            self.fail("predict consumed %d samples of %d" % (src.k - first_k, n))
        nout = len(nat.spec["out"])
        if nout == 1:
            got = [result]
        else:
            if not isinstance(result, (list, tuple)) or len(result) != nout:
                self.fail("predict returned %s for a model with %d outputs" % (type(result).__name__, nout))
            got = result
        for j, g in enumerate(got):
            want = np.concatenate([o[j] for o in c["outputs"]])
            if not isinstance(g, np.ndarray):
                self.fail("output %d is a %s, not an array" % (j, type(g).__name__))
            if g.dtype != want.dtype or g.shape != want.shape:
                self.fail("output %d has type %s and shape %s, expected %s and %s" % (j, g.dtype, g.shape, want.dtype, want.shape))
            if not same(g, want):
                bad = [i for i in range(n) if not same(g[i:i + 1], want[i:i + 1])]
                self.fail("output %d is wrong for samples %s of %d" % (j, bad[:10], n))
            self.kept.append((g, want))
            r.out.add(want.tobytes())
        r.count("calls_returned")
        r.count("samples", n)

    def client(self, plans):
        for p in plans:
            if not p["run"]:
                continue
            if p["what"] == "call":
                self.do_call(p)
            elif p["what"] == "read":
                i, nat = self.interps[p["model"]], self.natives[p["model"]]
                for a in ("input_types", "input_shapes", "input_scales", "input_zero_points", "output_types", "output_shapes", "output_scales", "output_zero_points"):
                    if getattr(i, a) != getattr(nat, a):
                        self.fail("%s is %r, the model has %r" % (a, getattr(i, a), getattr(nat, a)))
                self.run_.count("property_reads")
            self.tasks.point()

    # ---- plans
    def plan_call(self, rng, specs, sources, depth):
        r = self.run_
        m = rng.randrange(len(specs))
        spec = specs[m]
        p = {"what": "call", "model": m, "verbose": rng.choice([0, 0, 0, 1, 2]), "kw": rng.random() < 0.5}
        form = rng.choice(["iterator", "iterator", "iterator", "iterator", "array", "list", "wrong"] if depth == 0 else ["iterator", "array", "list"])
        if form == "array" and len(spec["in"]) > 1:
            form = "list"
        if form == "wrong" and rng.random() < 0.6:
            form = "iterator"
        p["form"] = form
        n = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 17, 33]) if depth == 0 else rng.choice([1, 2, 3])
        if depth == 0 and rng.random() < 0.04:
            n = rng.choice([63, 64, 65, 100, 127, 129, 255, 257, 300])
        if depth == 0 and rng.random() < 0.005:
            n = rng.choice([511, 1000, 1025, 2049])
        if form == "wrong":
            p["wrong"] = rng.choice([None, 5, object(), 1.5])
            p["samples"] = []
            return p
        if form == "iterator":
            old = [s for s in sources if s["model"] == m]
            if old and rng.random() < 0.5 and depth == 0:
                sp = rng.choice(old)
            else:
                total = n
                parts = rng.choice([1, 1, 2, 3]) if n < 60 else 1
                total = n * parts
                sp = {"model": m, "total": total, "lengths": [n] * 50 if rng.random() < 0.5 else [10**6] * 50, "faults": {}, "done_faults": set(),
                      "samples": [self.make_sample(spec, rng) for _ in range(total)], "used": 0, "busy": False,
                      "reuse": rng.random() < 0.4, "wrap": rng.choice(["plain", "plain", "generator", "map", "iter"]),
                      "container": rng.choice(["array", "list", "mixed", "tuple"] if len(spec["in"]) == 1 else ["list", "tuple"])}
                for _ in range(rng.choice([0, 0, 1, 1, 2])):
                    k = rng.randrange(total)
                    kind = rng.choice(["raise", "raise", "bad", "reenter"] if depth < 2 else ["raise", "bad"])
                    if kind == "raise":
                        sp["faults"][k] = ("raise", rng.choice(KINDS))
                    elif kind == "bad":
                        sp["faults"][k] = ("bad", rng.choice(["none", "missing", "extra", "shape", "dtype"]))
                    else:
                        sp["faults"][k] = ("reenter", self.plan_call(rng, specs, [], depth + 1))
                sources.append(sp)
            p["source"] = sp
            p["samples"] = sp["samples"]
            n = sp["total"]
        else:
            p["samples"] = [self.make_sample(spec, rng) for _ in range(n)]
            xs = []
            for j, (s, d) in enumerate(spec["in"]):
                a = np.stack([smp[j] for smp in p["samples"]])
                lay = rng.choice(["c", "f", "strided", "readonly", "reversed"])
                if lay == "f":
                    a = np.asfortranarray(a)
                elif lay == "strided":
                    b = np.zeros((2 * a.shape[0],) + a.shape[1:], a.dtype)
                    b[::2] = a
                    a = b[::2]
                elif lay == "reversed":
                    a = np.ascontiguousarray(a[::-1])[::-1]
                elif lay == "readonly":
                    a.flags.writeable = False
                xs.append(a)
            p["array"], p["list"] = xs[0], xs
        x = rng.random()
        if x < 0.15:
            p["native_fault"] = (rng.randrange(n), rng.choice(KINDS))
        elif x < 0.3:
            p["interrupt"] = (rng.randrange(1, 12 + 3 * n), rng.choice(["interrupt", "interrupt", "memory", "exit", "timeout", "oddbase"]))
        if p["verbose"] and self.ntasks == 1 and rng.random() < 0.2:  # tqdm keeps its lock when writing fails
            p["stderr_fault"] = rng.randrange(1, 6)
        r.shape.add(form, n, len(spec["in"]), len(spec["out"]), sorted(k for k in p if k.endswith("fault") or k == "interrupt"),
                    sorted((k, v[0]) for k, v in p["source"]["faults"].items()) if form == "iterator" else 0)
        return p

    def run(self, run):
        self.ib = fresh_package("larq_compute_engine.tflite.python.interpreter_base")
        self.run_ = run
        self.violation = None
        self.clock = 1e9
        getattr(self.tqdm, "_instances", set()).clear()
        rng = run.rng("plan")
        self.kept = []
        specs = []
        for m in range(rng.choice([1, 1, 2])):
            def tensor():
                rank = rng.choice([1, 1, 2, 2, 3, 4])
                return (tuple([1] + [rng.choice([1, 2, 3, 5]) for _ in range(rank - 1)]), rng.choice(DTYPES))
            specs.append({"key": rng.randbytes(4).hex(), "in": [tensor() for _ in range(rng.choice([1, 1, 2, 3]))],
                          "out": [tensor() for _ in range(rng.choice([1, 1, 2, 3]))]})
        self.natives = [Native(self, s) for s in specs]
        self.interps = [self.ib.InterpreterBase(n) for n in self.natives]
        ntasks = self.ntasks = rng.choice([1, 1, 1, 2, 3])
        self.tasks = Tasks(run, rng.choice([0.02, 0.1, 0.3]))
        self.stacks = [[] for _ in range(ntasks)]
        self.clock_rng = run.rng("clock")
        sources = []
        for t in range(ntasks):
            plans = []
            for _ in range(rng.choice([1, 2, 3, 4, 5])):
                p = {"what": "read", "model": rng.randrange(len(specs))} if rng.random() < 0.1 else self.plan_call(rng, specs, sources, 0)
                if p["what"] == "call":
                    faults = {k: v if v[0] != "reenter" else "reenter" for k, v in p["source"]["faults"].items()} if p["form"] == "iterator" else {}
                    text = "task %d: predict on interpreter %d, %s, %d samples%s" % (t, p["model"], p["form"], len(p["samples"]), "".join(
                        ", %s %s" % (k, p[k]) for k in ("native_fault", "interrupt", "stderr_fault") if k in p) + (", faults %s" % faults if faults else ""))
                else:
                    text = "task %d: read properties" % t
                p["run"] = run.event(text)
                plans.append(p)
            self.tasks.spawn("task %d" % t, lambda plans=plans: self.client(plans))
        err = sys.stderr
        sys.stderr = StderrSim(self)
        try:
            self.tasks.run_all()
        finally:
            sys.stderr = err
            self.clock_rng = None
        if self.violation is not None:
            raise self.violation
        for g, want in self.kept:
            if not same(g, want):
                raise Violation("a result changed after it was returned")
