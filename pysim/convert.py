"""C12 and C13: conversions of Keras models and SavedModels with simulated
native converters, a simulated export and faults at every step."""
import errno, gc, hashlib, os, resource, shutil, sys, tempfile, types, warnings
warnings.simplefilter("ignore")
import numpy as np
import tensorflow as tf
import tensorflow.python.saved_model.loader_impl as loader_impl
from base import Violation, fresh_package
import fbgen

REPO = os.environ.get("LCE_REPO", "/repo")
PKG = os.path.join(REPO, "larq_compute_engine") + os.sep
tf.get_logger().setLevel("ERROR")
# the generated models have no Python control flow: autograph would only cost time
import tensorflow.python.autograph.impl.conversion as ag_conversion
ag_conversion.is_in_allowlist_cache = lambda *a: True
CACHE = os.path.join(os.environ["LCE_CACHE"], "savedmodels")


class OddError(Exception):
    def __init__(self, a, *, c):
        super().__init__(a)
        self.c = c


def make_exception(kind):
    return {
        "nospace": lambda: OSError(errno.ENOSPC, "No space left on device"),
        "readonly": lambda: OSError(errno.EROFS, "Read-only file system"),
        "permission": lambda: PermissionError(errno.EACCES, "Permission denied"),
        "missing": lambda: FileNotFoundError(errno.ENOENT, "No such file"),
        "memory": lambda: MemoryError(),
        "runtime": lambda: RuntimeError("failed"),
        "internal": lambda: tf.errors.InternalError(None, None, "internal"),
        "exhausted": lambda: tf.errors.ResourceExhaustedError(None, None, "out of memory"),
        "unimplemented": lambda: tf.errors.UnimplementedError(None, None, "not implemented"),
        "value": lambda: ValueError("bad value"),
        "type": lambda: TypeError("bad type"),
        "key": lambda: KeyError("k"),
        "attribute": lambda: AttributeError("a"),
        "assert": lambda: AssertionError("a"),
        "notimpl": lambda: NotImplementedError("n"),
        "recursion": lambda: RecursionError("deep"),
        "unicode": lambda: UnicodeDecodeError("utf-8", b"x", 0, 1, "bad"),
        "import": lambda: ImportError("no module"),
        "timeout": lambda: TimeoutError("slow"),
        "stop": lambda: StopIteration(),
        "eof": lambda: EOFError(),
        "odd": lambda: OddError("a", c=1),
        "interrupt": lambda: KeyboardInterrupt(),
        "exit": lambda: SystemExit(2),
        "exit0": lambda: SystemExit(0),
    }[kind]()


ORDINARY = ["nospace", "readonly", "permission", "missing", "memory", "runtime", "internal", "exhausted", "unimplemented", "value", "type", "key", "attribute",
            "assert", "notimpl", "recursion", "unicode", "import", "timeout", "stop", "eof", "odd"]
GRAY = ("uint8_in", "int16_in", "uint8_out", "int16_out")
STOP = ["interrupt", "interrupt", "exit", "exit0"]


def read(path):
    with open(path, "rb") as f:
        return f.read()


class World:
    """What the code under test calls goes through the current conversion."""

    def __init__(self):
        self.cur = None

    # the native converters
    def native_sm(self, saved_model_dir, saved_model_tags, exported_names, saved_model_version, target_str, default_ranges):
        c = self.cur
        c.log("native saved-model conversion")
        c.n_sm += 1
        if c.n_gd or c.first_failed:
            c.fail("a saved-model conversion ran after the first attempt had failed")
        if c.stopped:
            c.fail("a conversion ran after an interruption")
        if c.n_sm > 1:
            c.fail("the saved model was converted twice")
        if not isinstance(saved_model_dir, str) or not os.path.isdir(saved_model_dir):
            c.fail("the converter got %r, which is no directory" % (saved_model_dir,))
        if list(saved_model_tags) != ["serve"] or list(exported_names) != ["serving_default"]:
            c.fail("the converter got tags %r and names %r" % (saved_model_tags, exported_names))
        if saved_model_version != c.version:
            c.fail("the converter got version %r of a saved model of version %d" % (saved_model_version, c.version))
        if target_str != c.target:
            c.fail("the saved-model converter got target %r instead of %r" % (target_str, c.target))
        if default_ranges != c.range:
            c.fail("the saved-model converter got range %r instead of %r" % (default_ranges, c.range))
        c.check_export(saved_model_dir)
        c.window = False
        c.fault("native_sm")
        c.attempt = 1
        return c.bytes_sm

    def native_gd(self, graphdef_bytes, input_arrays, input_dtypes, input_shapes, output_arrays, should_quantize, target_str, default_ranges):
        c = self.cur
        c.log("native graph conversion")
        c.n_gd += 1
        if c.stopped:
            c.fail("a second attempt was made after an interruption")
        if c.what != "keras":
            c.fail("a graph conversion ran for a saved model")
        if not c.first_failed and not c.first_may_fail():
            c.fail("a second attempt was made although the first had not failed")
        if c.n_gd > 1:
            c.fail("the graph was converted twice")
        if target_str != c.target:
            c.fail("the graph converter got target %r instead of %r" % (target_str, c.target))
        if default_ranges != c.range:
            c.fail("the graph converter got range %r instead of %r" % (default_ranges, c.range))
        if bool(should_quantize) != (c.zoo.fake_quant or c.range is not None):
            c.fail("the graph converter got should_quantize %r" % (should_quantize,))
        c.check_graph(graphdef_bytes, list(input_arrays), list(input_dtypes), [list(s) for s in input_shapes], list(output_arrays))
        c.window2 = False
        c.fault("native_gd")
        c.attempt = 2
        return c.bytes_gd


WORLD = World()


def native_sm(saved_model_dir, saved_model_tags, exported_names, saved_model_version, target_str, default_ranges):
    return WORLD.native_sm(saved_model_dir, saved_model_tags, exported_names, saved_model_version, target_str, default_ranges)


def native_gd(graphdef_bytes, input_arrays, input_dtypes, input_shapes, output_arrays, should_quantize, target_str, default_ranges):
    return WORLD.native_gd(graphdef_bytes, input_arrays, input_dtypes, input_shapes, output_arrays, should_quantize, target_str, default_ranges)


class Zoo:
    """A Keras model of the client, with a recorded export."""

    def __init__(self, name, make, fake_quant=False, unknown_dims=False, hook=False):
        self.name, self.make, self.fake_quant, self.unknown_dims, self.hook = name, make, fake_quant, unknown_dims, hook
        self.graphs = set()
        self.model = None

    def ready(self, real_save):
        if self.model is not None:
            return
        self.model = self.make()
        rng = np.random.default_rng(7)
        self.model.set_weights([(rng.integers(-3, 4, w.shape) if "variance" not in w.name else rng.integers(1, 5, w.shape)).astype(w.dtype.as_numpy_dtype) for w in self.model.weights])
        self.xs = [rng.integers(-4, 5, [1 if d is None else d for d in s]).astype(t) for s, t in zip(self.in_shapes(), self.in_types())]
        self.ys = [np.asarray(y) for y in tf.nest.flatten(self.call(self.xs))]
        # signatures list outputs in the order of their names, for SavedModels and graphs alike
        order = sorted(range(len(self.ys)), key=lambda k: self.model.output_names[k])
        self.ys = [self.ys[k] for k in order]
        self.weights = [w.copy() for w in self.model.get_weights()]
        d = os.path.join(CACHE, self.name)
        if not os.path.isdir(d):
            tmp = "%s.%d" % (d, os.getpid())
            os.makedirs(os.path.dirname(d), exist_ok=True)
            real_save(self.model, tmp, save_format="tf")
            try:
                os.rename(tmp, d)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
        self.export = []
        for base, dirs, files in os.walk(d):
            dirs.sort()
            rel = os.path.relpath(base, d)
            if rel != ".":
                self.export.append((rel, None))
            for f in sorted(files):
                self.export.append((os.path.normpath(os.path.join(rel, f)), read(os.path.join(base, f))))
        self.export.sort(key=lambda x: (x[0].startswith("saved_model.pb"), x[0]))

    def inputs(self):
        m = self.model
        x = m.inputs
        return x if isinstance(x, (list, tuple)) else tf.nest.flatten(x)

    def in_shapes(self):
        return [tuple(t.shape.as_list()) for t in self.inputs()]

    def in_types(self):
        return [t.dtype.as_numpy_dtype for t in self.inputs()]

    def call(self, xs):
        return self.model(xs[0] if len(xs) == 1 else xs, training=False)


def make_zoo():
    K = tf.keras
    L = K.layers

    def dense():
        a = K.Input((3,), name="d_in")
        return K.Model(a, L.Dense(2, name="d_out")(a), name="dense")

    def two():
        a, b = K.Input((3,), name="zz"), K.Input((4,), name="aa")
        return K.Model([a, b], [L.Dense(2, name="o2")(b), L.Dense(3, name="o1")(a)], name="two")

    def conv():
        a = K.Input((4, 4, 2), name="c_in")
        x = L.Conv2D(2, 2, name="c_conv")(a)
        x = L.BatchNormalization(name="c_bn")(x)
        return K.Model(a, L.ReLU(name="c_relu")(x), name="conv")

    def fakeq():
        a = K.Input((4,), name="q_in")
        x = L.Lambda(lambda t: tf.quantization.fake_quant_with_min_max_args(t, -1, 1), name="q_fq")(a)
        return K.Model(a, L.Dense(2, name="q_out")(x), name="fakeq")

    def fakeq_vars():
        a = K.Input((4,), name="v_in")
        x = L.Dense(2, name="v_out")(a)
        x = L.Lambda(lambda t: tf.quantization.fake_quant_with_min_max_vars(t, -3.0, 3.0), name="v_fq")(x)
        return K.Model(a, x, name="fakeq_vars")

    def unknown():
        a = K.Input((None, 2), name="u_in")
        return K.Model(a, L.Dense(2, name="u_out")(a), name="unknown")

    def fixed():
        a = K.Input(batch_shape=(2, 3), name="f_in")
        return K.Model(a, L.Dense(2, name="f_out")(a), name="fixed")

    def three():
        a, b, c = K.Input((2,), name="n1"), K.Input((2,), name="n0"), K.Input((2,), name="n2")
        x = L.Add(name="t_add")([a, b])
        y = L.Multiply(name="t_mul")([x, c])
        return K.Model([c, a, b], [y, x, L.Dense(1, name="t_d")(y)], name="three")

    def hooked():
        a = K.Input((3,), name="h_in")
        x = L.Lambda(lambda t: trace_hook(t), name="h_hook")(a)
        return K.Model(a, L.Dense(2, name="h_out")(x), name="hooked")

    def ints():
        a = K.Input((3,), dtype=tf.int32, name="i_in")
        b = K.Input((3,), name="i_f")
        return K.Model([a, b], L.Lambda(lambda t: tf.cast(t[0], tf.float32) * t[1], name="i_l")([a, b]), name="ints")

    def seq():
        return K.Sequential([L.Dense(2, input_shape=(3,), name="s_1"), L.Dense(4, name="s_2", activation="relu")], name="seq")

    def nested():
        a = K.Input((4,), name="e_in")
        inner_in = K.Input((4,), name="e_ii")
        inner = K.Model(inner_in, L.Dense(3, name="e_id")(inner_in), name="e_inner")
        return K.Model(a, [inner(a), L.Lambda(lambda t: t * 2.0, name="e_l")(a)], name="nested")

    return [Zoo("dense", dense), Zoo("two", two), Zoo("conv", conv), Zoo("fakeq", fakeq, fake_quant=True), Zoo("fakeq_vars", fakeq_vars, fake_quant=True),
            Zoo("unknown", unknown, unknown_dims=True), Zoo("fixed", fixed), Zoo("three", three), Zoo("hooked", hooked, hook=True), Zoo("ints", ints),
            Zoo("seq", seq), Zoo("nested", nested)]


def trace_hook(t):
    c = WORLD.cur
    if c is not None and (c.warned() or c.first_failed or c.n_sm):
        c.tracing = True
        c.log("tracing")
        if c.stopped:
            c.fail("the model was traced for a second attempt after an interruption")
        c.fault("trace")
    return t + 0.0


class Conversion:
    """One call of the public API."""

    def __init__(self, prof, run, plan):
        self.prof, self.run, self.plan = prof, run, plan
        self.what = plan["what"]
        self.zoo = prof.zoo[plan["zoo"]] if self.what == "keras" else None
        self.target, self.range, self.version = plan["target"], plan["range"], plan.get("version", 1)
        self.int8_in, self.int8_out = plan["in"] == "int8", plan["out"] == "int8"
        self.n_sm = self.n_gd = 0
        self.first_failed = self.stopped = False
        self.window = self.window2 = False
        self.attempt = 0
        self.raised = []
        self.second = None
        self.saved_to = None
        self.saves = 0
        self.tracing = False
        self.lines = 0
        self.violation = None
        self.logs = []
        self.caught = []

    @property
    def bytes_sm(self):
        return self.prof.model_bytes(self.plan["sm_seed"], self.plan["sm_kind"], b"first", self.plan.get("sm_sibling"))

    @property
    def bytes_gd(self):
        return self.prof.model_bytes(self.plan["gd_seed"], self.plan["gd_kind"], b"second")

    def log(self, *what):
        self.run.note(*what)

    def fail(self, text):
        if self.violation is None:
            self.violation = Violation(text)
        raise self.violation

    def warned(self):
        return [w for w in self.caught if not issubclass(w.category, (ResourceWarning, DeprecationWarning, PendingDeprecationWarning)) and not ("experimental_default_int8_range" in str(w.message) and issubclass(w.category, UserWarning))
                and (w.filename.startswith(PKG) or w.filename.startswith(os.path.dirname(os.path.abspath(__file__))))]

    def first_infeasible(self):
        return self.n_sm > 0 and (self.int8_in or self.int8_out) and self.prof.feasible(self.bytes_sm, self.int8_in, self.int8_out) is None

    def first_may_fail(self):
        """Models with another integer type at some boundary may be refused as a whole."""
        return self.first_infeasible() or self.n_sm > 0 and (self.int8_in or self.int8_out) and self.plan["sm_kind"] in GRAY

    def raise_(self, kind, where):
        e = make_exception(kind)
        self.raised.append(e)
        if not isinstance(e, Exception):
            self.stopped = True
        if self.n_gd or self.first_failed or self.tracing or self.first_infeasible() and self.attempt == 2:
            self.second = e
        else:
            self.first_failed = True
        self.run.count("fault_" + where)
        self.log("fault", where, kind)
        raise e

    def fault(self, where):
        f = self.plan["faults"].get(where)
        if f is not None:
            self.raise_(f, where)

    # ---- the export
    def save(self, real, model, path):
        self.saves += 1
        path = str(path)
        self.log("export")
        if self.what != "keras":
            self.fail("a saved-model conversion exported a model")
        if self.stopped or self.first_failed:
            self.fail("the model was exported after the first attempt had failed")
        if model is not self.zoo.model:
            self.fail("another model than the given one was exported")
        real_path = os.path.realpath(path)
        if not real_path.startswith(os.path.realpath(self.prof.tmp) + os.sep):
            self.fail("the model was exported to %s, outside the temporary directory" % path)
        self.saved_to = path
        self.window = True
        f = self.plan["faults"]
        if self.plan["real_save"]:
            self.run.count("real_exports")
            if "file_size" in f:
                old = resource.getrlimit(resource.RLIMIT_FSIZE)
                resource.setrlimit(resource.RLIMIT_FSIZE, (f["file_size"], old[1]))
                try:
                    real()
                except Exception:
                    self.first_failed = True
                    self.run.count("fault_file_size_limit")
                    raise
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, old)
            else:
                real()
            return
        s = f.get("save")
        for i, (name, data) in enumerate(self.zoo.export):
            if s and s[0] == i and s[2] == 0:
                self.raise_(s[1], "save")
            p = os.path.join(path, name)
            if data is None:
                os.makedirs(p, exist_ok=True)
                if s and s[0] == i:
                    self.raise_(s[1], "save")
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if name == "saved_model.pb" and self.version != 1:
                data = self.prof.with_version(self.zoo, data, self.version)
            torn = f.get("torn")
            if torn and torn[0] == name:
                self.run.count("fault_torn_export")
                self.first_failed = True
                self.log("torn export", name)
                if torn[1] == "missing":
                    continue
                data = {"short": data[: len(data) * 2 // 3], "empty": b"", "junk": b"\xff" * len(data), "zeroes": bytes(len(data))}[torn[1]]
            with open(p, "wb") as fh:
                if s and s[0] == i:
                    fh.write(data[: len(data) * s[2] // 4])
                    fh.flush()
                    self.raise_(s[1], "save")
                fh.write(data)
        if s and s[0] >= len(self.zoo.export):
            self.raise_(s[1], "save")

    def check_export(self, d):
        if self.what == "keras":
            if self.saves != 1 or os.path.realpath(d) != os.path.realpath(self.saved_to):
                self.fail("the converter was given %s, the model was exported to %s" % (d, self.saved_to))
            if not self.plan["real_save"]:
                have = {}
                for base, _, files in os.walk(d):
                    for f in files:
                        p = os.path.join(base, f)
                        have[os.path.relpath(p, d)] = read(p)
                want = {n: b for n, b in self.zoo.export if b is not None}
                if self.version != 1:
                    want["saved_model.pb"] = self.prof.with_version(self.zoo, want["saved_model.pb"], self.version)
                if have != want:
                    self.fail("the exported files changed before they were converted")
            elif not os.path.exists(os.path.join(d, "saved_model.pb")):
                self.fail("there is no saved model in the directory given to the converter")
        elif os.path.realpath(d) != os.path.realpath(self.plan["dir"]):
            self.fail("the converter was given %s instead of %s" % (d, self.plan["dir"]))

    def parse(self, real, d):
        self.log("parse")
        if self.stopped:
            self.fail("a saved model was parsed after an interruption")
        self.fault("parse")
        r = real(d)
        if self.what == "keras" and self.version not in (1, 2):
            self.first_failed = True
            self.run.count("fault_unsupported_version")
        return r

    # ---- the second attempt
    def check_graph(self, graph, ins, dtypes, shapes, outs):
        z = self.zoo
        want_shapes = [[1 if (k == 0 and d is None) else d for k, d in enumerate(s)] for s in z.in_shapes()]
        if shapes != want_shapes:
            self.fail("the graph converter got shapes %r instead of %r" % (shapes, want_shapes))
        names = {"float32": "DT_FLOAT", "int32": "DT_INT32"}
        if dtypes != [names[np.dtype(t).name] for t in z.in_types()]:
            self.fail("the graph converter got input types %r" % (dtypes,))
        if len(outs) != len(z.ys):
            self.fail("the graph converter got %d outputs of %d" % (len(outs), len(z.ys)))
        key = (hashlib.sha256(graph).digest(), tuple(ins), tuple(outs))
        if key in z.graphs:
            return
        self.run.count("graphs_executed")
        gd = tf.compat.v1.GraphDef()
        gd.ParseFromString(graph)
        have = {n.name for n in gd.node}
        for n in ins + outs:
            if n.split(":")[0] not in have:
                self.fail("the graph has no node %s" % n)
        g = tf.Graph()
        with g.as_default():
            tf.import_graph_def(gd, name="")
        with tf.compat.v1.Session(graph=g) as s:
            ys = s.run([n if ":" in n else n + ":0" for n in outs], {(n if ":" in n else n + ":0"): x for n, x in zip(ins, z.xs)})
        for i, (y, w) in enumerate(zip(ys, z.ys)):
            if y.shape != w.shape or not np.allclose(y, w, rtol=1e-5, atol=1e-5):
                self.fail("output %d of the graph given to the converter is not output %d of the model" % (i, i))
        z.graphs.add(key)

    # ---- interruptions at lines of the package
    def tracer(self, frame, what, arg):
        f = frame.f_code.co_filename
        if not f.startswith(PKG):
            return None
        if what == "line":
            in_util = f.endswith("util.py")
            if in_util and self.attempt in (1, 2) or self.window:
                self.lines += 1
                p = self.plan["faults"].get("line")
                if p is not None and self.lines == p[0] and not self.raised:
                    self.raise_(p[1], "line")
        return self.tracer

    def go(self):
        p = self.plan
        kw = {}
        if p["in"] != "float32" or p["explicit"]:
            kw["inference_input_type"] = getattr(tf, p["in"])
        if p["out"] != "float32" or p["explicit"]:
            kw["inference_output_type"] = getattr(tf, p["out"])
        if p["target"] != "arm" or p["explicit"]:
            kw["target"] = p["target"]
        if p["range"] is not None or p["explicit"]:
            kw["experimental_default_int8_range"] = p["range"]
        if self.what == "keras":
            return self.prof.converter.convert_keras_model(p.get("wrong_model", self.zoo.model), **kw)
        return self.prof.converter.convert_saved_model(p["dir"] if p["dir_kind"] == "str" else types_path(p["dir"]), **kw)


def types_path(d):
    import pathlib
    return pathlib.Path(d)


class Names:
    """Names of temporary files come from the seed."""

    def __init__(self, rng):
        self.rng = rng

    def __iter__(self):
        return self

    def __next__(self):
        return "%012x" % self.rng.getrandbits(48)


class Profile:
    def __init__(self, name):
        self.name = name
        self.root = tempfile.mkdtemp(prefix="lcesim-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        self.tmp = os.path.join(self.root, "tmp")
        self.cwd = os.path.join(self.root, "cwd")
        self.client = os.path.join(self.root, "client")
        for d in (self.tmp, self.cwd, self.client):
            os.mkdir(d)
        os.chdir(self.cwd)
        os.environ["TMPDIR"] = self.tmp
        tempfile.tempdir = self.tmp
        mod = types.ModuleType("larq_compute_engine.mlir._tf_tfl_flatbuffer")
        mod.convert_saved_model_to_tflite_flatbuffer = native_sm
        mod.convert_graphdef_to_tflite_flatbuffer = native_gd
        sys.modules[mod.__name__] = mod
        sys.modules["larq_compute_engine.mlir.python.tflite_schema"] = fbgen.S
        sys.modules["larq_compute_engine.tflite.python.interpreter_wrapper_lite"] = types.ModuleType("x")
        self.converter = fresh_package("larq_compute_engine.mlir.python.converter")
        self.zoo = {z.name: z for z in make_zoo()}
        K = tf.keras
        self.real_save = K.Model.save
        real_save, real_save_model, real_sm = K.Model.save, K.models.save_model, tf.saved_model.save
        inside = []

        def wrap(real, get_path):
            def f(model, *a, **kw):
                c = WORLD.cur
                if c is None or inside or not isinstance(model, K.Model):
                    return real(model, *a, **kw)
                inside.append(1)
                try:
                    return c.save(lambda: real(model, *a, **kw), model, a[0] if a else kw[get_path])
                finally:
                    inside.pop()
            return f

        K.Model.save = wrap(real_save, "filepath")
        K.models.save_model = wrap(real_save_model, "filepath")
        tf.saved_model.save = wrap(real_sm, "export_dir")
        real_parse = loader_impl.parse_saved_model_with_debug_info

        def parse(d):
            c = WORLD.cur
            return real_parse(d) if c is None else c.parse(real_parse, d)

        loader_impl.parse_saved_model_with_debug_info = parse
        real_mkdir = os.mkdir
        tmp = self.tmp

        def mkdir(path, *a, **kw):
            c = WORLD.cur
            if c is not None and "mkdtemp" in c.plan["faults"] and str(path).startswith(tmp) and not c.saves and not c.raised:
                c.fault("mkdtemp")
            return real_mkdir(path, *a, **kw)

        os.mkdir = mkdir
        self.created = None

        def audit(event, args):
            if self.created is None:
                return
            if event == "open" and isinstance(args[0], str) and (args[2] or 0) & (os.O_CREAT):
                self.note_new(args[0])
            elif event in ("os.mkdir", "tempfile.mkstemp", "tempfile.mkdtemp") and isinstance(args[0], str):
                self.note_new(args[0])
            elif event in ("os.rename", "os.link", "os.symlink", "shutil.copyfile", "shutil.move") and isinstance(args[1], str):
                self.note_new(args[1])

        sys.addaudithook(audit)
        self.bytes_cache, self.feasible_cache, self.canon_cache = {}, {}, {}
        self.versions = {}

    def model_state(self, m):
        """What a client may have set on a model and its layers."""
        layers = list(m._flatten_layers())
        return [(type(l).__name__, l.name, l.trainable, l.built, str(l.dtype), len(l.weights), len(l.trainable_weights), l.stateful, l.dynamic, [w.name for w in l.weights],
                 len(getattr(l, "_inbound_nodes", ()))) for l in layers] + [
                m.optimizer, m.run_eagerly, getattr(m, "loss", None), list(m.input_names), list(m.output_names), [tuple(t.shape) for t in m.outputs], "call" in vars(m)]

    def process_state(self):
        import logging, random, signal, threading
        return {"environment": dict(os.environ), "working directory": os.getcwd(), "temporary directory": tempfile.tempdir, "eager mode": tf.executing_eagerly(),
                "import path": list(sys.path), "warning filters": list(warnings.filters), "TensorFlow log level": tf.get_logger().level, "root log level": logging.getLogger().level,
                "random state": random.getstate(), "numpy random state": np.random.get_state()[1].tobytes(), "functions run eagerly": tf.config.functions_run_eagerly(),
                "soft placement": tf.config.get_soft_device_placement(), "threads": threading.active_count(), "interrupt handler": signal.getsignal(signal.SIGINT), "float type": tf.keras.backend.floatx(),
                "recursion limit": sys.getrecursionlimit(), "umask": self.umask()}

    def umask(self):
        m = os.umask(0)
        os.umask(m)
        return m

    def note_new(self, path):
        if not os.path.lexists(path):
            self.created.add(path)

    def close(self):
        os.chdir("/")
        shutil.rmtree(self.root, ignore_errors=True)

    def model_bytes(self, seed, kind, marker, sib=None):
        import random
        key = (seed, kind, marker, sib)
        if key not in self.bytes_cache:
            if len(self.bytes_cache) > 500:
                self.bytes_cache.clear()
            b = fbgen.generate(random.Random("%d/%s" % (seed, kind)), kind, marker)
            self.bytes_cache[key] = b if sib is None else fbgen.sibling(b, random.Random(sib))
        return self.bytes_cache[key]

    def canon(self, b):
        if b not in self.canon_cache:
            if len(self.canon_cache) > 500:
                self.canon_cache.clear()
            self.canon_cache[b] = fbgen.canon(b)
        return self.canon_cache[b]

    def feasible(self, b, i, o):
        key = (b, i, o)
        if key not in self.feasible_cache:
            if len(self.feasible_cache) > 500:
                self.feasible_cache.clear()
            self.feasible_cache[key] = fbgen.rewritten(self.canon(b), i, o)
        return self.feasible_cache[key]

    def with_version(self, zoo, data, version):
        key = (zoo.name, version)
        if key not in self.versions:
            from tensorflow.core.protobuf import saved_model_pb2
            m = saved_model_pb2.SavedModel()
            m.ParseFromString(data)
            m.saved_model_schema_version = version
            self.versions[key] = m.SerializeToString(deterministic=True)
        return self.versions[key]

    # ---- plans
    def plan(self, rng):
        c12 = self.name == "C12"
        p = {"what": "keras" if rng.random() < (0.85 if c12 else 0.4) else "saved", "zoo": rng.choice(list(self.zoo)), "target": rng.choice(["arm", "arm", "xcore"]),
             "range": rng.choice([None, None, None, (-3.0, 3.0), (0.0, 6.0)]), "explicit": rng.random() < 0.5, "faults": {}, "real_save": False,
             "in": "float32", "out": "float32", "sm_seed": rng.randrange(10**9), "gd_seed": rng.randrange(10**9)}
        x = rng.random()
        if x < (0.35 if c12 else 0.9):
            p["in"], p["out"] = rng.choice([("int8", "int8"), ("int8", "float32"), ("float32", "int8")])
        elif x < (0.42 if c12 else 0.93):
            p["invalid"] = rng.choice(["in", "out", "target", "model", "graph_mode"])
            if p["invalid"] in ("in", "out"):
                p[p["invalid"]] = rng.choice(["int32", "uint8", "float16", "int16"])
            elif p["invalid"] == "target":
                p["target"] = rng.choice(["x86", "ARM", ""])
        kinds = [k for k in fbgen.KINDS if not (c12 and k in GRAY)]
        p["sm_kind"] = rng.choice(["q"] * (20 if c12 else 9) + kinds)
        p["gd_kind"] = rng.choice(["q"] * (20 if c12 else 9) + kinds)
        f = p["faults"]
        z = self.zoo[p["zoo"]]
        n = 5
        if p["what"] == "keras" and "invalid" not in p:
            x = rng.random()
            if x < (0.8 if c12 else 0.4):
                where = rng.choice(["mkdtemp", "save", "save", "torn", "parse", "native_sm", "native_sm", "line", "line", "version", "real"])
                stop = rng.random() < 0.25
                kind = rng.choice(STOP if stop else ORDINARY)
                if where == "save":
                    f["save"] = (rng.randrange(0, 8), kind, rng.choice([0, 1, 2, 3]))
                elif where == "torn":
                    f["torn"] = ("saved_model.pb", rng.choice(["short", "empty", "junk", "missing", "zeroes"]))
                elif where == "line":
                    f["line"] = (rng.choice([rng.randrange(1, 12), rng.randrange(1, 60), rng.randrange(1, 250)]), kind)
                elif where == "version":
                    p["version"] = rng.choice([2, 3, 0, 7])
                elif where == "real":
                    if rng.random() < 0.15 and not z.hook:
                        p["real_save"] = True
                        f["file_size"] = rng.choice([0, 100, 1000, 5000, 20000])
                else:
                    f[where] = kind
                if rng.random() < 0.35:
                    where = rng.choice(["native_gd", "trace"])
                    f[where] = rng.choice(STOP if rng.random() < 0.3 else ORDINARY)
                    if where == "trace":
                        p["zoo"] = "hooked"
                        p["real_save"] = False
                        f.pop("file_size", None)
            elif x < 0.82 and c12 and not z.hook and rng.random() < 0.2:
                p["real_save"] = True
        elif p["what"] == "saved" and "invalid" not in p:
            p["dir_kind"] = rng.choice(["str", "path"])
            p["sm_bad"] = rng.choice([None] * 6 + ["short", "missing", "version"])
            if rng.random() < 0.3:
                where = rng.choice(["parse", "native_sm", "line"])
                kind = rng.choice(STOP if rng.random() < 0.3 else ORDINARY)
                f[where] = (rng.choice([rng.randrange(1, 60), rng.randrange(1, 250)]), kind) if where == "line" else kind
        p.setdefault("dir_kind", "str")
        p.setdefault("sm_bad", None)
        return p

    def describe(self, p):
        return "convert %s%s to %s/%s, %s, range %s, first %s second %s%s%s" % (
            "keras model " + p["zoo"] if p["what"] == "keras" else "saved model", " (real export)" if p["real_save"] else "", p["in"], p["out"], p["target"], p["range"],
            p["sm_kind"], p["gd_kind"], ", faults %s" % p["faults"] if p["faults"] else "",
            "".join(", %s %s" % (k, p[k]) for k in ("invalid", "version", "sm_bad", "sm_sibling") if p.get(k) is not None))

    def run(self, run):
        self.converter = fresh_package("larq_compute_engine.mlir.python.converter")
        rng = run.rng("plan")
        tempfile._name_sequence = Names(run.rng("names"))
        n = rng.choice([1, 2, 2, 3, 4])
        plans = [self.plan(rng) for _ in range(n)]
        for a, b in zip(plans, plans[1:]):
            if rng.random() < 0.2:  # a relative of the model of the conversion before
                b["sm_seed"], b["sm_kind"], b["sm_sibling"] = a["sm_seed"], a["sm_kind"], rng.randrange(10**9)
        for i, p in enumerate(plans):
            d = self.describe(p)
            run.shape.add(p["what"], p["zoo"], p["in"], p["out"], p["sm_kind"], p["gd_kind"], sorted(p["faults"]), p.get("invalid"), p.get("version"))
            if run.event(d):
                self.convert(run, p)
        WORLD.cur = None

    def listing(self, d):
        out = []
        for base, dirs, files in os.walk(d):
            out += [os.path.relpath(os.path.join(base, x), d) for x in dirs + files]
        # TensorFlow keeps the code generated while tracing a client's layer
        return sorted(x for x in out if not os.path.basename(x).startswith("__autograph_generated_file"))

    def convert(self, run, p):
        if p["what"] == "saved":
            z = self.zoo["dense"]
            z.ready(self.real_save)
            p["dir"] = os.path.join(self.client, "model")
            shutil.rmtree(p["dir"], ignore_errors=True)
            os.makedirs(p["dir"])
            for name, data in z.export:
                q = os.path.join(p["dir"], name)
                if data is None:
                    os.makedirs(q, exist_ok=True)
                    continue
                os.makedirs(os.path.dirname(q), exist_ok=True)
                if name == "saved_model.pb":
                    if p["sm_bad"] == "missing":
                        continue
                    if p["sm_bad"] == "short":
                        data = data[: len(data) // 2]
                    if p["sm_bad"] == "version":
                        data = self.with_version(z, data, 5)
                with open(q, "wb") as fh:
                    fh.write(data)
        else:
            self.zoo[p["zoo"]].ready(self.real_save)
        c = Conversion(self, run, p)
        if p.get("invalid") == "model":
            if p["what"] == "keras":
                p["wrong_model"] = "model.h5"
            else:
                p["dir"] = os.path.join(self.client, "nowhere")
        before_client = self.snapshot(p["dir"]) if p["what"] == "saved" else None
        before_env = self.process_state()
        before_model = self.model_state(c.zoo.model) if c.zoo is not None else None
        result = exc = None
        self.created = set()
        WORLD.cur = c
        g = tf.Graph().as_default() if p.get("invalid") == "graph_mode" else None
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            c.caught = caught
            if g:
                g.__enter__()
            try:
                if p["faults"].get("line"):
                    sys.settrace(c.tracer)
                result = c.go()
            except BaseException as e:
                exc = e
            finally:
                sys.settrace(None)
                if g:
                    g.__exit__(None, None, None)
        WORLD.cur = None
        created, self.created = self.created, None
        if c.violation is not None:
            self.clean()
            raise c.violation
        if isinstance(exc, Violation):
            self.clean()
            raise exc
        run.note("ends", type(exc).__name__ if exc is not None else "result", c.n_sm, c.n_gd)
        # nothing is left behind
        left = self.listing(self.tmp) + self.listing(self.cwd)
        left += [x for x in created if os.path.exists(x) and not x.startswith(self.client) and "__pycache__" not in x and not x.startswith(("/dev/null", "/proc/")) and "__autograph_generated_file" not in x
                 and not (p["real_save"] and x.startswith(self.tmp))]
        if left:
            self.clean()
            raise Violation("after the conversion %s the files %s remain" % ("raised " + type(exc).__name__ if exc is not None else "returned", sorted({os.path.relpath(x, self.root) if x.startswith(self.root) else x for x in left})[:5]))
        if before_client is not None and self.snapshot(p["dir"]) != before_client:
            raise Violation("the conversion changed the saved model it was given")
        after = self.process_state()
        for k, v in before_env.items():
            if after[k] != v:
                self.restore()
                raise Violation("the conversion changed the %s of the process" % k)
        if c.zoo is not None:
            if self.model_state(c.zoo.model) != before_model:
                self.zoo[c.zoo.name] = {z.name: z for z in make_zoo()}[c.zoo.name]  # a new one for the next run
                raise Violation("the conversion changed the settings of the model")
            for a, b in zip(c.zoo.model.get_weights(), c.zoo.weights):
                if not np.array_equal(a, b):
                    raise Violation("the conversion changed the weights of the model")
        if self.name == "C12":
            self.judge_attempts(run, c, p, result, exc)
        else:
            self.judge_types(run, c, p, result, exc)
        if result is not None:
            run.out.add(result)
            run.count("conversions_returned")
        else:
            run.out.add(type(exc).__name__)
            run.count("conversions_raised")
        del exc, c

    def restore(self):
        os.chdir(self.cwd)
        tempfile.tempdir = self.tmp
        os.environ["TMPDIR"] = self.tmp

    def clean(self):
        for d in (self.tmp, self.cwd):
            shutil.rmtree(d, ignore_errors=True)
            os.mkdir(d)

    def snapshot(self, d):
        out = {}
        for base, _, files in os.walk(d):
            for f in files:
                q = os.path.join(base, f)
                out[os.path.relpath(q, d)] = read(q)
        return out

    def judge_attempts(self, run, c, p, result, exc):
        nwarn = len(c.warned())
        ranges = [w for w in c.caught if "experimental_default_int8_range" in str(w.message)]
        if p.get("invalid"):
            if exc is None or not isinstance(exc, Exception):
                raise Violation("invalid arguments (%s) were accepted" % p["invalid"])
            if c.n_sm or c.n_gd or c.saves:
                raise Violation("a conversion was attempted for invalid arguments (%s)" % p["invalid"])
            return
        if exc is not None and c.raised and isinstance(c.raised[0], (KeyboardInterrupt, SystemExit)) and exc is not c.raised[0]:
            raise Violation("the conversion was interrupted by %s but the caller got %s: %s" % (type(c.raised[0]).__name__, type(exc).__name__, exc))
        if result is not None and not isinstance(result, bytes):
            raise Violation("the conversion returned a %s" % type(result).__name__)
        if c.raised and isinstance(c.raised[-1], (KeyboardInterrupt, SystemExit)):
            if exc is not c.raised[-1]:
                raise Violation("an interruption (%s) did not reach the caller, who got %s" % (type(c.raised[-1]).__name__, type(exc).__name__ if exc is not None else "a result"))
            if c.second is None and nwarn:
                raise Violation("the conversion announced a second attempt after an interruption")
            return
        bad_version = p.get("version", 1) not in (1, 2)
        first_ok = not c.first_failed and not bad_version and not c.first_infeasible()
        if p["what"] == "saved":
            if nwarn and exc is None:
                raise Violation("a saved-model conversion warned: %s" % c.warned()[0].message)
            ok = not c.raised and p["sm_bad"] is None and not c.first_infeasible()
            if ok != (exc is None):
                raise Violation("a saved-model conversion %s" % ("raised %s: %s although nothing failed" % (type(exc).__name__, exc) if ok else "returned a model although it had failed"))
            if c.raised and exc is not c.raised[-1]:
                raise Violation("%s was raised in the conversion but the caller got %s" % (type(c.raised[-1]).__name__, type(exc).__name__))
            return
        if first_ok:
            if exc is not None:
                raise Violation("the first attempt did not fail but the caller got %s: %s" % (type(exc).__name__, exc))
            if c.n_gd or c.n_sm != 1:
                raise Violation("%d saved-model and %d graph conversions ran for one successful conversion" % (c.n_sm, c.n_gd))
            if nwarn:
                raise Violation("a successful conversion warned: %s" % c.warned()[0].message)
            if self.canon(result)["description"] != b"first":
                raise Violation("the returned model is not the converted one")
            if not (c.int8_in or c.int8_out) and result != c.bytes_sm:
                raise Violation("the returned model differs from the converted one")
            return
        if not c.first_failed and not bad_version and exc is None and self.canon(result)["description"] == b"first":
            return  # decided under C13
        # the second attempt
        if not nwarn:
            raise Violation("the first attempt failed without a warning")
        run.count("second_attempts")
        second = c.second
        if second is not None and c.tracing and "trace" in p["faults"]:
            # Keras rebuilds ordinary exceptions raised while a layer is traced
            if exc is None or not isinstance(exc, Exception) and exc is not second:
                raise Violation("the second attempt failed with %s but the caller got %s" % (type(second).__name__, type(exc).__name__ if exc is not None else "a result"))
            return
        if c.zoo.unknown_dims:
            if not isinstance(exc, ValueError) or c.n_gd:
                raise Violation("a graph with unknown dimensions was %s" % ("converted" if exc is None else "rejected with %s: %s" % (type(exc).__name__, exc)))
            return
        if second is not None:
            if exc is not second:
                raise Violation("the second attempt failed with %s but the caller got %s" % (type(second).__name__, type(exc).__name__ if exc is not None else "a result"))
            return
        if c.n_gd != 1:
            raise Violation("the first attempt failed and the graph was converted %d times; the caller got %s" % (c.n_gd, type(exc).__name__ if exc is not None else "a result"))
        if (c.int8_in or c.int8_out) and self.feasible(c.bytes_gd, c.int8_in, c.int8_out) is None:
            return  # decided under C13
        if exc is not None:
            raise Violation("the second attempt did not fail but the caller got %s: %s" % (type(exc).__name__, exc))
        if self.canon(result)["description"] != b"second":
            raise Violation("the returned model is not the one converted by the second attempt")
        if not (c.int8_in or c.int8_out) and result != c.bytes_gd:
            raise Violation("the returned model differs from the converted one")

    def judge_types(self, run, c, p, result, exc):
        if p.get("invalid"):
            if result is not None:
                raise Violation("a conversion with invalid arguments (%s) returned a model" % p["invalid"])
            return
        if result is None:
            # a model that can have the types must not be refused when nothing failed
            bad_version = p.get("version", 1) not in (1, 2)
            if not c.raised and not c.first_failed and not bad_version and p["sm_bad"] is None and c.n_sm and not c.first_may_fail():
                raise Violation("the requested types are possible but the conversion raised %s: %s" % (type(exc).__name__, exc))
            if c.attempt == 2 and c.second is None and p["gd_kind"] not in GRAY and self.feasible(c.bytes_gd, c.int8_in, c.int8_out) is not None:
                raise Violation("the requested types are possible but the graph conversion raised %s: %s" % (type(exc).__name__, exc))
            run.count("types_refused")
            return
        try:
            got = self.canon(result)
        except Exception as e:
            raise Violation("the returned model is damaged: %s" % e)
        src = {b"first": c.bytes_sm, b"second": c.bytes_gd}.get(got["description"])
        if src is None:
            raise Violation("the returned model is not a converted one")
        want = self.feasible(src, c.int8_in, c.int8_out)
        path = "saved-model" if src is c.bytes_sm else "graph"
        ti, to = fbgen.types_of(got)
        for name, ts, i8, orig in (("input", ti, c.int8_in, fbgen.types_of(self.canon(src))[0]), ("output", to, c.int8_out, fbgen.types_of(self.canon(src))[1])):
            if len(ts) != len(orig):
                raise Violation("the model returned on the %s path has %d %ss instead of %d" % (path, len(ts), name, len(orig)))
            for k, (t, o) in enumerate(zip(ts, orig)):
                w = fbgen.I8 if i8 and o == fbgen.F32 else o
                if t != w:
                    raise Violation("%s %d of the model returned on the %s path has type %d instead of %d (%s requested)" % (name, k, path, t, w, p["in" if name == "input" else "out"]))
        if want is None:
            raise Violation("the model cannot have the requested types (%s) but one was returned on the %s path" % (p["sm_kind"] if path == "saved-model" else p["gd_kind"], path))
        d = fbgen.difference(want, got)
        if d:
            raise Violation("the model returned on the %s path differs from the converted one: %s" % (path, d))
        run.count("types_checked_" + path.replace("-", "_"))
        if c.int8_in or c.int8_out:
            run.count("models_rewritten")
