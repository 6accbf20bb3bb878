"""Common parts of the Python simulators: command line, seeds, histories, tasks.

A run is a plan (a list of events, all parameters drawn from the seed in
advance) executed under a seeded scheduler.  Plans can be executed without
some of their events and with a bound on task switches, which is how the
driver minimises a violation.
"""
import gc, hashlib, os, random, signal, struct, sys, threading, time, traceback

MASK = (1 << 64) - 1


class Violation(Exception):
    """The property does not hold in this run."""


class Hist:
    def __init__(self):
        self.h = hashlib.blake2b(digest_size=8)

    def add(self, *xs):
        for x in xs:
            self.h.update(x if isinstance(x, (bytes, bytearray)) else repr(x).encode())
            self.h.update(b"\0")

    def value(self):
        return int.from_bytes(self.h.digest(), "little")


PKG = os.path.join(os.environ.get("LCE_REPO", "/repo"), "larq_compute_engine") + os.sep
_codes = {}


def fresh_package(name):
    """The module, with the whole package imported anew: every run is a process that just started."""
    import importlib, importlib.machinery
    loader = importlib.machinery.SourceFileLoader
    if not _codes:
        real = loader.get_code
        _codes[""] = real

        def get_code(self, n):
            if not self.path.startswith(PKG):
                return real(self, n)
            if self.path not in _codes:
                _codes[self.path] = real(self, n)
            return _codes[self.path]
        loader.get_code = get_code
    for n, m in list(sys.modules.items()):
        if (getattr(m, "__file__", None) or "").startswith(PKG):
            del sys.modules[n]
    return importlib.import_module(name)


class Cancelled(BaseException):
    """Ends the remaining tasks of a run that already failed."""


class Run:
    """One simulated run: its random streams, history and counters."""

    def __init__(self, seed, drop=(), max_switches=None, verbose=False, counts=None):
        self.seed = seed
        self.drop = set(drop)
        self.max_switches = max_switches
        self.verbose = verbose
        self.counts = counts if counts is not None else {}
        self.history, self.out, self.shape, self.schedule = Hist(), Hist(), Hist(), Hist()
        self.switches = 0
        self.steps = 0
        self.next_event = 0

    def rng(self, name):
        return random.Random("%d/%s" % (self.seed, name))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def note(self, *what):
        """Something that happened; part of the history."""
        self.steps += 1
        self.history.add(*what)
        if self.verbose:
            sys.__stderr__.write("    " + " ".join(str(w)[:200] for w in what) + "\n")

    def event(self, text):
        """The next event of the plan; False if it is left out of this run."""
        k = self.next_event
        self.next_event += 1
        if k in self.drop:
            return False
        self.history.add("event", k, text)
        if self.verbose:
            sys.__stderr__.write("[%d] %s\n" % (k, text))
        return True


class Tasks:
    """Threads of which exactly one runs at a time; the seed decides which."""

    def __init__(self, run, rate):
        self.run, self.rate = run, rate
        self.rng = run.rng("schedule")
        self.tasks = []
        self.current = None
        self.error = None
        self.cancel = False

    def spawn(self, name, fn):
        t = {"name": name, "fn": fn, "go": threading.Semaphore(0), "done": False, "id": len(self.tasks)}
        self.tasks.append(t)

    def run_all(self):
        self.main = threading.Semaphore(0)
        for t in self.tasks:
            t["thread"] = threading.Thread(target=self._body, args=(t,), daemon=True)
            t["thread"].start()
        first = self.tasks[self.rng.randrange(len(self.tasks))]
        self.current = first
        first["go"].release()
        self.main.acquire()
        for t in self.tasks:
            t["thread"].join()
        self.current = None
        if self.error is not None:
            raise self.error

    def _body(self, t):
        t["go"].acquire()
        try:
            if not self.cancel:
                t["fn"]()
        except Cancelled:
            pass
        except BaseException as e:  # a violation, or trouble in the simulator
            if self.error is None:
                self.error = e
            self.cancel = True
        t["done"] = True
        rest = [x for x in self.tasks if not x["done"]]
        if not rest:
            self.main.release()
            return
        n = rest[self.rng.randrange(len(rest))]
        self.current = n
        n["go"].release()

    def me(self):
        return self.current

    def point(self):
        """A place where another task may be chosen."""
        if self.current is None:
            return
        if self.cancel:
            raise Cancelled()
        self.run.steps += 1
        if len(self.tasks) < 2 or self.rng.random() >= self.rate:
            return
        rest = [x for x in self.tasks if not x["done"]]
        n = rest[self.rng.randrange(len(rest))]
        if n is self.current:
            return
        if self.run.max_switches is not None and self.run.switches >= self.run.max_switches:
            return
        self.run.switches += 1
        self.run.count("task_switches")
        self.run.schedule.add(n["id"], self.run.steps)
        if self.run.verbose:
            sys.__stderr__.write("    ---- switch to %s at step %d\n" % (n["name"], self.run.steps))
        me = self.current
        self.current = n
        n["go"].release()
        me["go"].acquire()
        if self.cancel:
            raise Cancelled()


def main(profiles):
    a = sys.argv[1:]
    o = {"profile": None, "seed": 1, "count": 1, "stride": 1, "time": 0.0, "drop": "", "max-switches": None, "hashfile": None}
    flags = set()
    i = 0
    while i < len(a):
        k = a[i][2:]
        if k in ("verbose", "dump", "hashes"):
            flags.add(k)
            i += 1
        else:
            o[k] = a[i + 1]
            i += 2
    os.environ["LCE_CACHE"] = o.get("cache", "/tmp")
    prof = profiles[o["profile"]]()
    drop = [int(x) for x in o["drop"].split(",") if x]
    ms = None if o["max-switches"] is None else int(o["max-switches"])
    stop = []
    signal.signal(signal.SIGTERM, lambda *_: stop.append(1))
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    hf = open(o["hashfile"], "wb") if o["hashfile"] else None
    counts, runs, rc, t0 = {}, 0, 0, time.time()
    limit = float(o["time"])
    out = sys.__stdout__
    seed, last = int(o["seed"]), int(o["count"])
    while runs < last and not stop and (not limit or time.time() - t0 < limit):
        r = Run(seed, drop, ms, "verbose" in flags, counts)
        message = None
        try:
            gc.disable()  # collections run between runs, not at a moment of their own
            prof.run(r)
        except Violation as v:
            message = str(v)
        except Exception:
            traceback.print_exc(file=sys.__stderr__)
            out.write("TROUBLE seed %d\n" % seed)
            out.flush()
            os._exit(4)
        if runs % 16 == 15:
            gc.collect()
        counts["simulated_steps"] = counts.get("simulated_steps", 0) + r.steps
        r.history.add(r.schedule.value(), r.out.value())
        hs = [r.history.value(), r.schedule.value() if r.switches else 0, r.shape.value()]
        if hf:
            hf.write(struct.pack("<QQQ", *hs))
        runs += 1
        line = "%d %016x %016x %016x %016x %d" % (seed, hs[0], hs[1], hs[2], r.out.value(), r.switches)
        if message is not None:
            out.write("VIOL %s %s\n" % (line, " ".join(message.split())))
            rc = 1
            out.flush()
            if "hashes" not in flags:
                break
        elif "hashes" in flags:
            out.write("OK %s\n" % line)
        seed += int(o["stride"])
    if hf:
        hf.close()
    if "dump" in flags:
        for k in sorted(counts):
            out.write("COUNT %s %d\n" % (k, counts[k]))
    out.write("SUMMARY runs %d seconds %.3f\n" % (runs, time.time() - t0))
    out.flush()
    close = getattr(prof, "close", None)
    if close:
        close()
    os._exit(rc)
