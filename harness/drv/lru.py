"""Replay behaviours of module LruCache on cosmic_profiles.common.caching.
in.pkl: list of (arrays, behaviour); out.pkl: list of {"done": steps replayed, "bad": None | mismatch}"""
import sys, pickle, threading, queue
import numpy as np
import cosmic_profiles
from cosmic_profiles.common import caching, config

FORMS = [((1,), {}), ((1.0,), {}), ((True,), {}), ((2,), {}), (("s1",), {}), (("s2",), {}), ((1, 2), {}), ((2, 1), {}),
         (((1, 2),), {}), ((1,), {"b": 2}), ((), {"a": 1, "b": 2}), ((), {"b": 1, "a": 2}), ((), {"b": 2, "a": 1.0}),
         ((), {}), ((None,), {}), ((2.0, 1), {})]
F = np.float64
ARRAYS = [([1, 2, 3, 4], (2, 2), [5], (1,), [[1], [2, 3]], "s1"), ([1, 2, 3, 4], (4,), [5], (1,), [[1], [2, 3]], "s1"),
          ([1, 2, 3, 4], (4, 1), [5], (1,), [[1], [2, 3]], "s1"), ([1, 2, 3, 4], (2, 2), [5], (1,), [[1, 2], [3]], "s1"),
          ([1, 2, 3, 4], (2, 2), [5], (1,), [[1], [2, 3]], "s2"), ([1, 2, 3, 4], (2, 2), [6], (1,), [[1], [2, 3]], "s1"),
          ([1, 2, 3, 4.5], (2, 2), [5], (1,), [[1], [2, 3]], "s1"), ([4, 3, 2, 1], (2, 2), [5], (1,), [[1], [2, 3]], "s1"),
          ([1, 2, 3], (3,), [4, 5], (2,), [[]], "1"), ([1, 2], (2,), [3, 4, 5], (3,), [[]], "1"), ([1, 2], (2,), [3, 4, 5], (3,), [], "1"),
          ([1, 2], (2, 1, 1), [3, 4, 5], (3,), [], "2"),
          ([1, 2, 3, 4.000000000000001], (2, 2), [5], (1,), [[1], [2, 3]], "s1"),
          ([1, 2, 3, 3.9999999], (2, 2), [5], (1,), [[1], [2, 3]], "s1"),
          ([1, 2, 3, 1e-9], (2, 2), [5], (1,), [[1], [2, 3]], "s1"),
          ([1, 2, 3, 2e-9], (2, 2), [5], (1,), [[1], [2, 3]], "s1"),
          ([1, 2, 3, 1e300], (2, 2), [5], (1,), [[1], [2, 3]], "s1"),
          ([1, 2, 3, -4], (2, 2), [5], (1,), [[1], [2, 3]], "s1"),
          ([1, 2, 3, 4], (2, 2), [5], (1,), [[1], [2, 3000000001]], "s1"),
          ([1, 2, 3, 4], (2, 2), [5], (1,), [[1], [2, 3000000002]], "s1"),
          ([1, 2, 3, 4], (2, 2), [], (0,), [[1], [2, 3]], "s1"),
          ([], (0, 2), [5], (1,), [[1], [2, 3]], "s1"),
          ([], (2, 0), [5], (1,), [[1], [2, 3]], "s1")]


def array_args(f):
    a, da, b, db, l, p = ARRAYS[f]
    return (np.array(a, F).reshape(da), np.array(b, np.int32).reshape(db), [list(r) for r in l], p)


class Mem:
    def __init__(self):
        self.available = 1 << 60


MEM = Mem()


class FakePsutil:
    @staticmethod
    def virtual_memory():
        return MEM


caching.psutil = FakePsutil
real_update = (config.updateCachingMaxGBs, config.updateCachingMaxSize)


GB = 1024 ** 3
AVAIL = {1: 2 * GB - 1, 2: 2 * GB, 4: 5 * GB - 1, 5: 5 * GB}


def set_limit(mode, mx):
    """A limit by memory leaves the configured number of entries as it is."""
    config.updateCachingMaxGBs(mx if mode == "memory" else False)
    if mode != "memory":
        config.updateCachingMaxSize({"lru": mx, "unbounded": None, "none": 0}[mode])


class Boom(Exception):
    pass


class Replay:
    """One worker thread per model thread; the memoised function waits until the behaviour finishes it."""
    def __init__(self, arrays, beh):
        self.arrays, self.beh = arrays, beh
        self.entered = queue.Queue()
        self.resume, self.cmd, self.ret = {}, {}, {}
        self.local = threading.local()
        self.number = {}
        first = beh["ops"][0]
        MEM.available = AVAIL[5]
        if arrays:
            set_limit(first["mode"], first["max"])

            def fn(a, b, l, p):
                return self.body((a, b, l, p), {})
            self.fn = fn
            self.f = caching.np_cache_factory(2, 1)(fn)
        else:
            def fn(*args, **kw):
                "doc"
                return self.body(args, kw)
            self.fn = fn
            m, mx = first["mode"], first["max"]
            kw = {"lru": {"maxsize": mx}, "unbounded": {"maxsize": None}, "none": {"maxsize": 0}, "memory": {"maxsize": 7, "use_memory_up_to": mx * GB}}[m]
            self.f = caching.lru_cache(typed=beh["typed"], **kw)(fn)

    def body(self, args, kw):
        t = self.local.t
        self.ret[t].put(("entered", args, kw))
        what = self.resume[t].get(timeout=20)
        if isinstance(what, str) and what == "fail":
            raise Boom()
        return what

    def worker(self, t):
        self.local.t = t
        while True:
            f = self.cmd[t].get()
            if f is None:
                return
            try:
                if self.arrays:
                    a = array_args(f - 1)
                    keep = pickle.dumps(a)
                    v = self.f(*a)
                    if pickle.dumps(a) != keep:
                        v = ("arguments changed", a)
                    self.ret[t].put(("returned", v))
                else:
                    a, k = FORMS[f - 1]
                    self.ret[t].put(("returned", self.f(*a, **dict(k))))
            except Boom:
                self.ret[t].put(("raised",))
            except Exception as e:
                self.ret[t].put(("error", repr(e)))

    def same_args(self, f, args, kw):
        if self.arrays:
            w = array_args(f - 1)
            return (all(isinstance(x, np.ndarray) and x.shape == y.shape and x.dtype == y.dtype and np.array_equal(x, y) for x, y in zip(args[:2], w[:2]))
                    and args[2] == w[2] and args[3] == w[3])
        a, k = FORMS[f - 1]
        return args == a and kw == k and [type(x) for x in args] == [type(x) for x in a] and {n: type(x) for n, x in kw.items()} == {n: type(x) for n, x in k.items()}

    def value(self, n):
        return np.array([n, n + 0.5]) if self.arrays else ("value", n)

    def is_value(self, v, n):
        return (isinstance(v, np.ndarray) and v.shape == (2,) and v.tolist() == [n, n + 0.5]) if self.arrays else v == ("value", n)

    def run(self):
        ths = []
        for t in sorted({o["t"] for o in self.beh["ops"] if o["t"]}):
            self.resume[t], self.cmd[t], self.ret[t] = queue.Queue(), queue.Queue(), queue.Queue()
            th = threading.Thread(target=self.worker, args=(t,), daemon=True)
            th.start()
            ths.append((t, th))
        done, bad, busy = 0, None, set()
        try:
            if self.f.__wrapped__ is not self.fn and not self.arrays or self.f.__name__ != "fn":
                bad = {"what": "wrapped", "got": repr(self.f)}
            for o in self.beh["ops"]:
                bad = bad or self.step(o, busy)
                if bad:
                    break
                done += 1
        finally:
            for t in list(busy):
                self.resume[t].put("fail")
            for t, th in ths:
                self.cmd[t].put(None)
            for t, th in ths:
                th.join(5)
        return {"done": done, "bad": bad}

    def get(self, t):
        try:
            return self.ret[t].get(timeout=10)
        except queue.Empty:
            return ("nothing",)

    def step(self, o, busy):
        k, t = o["op"], o["t"]
        if k in ("hit", "start"):
            self.cmd[t].put(o["f"])
            r = self.get(t)
            if r[0] == "entered":
                busy.add(t)
            if k == "hit":
                if r[0] != "returned" or not self.is_value(r[1], o["n"]):
                    return {"what": "hit", "expected": "value of computation %d without computing" % o["n"], "got": repr(r)[:300]}
            else:
                if r[0] != "entered":
                    return {"what": "start", "expected": "a computation", "got": repr(r)[:300]}
                if not self.same_args(o["f"], r[1], r[2]):
                    return {"what": "arguments", "expected": "the arguments of form %d" % o["f"], "got": repr(r)[:300]}
        elif k in ("finish", "fail"):
            self.resume[t].put("fail" if k == "fail" else self.value(o["n"]))
            busy.discard(t)
            r = self.get(t)
            if k == "fail" and r[0] != "raised":
                return {"what": "exception", "expected": "the exception of the function", "got": repr(r)[:300]}
            if k == "finish" and (r[0] != "returned" or not self.is_value(r[1], o["n"])):
                return {"what": "value", "expected": "value of computation %d" % o["n"], "got": repr(r)[:300]}
        elif k == "clear":
            self.f.cache_clear()
        elif k == "avail":
            MEM.available = AVAIL[o["n"]]
        elif k == "limit":
            if self.arrays:
                set_limit(o["mode"], o["max"])
            self.maxsize = {"lru": o["max"], "unbounded": None, "none": 0, "memory": None}[o["mode"]]
        elif k == "end":
            return None
        i = self.f.cache_info()
        if (i.hits, i.misses, i.currsize, i.maxsize) != (o["hits"], o["misses"], o["size"], self.maxsize):
            return {"what": "info", "expected": {"hits": o["hits"], "misses": o["misses"], "size": o["size"], "maxsize": self.maxsize}, "got": repr(i)}
        return None


def main():
    jobs = pickle.load(open(sys.argv[1], "rb"))
    out = [Replay(a, b).run() for a, b in jobs]
    pickle.dump(out, open(sys.argv[2], "wb"))


main()
