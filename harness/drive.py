"""Driver process: exercises the public API of komm and records sessions (ndjson)."""
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import zlib

import numpy as np

INF = 2_000_000_000   # sentinel for +infinity in fixed-point numbers
NAN = 2_000_000_001   # sentinel for NaN


class CallTimeout(Exception):
    pass


class Malformed(Exception):
    pass


class TooManyTimeouts(BaseException):
    pass


def _alarm(signum, frame):
    raise CallTimeout()


# ---- shapes: convert a raw result to JSON the specification can read, or refuse it ----
def S_int(v):
    if isinstance(v, (bool, np.bool_)):
        raise Malformed(f"bool {v!r} instead of integer")
    if isinstance(v, np.ndarray) and v.ndim == 0:
        v = v.item()
    if isinstance(v, (float, np.floating)) and float(v).is_integer():
        v = int(v)
    if not isinstance(v, (int, np.integer)):
        raise Malformed(f"{type(v).__name__} {v!r} instead of integer"[:120])
    v = int(v)
    if abs(v) >= 2**31:
        raise Malformed(f"integer {v} out of range")
    return v


def S_bool(v):
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    raise Malformed(f"{v!r} instead of boolean"[:120])


def S_ints(v):
    if isinstance(v, np.ndarray):
        if v.ndim != 1:
            raise Malformed(f"array of shape {v.shape} instead of a vector")
        v = v.tolist()
    return [S_int(x) for x in v]


def S_ints2(v):
    if isinstance(v, np.ndarray):
        if v.ndim != 2:
            raise Malformed(f"array of shape {v.shape} instead of a matrix")
        return [S_ints(r) for r in v]
    return [S_ints(r) for r in v]


def S_set(v):
    return sorted(S_int(x) for x in v)


def S_sets(v):
    return [S_set(x) for x in v]


def S_nd(v):
    """array of any shape, as shape + flat data"""
    v = np.asarray(v)
    if v.dtype == bool:   # binary data: True is 1
        v = v.astype(int)
    return {"shape": list(v.shape), "d": [S_int(x) for x in v.ravel().tolist()]}


def S_words(v):
    return [S_ints(list(w)) for w in v]


def S_str(v):
    return str(v)


def S_tokens(v):
    return [S_ints(list(t)) for t in v]


def fx(scale):
    def S_fx(v):
        v = float(v)
        if v != v:
            return NAN
        if v == float("inf") or v * scale >= 1.9e9:
            return INF
        if v == float("-inf") or v * scale <= -1.9e9:
            return -INF
        return int(round(v * scale))
    return S_fx


def fxs(scale):
    f = fx(scale)

    def S_fxs(v):
        v = np.asarray(v)
        if v.ndim != 1:
            raise Malformed(f"array of shape {v.shape} instead of a vector")
        return [f(x) for x in v.tolist()]
    return S_fxs


def fxs2(scale):
    f = fxs(scale)

    def S_fxs2(v):
        v = np.asarray(v)
        if v.ndim != 2:
            raise Malformed(f"array of shape {v.shape} instead of a matrix")
        return [f(x) for x in v]
    return S_fxs2


def S_bits_of(v):
    """non-negative integer of any size as a list of bits, least significant first"""
    if isinstance(v, (bool, np.bool_)) or not isinstance(v, (int, np.integer)) or int(v) < 0:
        raise Malformed(f"{v!r} instead of a non-negative integer"[:120])
    v = int(v)
    return [int(b) for b in bin(v)[:1:-1]] if v else []


def S_none(v):
    return 0


class Session:
    def __init__(self, ctx, sid, spec=None, **fields):
        self.ctx = ctx
        self.d = {"id": sid, **fields, "ev": []}
        self.ended = False
        ctx.opened.append(self)
        if spec:
            self.d["spec"] = spec

    def call(self, op, fn, shape, timeout=20, **args):
        """Record one call; returns (ok, raw value)."""
        e = {"op": op, **args}
        ok, raw, out = self.ctx.call(fn, shape, timeout)
        e.update(out)
        self.d["ev"].append(e)
        return ok, raw

    def note(self, op, **args):
        self.d["ev"].append({"op": op, "ok": True, **args})

    def end(self):
        if self.d["ev"] and not self.ended:
            self.ended = True
            self.ctx.sessions.append(self.d)
        self.ctx.opened = [s for s in self.ctx.opened if s is not self]


class Ctx:
    def __init__(self, prop, part, tier, seed):
        self.prop, self.part, self.tier, self.seed = prop, part, tier, seed
        h = zlib.crc32(f"{prop}/{part}".encode())
        self.rng = random.Random(seed * 1_000_003 + h)
        self.np = np.random.default_rng([seed & 0x7FFFFFFF, h])
        self.sessions = []
        self.timeouts = 0
        self.opened = []
        self.count = 0

    def gen(self, model):
        """Behaviours the design specification `model` generated, for replay."""
        with open(os.environ["KV_GEN"]) as f:
            return json.load(f)[model]

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def session(self, _kind, **fields):
        self.enough()
        self.count += 1
        return Session(self, f"{self.part}/{_kind}/{self.count}", **fields)

    def enough(self):
        """This part keeps hanging: what was recorded is enough to reject."""
        if self.timeouts >= 3:
            raise TooManyTimeouts()

    def call(self, fn, shape, timeout=20):
        self.enough()
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, timeout)
        returned = False
        try:
            raw = fn()
            returned = True
            signal.setitimer(signal.ITIMER_REAL, 0)
            return True, raw, {"ok": True, "v": shape(raw)}
        except CallTimeout:
            self.timeouts += 1
            return False, None, {"ok": False, "refused": False, "err": "timeout"}
        except Malformed as ex:
            return False, None, {"ok": False, "refused": False, "err": "malformed: " + str(ex)}
        except TooManyTimeouts:
            raise
        except BaseException as ex:  # noqa: BLE001 - the outcome is recorded, the spec decides
            if isinstance(ex, (KeyboardInterrupt, SystemExit)) and False:
                raise
            return False, None, {"ok": False, "refused": not returned, "err": type(ex).__name__}
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)


def _norm(o):
    if isinstance(o, dict):
        return {k: _norm(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_norm(v) for v in o]
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.ndarray):
        return _norm(o.tolist())
    if isinstance(o, float):
        raise TypeError("raw float in a trace")
    if isinstance(o, int) and not isinstance(o, bool) and abs(o) >= 2**31:
        raise TypeError("integer beyond TLC range in a trace")
    return o


def run_part(a):
    prop, modname, fname, tier, seed = a
    t = time.time()
    ctx = Ctx(prop, fname, tier, seed)
    fn = getattr(importlib.import_module(modname), fname)
    try:
        fn(ctx)
        return fname, [json.dumps(_norm(s), separators=(",", ":")) for s in ctx.sessions], None, time.time() - t
    except TooManyTimeouts:
        for s in ctx.opened:
            s.end()
        return fname, [json.dumps(_norm(s), separators=(",", ":")) for s in ctx.sessions], None, time.time() - t
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        if any("/src/komm/" in fr.filename for fr in tb):
            # the implementation failed where no failure is foreseen: an unexplained event
            ctx.sessions.append({"id": f"{fname}/crash/0", "spec": "CrashTrace",
                                 "ev": [{"op": "crash", "ok": False, "err": repr(ex)[:200],
                                         "where": f"{tb[-1].filename}:{tb[-1].lineno}"}]})
            return fname, [json.dumps(_norm(s), separators=(",", ":")) for s in ctx.sessions], None, time.time() - t
        return fname, [], traceback.format_exc(), time.time() - t


def main():
    prop, out = sys.argv[1], sys.argv[2]
    from .registry import REG
    reg = REG[prop]
    tier, seed = os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1") or 1)
    jobs = [(prop, "drivers." + d.rsplit(".", 1)[0], d.rsplit(".", 1)[1], tier, seed) for d in reg["drivers"]]
    bad = False
    with open(out, "w") as f, mp.get_context("fork").Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
        for name, lines, err, dt in pool.imap(run_part, jobs, chunksize=1):
            print(f"part {name}: {len(lines)} sessions {dt:.1f}s", flush=True)
            if err:
                bad = True
                print(f"part {name} failed:\n{err}")
            for l in lines:
                f.write(l + "\n")
    sys.exit(3 if bad else 0)


if __name__ == "__main__":
    main()
