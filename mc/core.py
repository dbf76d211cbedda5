"""Exploration runtime: tiers, worker pool, counters, evidence, violations."""
import concurrent.futures as cf
import hashlib
import json
import multiprocessing
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
NPROC = int(os.environ.get("VERIF_PROCS") or max(1, min(8, os.cpu_count() or 1)))


def pick(quick, thorough):
    return thorough if THOROUGH else quick


class Violation(Exception):
    """A counterexample: text plus everything needed to replay it."""

    def __init__(self, text, **replay):
        super().__init__(text)
        self.text, self.replay = text, replay

    def __reduce__(self):
        return (_mkv, (self.text, self.replay))


def _mkv(text, replay):
    return Violation(text, **replay)


def h64(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        h.update(p if isinstance(p, bytes) else repr(p).encode())
        h.update(b"\0")
    return int.from_bytes(h.digest(), "big")


class Acc:
    """What a job covered."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.known = set()

    def state(self, *parts):
        self.states.add(h64(*parts))

    def sample(self, s, limit=2):
        if len(self.samples) < limit:
            self.samples.append(s)

    def bump(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n


def _run_job(fn, job):
    acc = Acc()
    t0 = time.process_time()
    try:
        fn(acc, *job)
        v = None
    except Violation as e:
        v = e
    except BaseException as e:  # code under test misbehaved in an unforeseen way
        from . import sut
        if isinstance(e, (KeyboardInterrupt, SystemExit)) and not _from_sut(e):
            raise
        if isinstance(e, sut.Crash) or isinstance(e, sut.Hang) or _from_sut(e):
            v = Violation(f"unexpected {type(e).__name__}: {e}",
                          job=repr(job)[:2000], trace=traceback.format_exc()[-4000:])
        elif isinstance(e, (LookupError, ValueError, StopIteration)):
            # what the code under test produced could not even be read (never happens on a tree where it converts)
            v = Violation(f"products or results do not have the expected form: {type(e).__name__}: {e}",
                          job=repr(job)[:2000], trace=traceback.format_exc()[-4000:])
        else:
            # a defect of the machinery itself: report as an internal error
            return acc, None, traceback.format_exc(), 0.0
    return acc, v, None, time.process_time() - t0


def _from_sut(e):
    """Did the exception originate in the code under test?"""
    from . import sut
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        if last.startswith(sut.REPO + "/"):
            return True
        tb = tb.tb_next
    return False


class Check:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.acc = Acc()
        self.t0 = time.time()
        self.assumptions = []
        self.rule = ""
        self.bounds = {}
        self.violation = None
        self.fresh = False      # workers provide pristine reference processes

    def run(self, fn, jobs, label=""):
        """Run fn(acc, *job) for all jobs on all cores; stop at the first violation."""
        jobs = list(jobs)
        t0 = time.time()
        before = (len(self.acc.states), self.acc.transitions)
        ctx = multiprocessing.get_context("fork")
        from . import fresh
        ex = cf.ProcessPoolExecutor(NPROC, mp_context=ctx, initializer=fresh.init if self.fresh else None)
        try:
            futs = [ex.submit(_run_job, fn, j) for j in jobs]
            for f in cf.as_completed(futs):
                try:
                    acc, v, err, _cpu = f.result()
                except cf.process.BrokenProcessPool:
                    acc, v, err = Acc(), Violation("the process running the code under test died"), None
                a = self.acc
                a.states |= acc.states
                a.transitions += acc.transitions
                a.traces += acc.traces
                a.known |= acc.known
                if len(a.samples) < 12:
                    a.samples += acc.samples[:2]
                for k, n in acc.extra.items():
                    a.extra[k] = a.extra.get(k, 0) + n
                if err:
                    print("internal error of the check:\n" + err, file=sys.stderr)
                    for g in futs:
                        g.cancel()
                    ex.shutdown(wait=False, cancel_futures=True)
                    _kill(ex)
                    sys.exit(3)
                if v is not None:
                    self.violation = v
                    raise v
        finally:
            for f in futs:
                f.cancel()
            if self.violation is not None:
                _kill(ex)
            ex.shutdown(wait=True, cancel_futures=True)
        if label:
            print(f"  {label}: {len(jobs)} jobs, {time.time() - t0:.1f} s, "
                  f"+{len(self.acc.states) - before[0]} states, "
                  f"+{self.acc.transitions - before[1]} transitions", flush=True)

    def finish(self):
        a = self.acc
        for k in sorted(a.known):
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        cov = {"samples": a.samples[:12], "bounds": self.bounds}
        cov.update(a.extra)
        if self.level == "model_checking":
            cov.update(states=len(a.states), transitions=a.transitions,
                       traces_validated_against_impl=a.traces)
        else:
            cov.update(evaluations=a.traces, distinct_nontrivial=len(a.states), rule=self.rule,
                       steps=a.transitions)
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 3),
              "violations": 0 if self.violation is None else 1}
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        if self.violation is None:
            print(f"{self.prop}: held on {len(a.states)} states, {a.transitions} transitions, "
                  f"{a.traces} traces ({ev['wall_s']} s, {TIER})")
            return 0
        v = self.violation
        rd = os.path.join(ROOT, "replay")
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, f"{self.prop}.json")
        rec = {"property": self.prop, "what": v.text, "tier": TIER, "seed": SEED}
        for k, x in v.replay.items():
            rec[k] = x.hex() if isinstance(x, (bytes, bytearray)) else x
        with open(p, "w") as f:
            json.dump(rec, f, indent=1, default=str)
            f.write("\n")
        print(f"  {v.text[:1500]}")
        print(f"VIOLATION property={self.prop} replay={p}")
        return 1


def _kill(ex):
    for p in list((getattr(ex, "_processes", None) or {}).values()):
        try:
            p.kill()
        except Exception:
            pass


def chunks(seq, n):
    seq = list(seq)
    for i in range(0, len(seq), n):
        yield seq[i:i + n]
