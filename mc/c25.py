"""C25: comparison and copying of data objects: all types x all single- and two-field differences x value classes."""
import dataclasses
import itertools
import math
from fractions import Fraction

from . import graph, lib, ref, sut
from .core import Violation, pick

LEVEL = "model_checking"
NOTE = ("all data types x fields x ordered pairs of values of each class (floats just inside and outside the tolerance, NaN, "
        "signed zero, tiny, huge; nested containers), exact rational oracle; copies mutated field by field")

TOLS = (None, 0.0, 1e-15, 1e-12, 1e-9, 1e-6, 1e-3, 0.03, 0.25, 0.6, 0.95, 1.5)


def types():
    t = sut.load().types
    out = {}
    for n in dir(t):
        c = getattr(t, n)
        if isinstance(c, type) and dataclasses.is_dataclass(c) and issubclass(c, t.DataClassMethods) \
                and c is not t.DataClassMethods:
            out[n] = c
    return out


def fill(c, seed=0):
    """An object with a distinct plain value in every field."""
    o = c()
    for i, f in enumerate(dataclasses.fields(c)):
        d = getattr(o, f.name)
        if isinstance(d, str):
            v = f"text{i + seed}"
        elif isinstance(d, dict):
            v = {1001: (1, 10 + seed), 1009: (0, 0.5)}
        elif isinstance(d, (list, tuple)):
            v = type(d)([i, 2.5])
        elif "float" in str(f.type):
            v = 100.25 * (i + 1) + seed
        else:
            v = i + 1 + seed
        setattr(o, f.name, v)
    return o


def fclose(a, b, tol):
    """True / False / None (too close to the limit to call)."""
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    fa, fb, t = Fraction(a), Fraction(b), Fraction(tol)
    if abs(fb) > t:
        if abs(fb) < t * Fraction(21, 20):
            return None
        d = abs((fb - fa) / fb)
    else:
        if abs(fb) > t * Fraction(19, 20):
            return None
        d = abs(fb - fa)
    if abs(d - t) < t * Fraction(1, 20) and d != 0:
        return None
    # rounding of the quotient and of the difference
    if d != 0 and abs(d - t) < Fraction(1, 2 ** 51):
        return None
    return d < t


def match(a, b, tol):
    """Oracle for values of the same class."""
    if type(a) is not type(b):
        return None
    if isinstance(a, float):
        return fclose(a, b, tol)
    if isinstance(a, dict):
        if a.keys() != b.keys():
            return False
        rs = [match(a[k], b[k], tol) for k in a]
    elif isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return False
        rs = [match(x, y, tol) for x, y in zip(a, b)]
    else:
        return a == b
    return False if False in rs else None if None in rs else True


def floats(tol):
    v = {0.0, -0.0, 1.0, -1.0, 12345.678, -12345.678, 1e300, -1e300, 5e-324, -5e-324, 1e-300, 3.0, 2.0}
    for b in (1.0, -1.0, 12345.678, -12345.678, 1e300, -1e300, 1e-8, -1e-8):
        for k in (0.25, 0.5, 0.9, 1.2, 2.0, 10.0):
            v |= {b * (1 + k * tol), b * (1 - k * tol)}
    for k in (0.1, 0.5, 0.9, 1.2, 2.0, 5.0):
        v |= {k * tol, -k * tol}
    return sorted(v | {math.inf, -math.inf}) + [math.nan]


INTS = [0, 1, -1, 2, 3, 255, 256, -256, 1 << 37, -(1 << 37), (1 << 37) + 1, 10 ** 15, 10 ** 15 + 1, 10 ** 18, 10 ** 18 + 1]
STRS = ["", "a", "A", "ab", "ba", "a ", " a", "é", "日本", "1", "nan", "a\0"]
BOOLS = [True, False]


def boxes(tol):
    t = tol
    base = {1001: (1, 10), 1009: (0, 0.5)}
    return [{}, {1001: (1, 10)}, {1009: (0, 0.5)}, base, {1001: (1, 11), 1009: (0, 0.5)}, {1001: (2, 10), 1009: (0, 0.5)},
            {1001: (1, 10), 1009: (0, 0.5 * (1 + 0.4 * t))}, {1001: (1, 10), 1009: (0, 0.5 * (1 + 3 * t))},
            {1001: (1, 10), 1010: (0, 0.5)}, {1001: (1, 10), 1009: (0, 0.5), 1010: (0, 0.5)},
            {1001: (1, 10, 0), 1009: (0, 0.5)}, {1001: (1,), 1009: (0, 0.5)}, {1001: (), 1009: (0, 0.5)},
            {1001: (1, 10), 1009: (0, math.nan)}, {1001: (0, 0.5), 1009: (1, 10)}, {1001: (1, 10), 1009: (0, -0.5)},
            {1001: [1, 10], 1009: [0, 0.5]}, {1001: [1, 10], 1009: [0, 0.5, 0]}, {1001: {2: 0.5}}, {1001: {2: 0.6}},
            {1001: {2: 0.5, 3: 1}}, {1001: "ab"}, {1001: "ac"}, {1001: ("a", "b")}, {1001: ("a", "c")},
            {1001: ((1, 2), (3, 4))}, {1001: ((1, 2), (3, 5))}, {1001: ((1, 2), (3,))}]


LISTS = [[], [1], [2], [1, 2], [2, 1], [1, 2, 3], [0.5], [0.5, 0.5], [0.5, math.nan], ["a"], ["b"], [[1], [2]], [[1], [3]]]


def call(a, b, tol):
    with sut.guard(20):
        return a.compare(b) if tol is None else a.compare(b, tol)


def expect(acc, a, b, tol, want, what):
    da, db = graph.dump(a), graph.dump(b)
    try:
        got = call(a, b, tol)
    except Exception as e:
        raise Violation(f"{what}: comparison raised {type(e).__name__}: {e}")
    acc.transitions += 1
    if graph.dump(a) != da or graph.dump(b) != db:
        raise Violation(f"{what}: comparison modified an object")
    if want is not None and bool(got) is not want:
        raise Violation(f"{what}, tolerance {tol}: compared {'equal' if got else 'different'}")


def classes_of(f, d, tol):
    """Value classes a field may hold."""
    if isinstance(d, dict):
        return [boxes(tol)]
    if isinstance(d, str):
        return [STRS]
    if isinstance(d, (list, tuple)):
        return [[type(d)(x) for x in LISTS]]
    t = str(f.type)
    out = [INTS]
    if "float" in t:
        out.append(floats(tol))
    if "bool" in t:
        out.append(BOOLS)
    if "str" in t:
        out.append(STRS)
    return out


def job_single(acc, name, tol, every):
    """All ordered pairs of values of every class in every field, all other fields equal."""
    c = types()[name]
    real = 1e-15 if tol is None else tol
    seen = False
    for i, f in enumerate(dataclasses.fields(c)):
        for vals in classes_of(f, getattr(c(), f.name), real):
            sub = vals
            if not every and isinstance(vals[0], float):
                if seen:
                    sub = vals[i % 9::9] + vals[-1:]
                seen = True
            for x, y in itertools.product(sub, repeat=2):
                a, b = fill(c), fill(c)
                setattr(a, f.name, x)
                setattr(b, f.name, y)
                expect(acc, a, b, tol, match(x, y, real), f"{name} with {f.name} = {x!r} and {y!r}")
                acc.traces += 1
                acc.state(f.type if every else "", type(x).__name__, repr(x), repr(y), tol)
            acc.state(name, f.name, tol, len(sub))
    acc.sample({"type": name, "fields": len(dataclasses.fields(c)), "tolerance": tol}, 1)


def job_pairs(acc, name):
    """Differences in any two fields, and NaN or in-tolerance differences beside a real one."""
    c = types()[name]
    fs = dataclasses.fields(c)
    alt = fill(c, 7)
    for f, g in itertools.product(fs, repeat=2):
        for same in (False, True):
            a, b = fill(c), fill(c)
            setattr(b, f.name, getattr(alt, f.name))
            d1 = match(getattr(a, f.name), getattr(b, f.name), 1e-15)
            if same:   # an equal special value elsewhere
                if not isinstance(getattr(a, g.name), float) or f is g:
                    continue
                setattr(a, g.name, math.nan)
                setattr(b, g.name, math.nan)
                want = d1
            else:
                setattr(b, g.name, getattr(alt, g.name))
                d2 = match(getattr(a, g.name), getattr(b, g.name), 1e-15)
                want = d1 and d2
            expect(acc, a, b, None, want, f"{name} with different {f.name} and {g.name}")
            expect(acc, b, a, None, want, f"{name} with different {f.name} and {g.name}")
            acc.traces += 2
            acc.state(name, f.name, g.name, same)


ALIENS = [None, "", "0", "1", "5", "1.5", "nan", "None", "True", "[]", "{}", "a", [], {}, (), [5], (5,), {5: 5}, ["5"], b"5", b"", {"5"}, True, 5, 1.5, 0,
          math.nan, 0.0, False, object]


def kind_of(x):
    """Classes of values that never match each other."""
    return "number" if isinstance(x, (int, float)) else "seq" if isinstance(x, (list, tuple)) else type(x).__name__


def job_cross(acc, name):
    """Values of different classes in the same field, also inside containers."""
    c = types()[name]
    for f in dataclasses.fields(c):
        for x, y in itertools.permutations(ALIENS, 2):
            if kind_of(x) == kind_of(y):
                continue
            for wrap in (lambda v: v, lambda v: [v], lambda v: {1: v}, lambda v: (1, (2, v))):
                a, b = fill(c), fill(c)
                setattr(a, f.name, wrap(x))
                setattr(b, f.name, wrap(y))
                try:
                    got = call(a, b, None)
                except Exception:
                    got = False   # not data of the decoder: a refusal is as good
                acc.transitions += 1
                if got:
                    raise Violation(f"{name} with {f.name} = {wrap(x)!r} and {wrap(y)!r}: compared equal")
        acc.traces += 1
        acc.state("cross", name, f.name)


def job_types(acc, name):
    """Objects of different types never match; no exception either way."""
    ts = types()
    for other in ts:
        for a, b in ((ts[name](), ts[other]()), (fill(ts[name]), fill(ts[other]))):
            expect(acc, a, b, None, name == other, f"{name} compared with {other}")
            acc.traces += 1
            acc.state(name, other, repr(a)[:80])
    for alien in (None, 0, "x", {}, [], 1.5):
        expect(acc, fill(ts[name]), alien, None, False, f"{name} compared with {alien!r}")
        acc.traces += 1


def job_copy(acc, name):
    """Copies are equal; changing any field of a copy (or the inside of a deep copy) leaves the original alone."""
    c = types()[name]
    for src in (c(), fill(c), nanned(c)):
        for kind in ("copy", "deepcopy"):
            d0 = graph.dump(src)
            with sut.guard(10):
                k = getattr(src, kind)()
            if k is src or type(k) is not c:
                raise Violation(f"{name}: {kind} is not a new object of the same type")
            if graph.dump(src) != d0:
                raise Violation(f"{name}: {kind} modified the original")
            expect(acc, src, k, None, True, f"{name} and its {kind}")
            expect(acc, k, src, None, True, f"{name} and its {kind}")
            for f in dataclasses.fields(c):
                x, y = getattr(src, f.name), getattr(k, f.name)
                if type(x) is not type(y) or match(x, y, 1e-15) is False:
                    raise Violation(f"{name}: {kind} has {f.name} = {y!r} instead of {x!r}")
            for f in dataclasses.fields(c):
                with sut.guard(10):
                    k = getattr(src, kind)()
                v = getattr(k, f.name)
                if kind == "deepcopy" and isinstance(v, dict):
                    for q in list(v):
                        if isinstance(v[q], list):
                            v[q].append(1)
                    v[4242] = (1, 1)
                elif kind == "deepcopy" and isinstance(v, list):
                    v.append(3)
                setattr(k, f.name, "changed")
                if graph.dump(src) != d0:
                    raise Violation(f"{name}: changing {f.name} of the {kind} changed the original")
                # and the other way round
                with sut.guard(10):
                    k = getattr(src, kind)()
                dk = graph.dump(k)
                old = getattr(src, f.name)
                setattr(src, f.name, "changed")
                ch = graph.dump(k) != dk
                setattr(src, f.name, old)
                if kind == "deepcopy" and isinstance(old, dict):
                    old[4243] = (0, 0)
                    ch = ch or graph.dump(k) != dk
                    del old[4243]
                if ch:
                    raise Violation(f"{name}: changing {f.name} of the original changed the {kind}")
                acc.transitions += 2
                acc.state(name, kind, f.name, repr(old)[:40])
            acc.traces += 1


def nested():
    """Data objects holding data objects (the harness's own types, built on the repository's base class)."""
    base = sut.load().types.DataClassMethods

    @dataclasses.dataclass
    class In(base):
        n: int = 1
        x: float = 2.0
        s: str = "t"

    @dataclasses.dataclass
    class Out(base):
        k: int = 5
        one: In = dataclasses.field(default_factory=In)
        many: list = dataclasses.field(default_factory=list)
        named: dict = dataclasses.field(default_factory=dict)

    return In, Out


def job_nested(acc, tol):
    """One nested value differs, in a field, a list or a dictionary of data objects."""
    In, Out = nested()
    real = 1e-15 if tol is None else tol
    for place in ("one", "many", "named"):
        for f, vals in (("n", INTS), ("x", floats(real)), ("s", STRS)):
            for x, y in itertools.product(vals, repeat=2):
                os_ = []
                for v in (x, y):
                    i = In(**{f: v})
                    os_.append(Out(**{place: i if place == "one" else [In(), i] if place == "many" else {"a": In(), "b": i}}))
                expect(acc, os_[0], os_[1], tol, match(x, y, real), f"nested object in {place} with {f} = {x!r} and {y!r}")
                acc.traces += 1
                acc.state(place, f, repr(x), repr(y), tol)
    a = Out(one=In(2), many=[In(3), In(4)], named={"q": In(5)})
    for b in (Out(one=In(2), many=[In(3)], named={"q": In(5)}), Out(one=In(2), many=[In(4), In(3)], named={"q": In(5)}),
              Out(one=In(2), many=[In(3), In(4)], named={}), Out(one=In(2), many=[In(3), In(4)], named={"r": In(5)}),
              Out(one=In(2), many=[In(3), In(4), In(4)], named={"q": In(5)})):
        expect(acc, a, b, tol, False, "nested containers of different length or keys")
        expect(acc, b, a, tol, False, "nested containers of different length or keys")
    d0 = graph.dump(a)
    with sut.guard(10):
        k = a.deepcopy()
    expect(acc, a, k, tol, True, "an object with nested objects and its deep copy")
    k.one.n, k.many[0].x, k.named["q"].s = 77, 7.5, "other"
    k.many.append(In())
    if graph.dump(a) != d0:
        raise Violation("changing nested objects of a deep copy changed the original")


def nanned(c):
    o = fill(c)
    for f in dataclasses.fields(c):
        v = getattr(o, f.name)
        if isinstance(v, float):
            setattr(o, f.name, math.nan)
        elif isinstance(v, dict):
            setattr(o, f.name, {1: [1, [2, 3]], 2: (1, math.nan)})
    return o


def job_decoded(acc, num, fmt):
    """Decoded objects: equal to the decoding of the same message, different from that of a different message."""
    with sut.Scratch() as sc:
        cv, _d = sut.converter(sc, fmt, sut.boxed(sc, ref.Cfg()))
        bare = fmt == "JSON-B"
        objs = []
        for s in range(1, pick(7, 16)):
            m = lib.good(num, s)
            with sut.guard(10):
                x, y = cv.decode(m), cv.decode(m)
            r = ref.decode(m, bare)
            if x is None or y is None or r is None or not hasattr(x, "compare"):
                continue
            expect(acc, x, y, None, True, f"two decodings of {m.hex()[:80]}")
            objs.append((x, repr(ref.json_object(r, ref.Cfg(), bare)), m))
            acc.traces += 1
            acc.state(num, fmt, m)
        for (x, p, m), (y, q, _n) in itertools.permutations(objs, 2):
            if p == q:
                continue
            want = same(x, y)
            expect(acc, x, y, None, want, f"decodings of different messages {num} ({m.hex()[:60]} ...)")
            acc.traces += 1


def same(x, y):
    rs = [match(getattr(x, f.name), getattr(y, f.name), 1e-15) for f in dataclasses.fields(x)]
    return False if False in rs else None


def run(c):
    names = sorted(types())
    c.bounds = {"types": names, "values per class": {"int": len(INTS), "float": len(floats(1e-9)), "str": len(STRS),
                                                     "container": len(boxes(1e-9))},
                "classes": f"all ordered pairs of {len(ALIENS)} values of different classes in every field and inside containers",
                "tolerances": TOLS, "differences": "all ordered value pairs in every field; all pairs of fields"}
    c.run(job_single, [(n, t, pick(t == 1e-9 and n in ("BaseSP", "BaseRPH"), True)) for n in names for t in TOLS],
          "single fields")
    c.run(job_pairs, [(n,) for n in names], "two fields")
    c.run(job_cross, [(n,) for n in names], "values of different classes")
    c.run(job_types, [(n,) for n in names], "types")
    c.run(job_nested, [(t,) for t in TOLS], "nested objects")
    c.run(job_copy, [(n,) for n in names], "copies")
    from . import rtcm as R
    nums = [n for n in R.JSON_FILE if not 1071 <= n <= 1137]
    c.run(job_decoded, [(n, f) for n in nums for f in ("JSON", "JSON-B")], "decoded objects")
