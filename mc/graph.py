"""Generic walk over the object graph of the code under test (state identity, retained memory)."""
import collections
import enum
import functools
import io
import types

_ATOM = (int, float, complex, str, bool, type(None), bytes)


def _parts(o):
    """Children of an object that belong to its state."""
    if isinstance(o, dict):
        for k, v in o.items():
            yield k
            yield v
    elif isinstance(o, (list, tuple, set, frozenset, collections.deque)):
        yield from o
    elif isinstance(o, functools.partial):
        yield o.func
        yield o.args
        yield o.keywords
    elif isinstance(o, types.MethodType):
        yield o.__self__
    elif isinstance(o, types.FunctionType):
        for c in o.__closure__ or ():
            try:
                yield c.cell_contents
            except ValueError:
                pass
        if o.__defaults__:
            yield o.__defaults__
    elif isinstance(o, types.GeneratorType):
        if o.gi_frame is not None:
            yield o.gi_frame.f_lasti
            yield dict(o.gi_frame.f_locals)
    elif isinstance(o, (memoryview, bytearray)):
        yield bytes(o)
    elif isinstance(o, io.BytesIO):
        yield o.getvalue()
        yield o.tell()
    elif isinstance(o, (type, types.ModuleType, types.BuiltinFunctionType, io.IOBase, enum.Enum)):
        return
    else:
        d = getattr(o, "__dict__", None)
        if isinstance(d, dict):
            yield d
        for c in type(o).__mro__:
            for s in getattr(c, "__slots__", ()) if not isinstance(getattr(c, "__slots__", ()), str) \
                    else (c.__slots__,):
                try:
                    yield getattr(o, s)
                except AttributeError:
                    pass


def _name(o):
    if isinstance(o, (type, types.FunctionType, types.BuiltinFunctionType)):
        return o.__module__ or "", o.__qualname__
    if isinstance(o, types.MethodType):
        return "m", o.__func__.__qualname__
    return type(o).__module__, type(o).__qualname__


def dump(root):
    """A hashable fingerprint of the state reachable from root."""
    seen = {}
    keep = []
    out = []

    def walk(o, depth):
        if isinstance(o, _ATOM):
            out.append((type(o).__name__, o))
            return
        i = id(o)
        if i in seen:
            out.append(("ref", seen[i]))
            return
        seen[i] = len(seen)
        keep.append(o)
        out.append(_name(o))
        if depth > 60:
            return
        ch = list(_parts(o))
        if isinstance(o, (set, frozenset)):
            if all(isinstance(x, _ATOM) for x in ch):
                ch = sorted(ch, key=repr)
            else:
                ch = sorted(ch, key=lambda x: repr(_name(x)))
        out.append(len(ch))
        for x in ch:
            walk(x, depth + 1)

    walk(root, 0)
    return tuple(out)


def retained(root):
    """(bytes of text/binary data, number of objects) reachable from root."""
    seen = set()
    keep = []
    nbytes = nobj = 0
    st = [root]
    while st:
        o = st.pop()
        if isinstance(o, (bytes, str)):
            if id(o) in seen:
                continue
            seen.add(id(o))
            keep.append(o)
            nbytes += len(o)
            nobj += 1
            continue
        if isinstance(o, _ATOM):
            continue
        if id(o) in seen:
            continue
        seen.add(id(o))
        keep.append(o)
        if isinstance(o, (bytearray, memoryview)):
            nbytes += len(bytes(o))
            nobj += 1
            continue
        nobj += 1
        # containers of plain numbers still occupy memory
        if isinstance(o, (list, tuple, set, frozenset, dict, collections.deque)):
            nobj += len(o)
        st.extend(_parts(o))
    return nbytes, nobj
