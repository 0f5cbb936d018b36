"""C50: the array, frame and series types of the library, used for validation with pydantic."""

import json
import typing
from typing import Annotated, Any, List, Optional, Union

import numpy as np
import pandas as pd
from pydantic import BaseModel, TypeAdapter, create_model, validate_call

from quantfinlib.train_test_split import _dtypes as T
from rv.core import snapshot
from rv.gens import any_index, coin, datetime_index, pick

RULE = "distinct (declared type, way it is used, class of the value, accepted or refused)"
REQUIRED = ["derived_class", "alias", "own", "adapter", "field", "parameter", "optional", "list", "union", "accepted", "refused", "serialised", "wildcard", "fixed_extent", "columns",
            "safe_cast", "unsafe_cast", "wrong_extent", "wrong_rank", "wrong_container", "missing_column", "wrong_element", "second_member", "repeated", "large", "empty"]


def metadata(alias):
    return typing.get_args(alias)[1]


Array, Series, Frame = type(metadata(T.IndexType)), type(metadata(typing.get_args(T.YTypeSeries)[0])), type(metadata(typing.get_args(T.XType)[1]))

# what the aliases of the splitter inputs declare: (container, element type, shape)
INT, FLT, BOOL = np.dtype("int64"), np.dtype("float64"), np.dtype("bool")
ARR1 = [("array", t, ("*",)) for t in (INT, FLT, BOOL)]
SER = [("series", t, "*") for t in (INT, FLT, BOOL)]
ALIASES = {
    "IndexType": ARR1[:1],
    "YTypeArray": ARR1,
    "YTypeSeries": SER,
    "YType": ARR1 + SER,
    "GroupType": [ARR1[0], SER[0], ("dates", None, "*")],
    "BoundPerFoldType": [("array", INT, ("*", 2))],
    "XType": [("array", Any, ("*", "*")), ("frame", None, "*")],
}
DTYPES = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64", "bool", "complex64", "complex128", "datetime64[ns]", "datetime64[us]",
          "timedelta64[ns]", "<U3", "object"]
# what each element type can be cast to without loss of information, from the definition of the types
BITS = {"i": lambda d: 8 * d.itemsize - 1, "u": lambda d: 8 * d.itemsize}
MANTISSA = {"float16": 11, "float32": 24, "float64": 53, "complex64": 24, "complex128": 53}
EXPO = {"float16": 5, "float32": 8, "float64": 11, "complex64": 8, "complex128": 11}


def castable(a, b):
    a, b = np.dtype(a), np.dtype(b)
    if a == b or b.kind == "O":
        return True
    k = a.kind + b.kind
    if a.kind == "b":
        return b.kind in "iufc" or None
    if a.kind in "iu":
        if b.kind == "i":
            return (a.itemsize < b.itemsize) if a.kind == "u" else a.itemsize <= b.itemsize
        if b.kind == "u":
            return a.kind == "u" and a.itemsize <= b.itemsize
        if b.kind in "fc":
            if a.itemsize == 8:  # numpy counts 64 bit integers as fitting in a double
                return b.name in ("float64", "complex128")
            return BITS[a.kind](a) <= MANTISSA[b.name]
        return None if b.kind in "mMU" else False
    if a.kind in "fc":
        if b.kind in "fc" and not (a.kind == "c" and b.kind == "f"):
            return MANTISSA[a.name] <= MANTISSA[b.name]
        return None if b.kind in "UmM" else False
    return None if k != "OO" else True


def fits(decl, v):
    """Does value v have the declared container, element type and shape? None where the declaration does not settle it."""
    kind, dt, shape = decl[:3]
    if kind == "dates":
        return isinstance(v, pd.DatetimeIndex)
    if kind == "array":
        if not isinstance(v, np.ndarray):
            return False
        if isinstance(shape, tuple) and (len(shape) != v.ndim or any(s != "*" and int(s) != n for s, n in zip(shape, v.shape))):
            return False
        return True if dt is Any else castable(v.dtype, dt)
    if kind == "series":
        if not isinstance(v, pd.Series):
            return False
        return (dt is None or v.dtype == dt) and (shape == "*" or len(v) == shape)
    if not isinstance(v, pd.DataFrame):
        return False
    cols = decl[3] if len(decl) > 3 else None
    if cols is not None:
        names = list(v.columns)
        if not all(c in names and v.dtypes.iloc[names.index(c)] == t for c, t in cols.items()):
            return False
    elif dt is not None and not all(t == dt for t in v.dtypes):
        return False
    return shape == "*" or tuple(v.shape) == tuple(shape)


def elements(rng, dt, shape):
    x = rng.integers(0, 90, size=shape)
    if np.dtype(dt).kind in "mM":
        return x.astype("int64").astype(dt)
    if np.dtype(dt).kind == "U":
        return x.astype(str).astype(dt)
    return x.astype(dt)


def extent(rng):
    if coin(rng, 0.02):
        return int(rng.integers(1000, 60000))
    return int(pick(rng, [0, 1, 2, 2, 3, 3, 4, 5, 7, 12]))


def a_type(rng):
    """A declared type and its description."""
    k = int(rng.integers(3))
    if k == 0:
        shape = pick(rng, ["*", tuple(pick(rng, ["*", extent(rng) % 13, str(extent(rng) % 13)]) for _ in range(int(rng.integers(1, 4))))])
        dt = Any if coin(rng, 0.2) else np.dtype(pick(rng, DTYPES[:14]))
        given = dt if dt is Any or coin(rng) else pick(rng, [dt.type, dt.name])
        return Annotated[np.ndarray, Array(shape=shape, dtype=given)], ("array", dt, shape)
    if k == 1:
        dt = None if coin(rng, 0.25) else np.dtype(pick(rng, [d for d in DTYPES if not d.startswith("<U") and d != "datetime64[us]" and d != "complex64"]))
        shape = pick(rng, ["*", extent(rng)])
        kw = dict(dtype=dt, shape=shape)
        if coin(rng):
            kw = {a: b for a, b in kw.items() if not (b is None or isinstance(b, str) and b == "*")}
        return Annotated[pd.Series, Series(**kw)], ("series", dt, shape)
    shape = pick(rng, ["*", (extent(rng), int(rng.integers(1, 5)))])
    if coin(rng):
        names = list("abcdefg")[: int(rng.integers(1, 5))]
        cols = {c: np.dtype(pick(rng, ["int64", "float64", "bool", "object", "datetime64[ns]", "float32"])) for c in names}
        return Annotated[pd.DataFrame, Frame(columns=cols, shape=shape)], ("frame", None, shape, cols)
    dt = None if coin(rng, 0.3) else np.dtype(pick(rng, ["int64", "float64", "bool", "float32"]))
    return Annotated[pd.DataFrame, Frame(dtype=dt, shape=shape)], ("frame", dt, shape)


def layout(rng, v):
    k = int(rng.integers(6))
    if k == 0:
        return np.asfortranarray(v)
    if k == 1 and v.ndim:
        return np.repeat(v, 2, axis=0)[::2]
    if k == 2:
        v = v.copy()
        v.setflags(write=False)
    if k == 3 and v.dtype.kind in "iufc":
        return v.astype(v.dtype.newbyteorder())
    return v


def a_value(rng, decl, mon):
    """A value that fits the declaration, or misses it in one respect."""
    kind, dt, shape = decl[:3]
    miss = pick(rng, [None, None, None, "element", "extent", "rank", "container"])
    if miss == "container":
        mon.seen("wrong_container")
        other = pick(rng, ["list", "array", "series", "frame", "dates", "scalar", "none", "index", "text", "nested"])
        if other == "array" and kind == "array":
            other = "list"
        if other == kind:
            other = "nested"
        n = max(1, extent(rng) % 13)
        v = dict(list=[1, 2, 3], array=np.arange(n), series=pd.Series(np.arange(float(n))), frame=pd.DataFrame({"a": np.arange(n)}), dates=datetime_index(rng, n), scalar=3, none=None,
                 index=pd.Index(range(n)), text="abc", nested=[np.arange(3)])[other]
        return v
    if kind == "dates":
        return datetime_index(rng, max(1, extent(rng)))
    if kind == "array":
        rank = len(shape) if isinstance(shape, tuple) else int(rng.integers(0, 4))
        dims = [extent(rng) % (13 if rank > 1 else 10**6) if not isinstance(shape, tuple) or s == "*" else int(s) for s in (shape if isinstance(shape, tuple) else ["*"] * rank)]
        if miss == "extent":
            i = int(rng.integers(rank)) if rank else 0
            if rank:
                dims[i] += 1 if coin(rng) or not dims[i] else -1
                mon.seen("wrong_extent", isinstance(shape, tuple) and shape[i] != "*")
        elif miss == "rank" and rank:
            dims = pick(rng, [dims + [1], [1] + dims, dims[:-1]])
            mon.seen("wrong_rank", isinstance(shape, tuple))
        t = pick(rng, DTYPES) if miss == "element" or dt is Any or coin(rng, 0.3) else dt
        if dt is not Any and np.dtype(t) != dt:
            mon.seen("safe_cast" if castable(t, dt) else "unsafe_cast")
        v = layout(rng, elements(rng, t, tuple(dims)))
        mon.seen("large", v.size > 500)
        mon.seen("empty", v.size == 0)
        return v
    if kind == "series":
        n = extent(rng) if shape == "*" else int(shape)
        if miss == "extent":
            n = max(0, n + int(pick(rng, [-1, 1])))
            mon.seen("wrong_extent", shape != "*")
        t = pick(rng, [d for d in DTYPES if not d.startswith("<U")]) if miss == "element" or dt is None else dt
        mon.seen("wrong_element", dt is not None and np.dtype(t) != dt)
        x = elements(rng, t, n)
        return pd.Series(x, index=any_index(rng, n) if n < 400 else None, name=pick(rng, [None, "y", 3]))
    n = extent(rng) if shape == "*" else int(shape[0])
    cols = decl[3] if len(decl) > 3 else None
    if cols is not None:
        names = list(cols) + (["extra"] if coin(rng, 0.3) else [])
        types = dict(cols, extra=np.dtype("float64"))
        if shape != "*" and coin(rng, 0.6):
            names = (list(cols) + ["more%d" % i for i in range(9)])[: max(shape[1], 1)]
            types.update({m: INT for m in names if m not in types})
        if miss == "rank" and len(names) > 1:
            names.pop(0)
            mon.seen("missing_column")
        if miss == "element":
            c = pick(rng, names)
            types[c] = pick(rng, [t for t in map(np.dtype, ["int64", "float64", "bool", "object", "int32"]) if t != types[c]])
            mon.seen("wrong_element", c in cols)
        names = [names[i] for i in rng.permutation(len(names))]
    else:
        d = int(rng.integers(1, 5)) if shape == "*" else int(shape[1])
        names = ["v%d" % i for i in range(d)]
        types = {c: dt if dt is not None else np.dtype(pick(rng, ["int64", "float64", "object"])) for c in names}
        if miss == "element":
            c = pick(rng, names)
            types[c] = np.dtype(pick(rng, ["int32", "complex128", "object"]))
            mon.seen("wrong_element", dt is not None)
    if miss == "extent":
        n = max(0, n + int(pick(rng, [-1, 1])))
        mon.seen("wrong_extent", shape != "*")
    return pd.DataFrame({c: elements(rng, types[c], n) for c in names}, index=any_index(rng, n) if n < 400 else None)


def use(mon, rng, typ):
    """A function that validates a value as a user does, and the name of the way."""
    way = pick(rng, ["adapter", "adapter", "field", "parameter", "optional", "list", "mapping"])
    mon.seen(way)
    if way == "adapter":
        ta = TypeAdapter(typ)
        return way, ta.validate_python
    if way == "field":
        model = create_model("Model", __config__=dict(arbitrary_types_allowed=True), value=(typ, ...), other=(int, 3))
        return way, lambda v: model(value=v).value
    if way == "parameter":
        def f(a: int, value, b: float = 1.0):
            return value

        f.__annotations__["value"] = typ
        g = validate_call(f, config=dict(arbitrary_types_allowed=True))
        return way, (lambda v: g(1, v)) if coin(rng) else (lambda v: g(value=v, a=2))
    if way == "optional":
        ta = TypeAdapter(Optional[typ])
        return way, ta.validate_python
    if way == "list":
        ta = TypeAdapter(List[typ])
        return way, lambda v: ta.validate_python([v])[0]
    ta = TypeAdapter(typing.Dict[str, typ])
    return way, lambda v: ta.validate_python({"k": v})["k"]


class Array2(np.ndarray):
    """An array class of a user."""


class Series2(pd.Series):
    @property
    def _constructor(self):
        return Series2


class Frame2(pd.DataFrame):
    @property
    def _constructor(self):
        return Frame2


def derived(mon, rng, v):
    """Values of classes that are derived from the declared containers are values of these."""
    if not coin(rng, 0.12):
        return v
    mon.seen("derived_class")
    if isinstance(v, np.ndarray):
        return v.view(Array2) if coin(rng) or v.dtype.kind == "O" else np.ma.MaskedArray(v)
    if isinstance(v, pd.DataFrame):
        return Frame2(v)
    return Series2(v) if isinstance(v, pd.Series) else v


def drive(mon, rng, typ, decls, name):
    if coin(rng, 0.3):
        more = [a_type(rng) for _ in range(int(rng.integers(1, 3)))]
        typ = Union[tuple([m[0] for m in more] + [typ])] if coin(rng) else Union[tuple([typ] + [m[0] for m in more])]
        decls = decls + [m[1] for m in more]
        mon.seen("union")
    way, validate = use(mon, rng, typ)
    mon.note(type=name, declared=decls, way=way)
    for step in range(int(rng.integers(1, 5))):
        d = pick(rng, decls)
        v = derived(mon, rng, a_value(rng, d, mon))
        each = [fits(x, v) for x in decls]
        want = True if any(e is True for e in each) else None if any(e is None for e in each) else False
        if way == "optional" and v is None:
            want = True
        if want is None:
            continue
        mon.note(value=v, step=step)
        before = snapshot(v)
        mon.seen("wildcard", "*" in str(d[2]))
        mon.seen("fixed_extent", any(c.isdigit() for c in str(d[2])))
        mon.seen("columns", len(d) > 3)
        mon.seen("repeated", step > 0)
        try:
            got, err = validate(v), None
        except Exception as e:
            got, err = None, e
        if want:
            mon.check(err is None, f"a value of the declared type is refused: {type(err).__name__} {str(err)[:160]!r}")
            mon.check(got is v, "validation hands on another object")
            mon.seen("accepted")
            mon.seen("second_member", not each[0])
        else:
            mon.check(err is not None, "a value that is not of the declared type is accepted")
            mon.seen("refused")
        mon.check(snapshot(v) == before, "validation changed the value")
        mon.signature(name, way, tuple(sorted(x[0] for x in decls)), type(v).__name__, str(getattr(v, "dtype", "")), getattr(v, "ndim", -1), want)


def aliases(mon, rng):
    name = pick(rng, sorted(ALIASES))
    mon.seen("alias")
    drive(mon, rng, getattr(T, name), ALIASES[name], name)


def own(mon, rng):
    typ, decl = a_type(rng)
    mon.seen("own")
    drive(mon, rng, typ, [decl], "own")


def serialise(mon, rng):
    shape = tuple("*" for _ in range(int(rng.integers(1, 4))))
    dt = np.dtype(pick(rng, ["int64", "float64", "bool", "int32"]))
    typ = pick(rng, [Annotated[np.ndarray, Array(shape=shape, dtype=dt)], Annotated[np.ndarray, Array(shape="*", dtype=Any)]])
    v = layout(rng, elements(rng, dt, tuple(int(pick(rng, [1, 2, 3, 5])) for _ in shape)))
    if dt == FLT:
        v = v * pick(rng, [1.0, 0.1, 1e-9, 1e300, -1 / 3])
    mon.note(value=v, dtype=dt, shape=shape)
    before = snapshot(v)

    def nested(a):
        return [nested(x) for x in a] if isinstance(a, np.ndarray) else a.item()

    want = nested(v)
    model = create_model("Model", __config__=dict(arbitrary_types_allowed=True), value=(typ, ...))
    m = model(value=v)
    ta = TypeAdapter(typ)
    mon.check(m.value is v, "the model holds another object")
    mon.check(json.loads(m.model_dump_json()) == {"value": want}, "the model's JSON does not hold the values")
    mon.check(m.model_dump() == {"value": want}, "the model's dump does not hold the values")
    mon.check(json.loads(ta.dump_json(v)) == want and ta.dump_python(v) == want, "the dump of the value does not hold the values")
    mon.check(snapshot(v) == before, "serialisation changed the value")
    back = np.array(json.loads(m.model_dump_json())["value"], dtype=dt)
    mon.check(np.array_equal(back, v) and TypeAdapter(typ).validate_python(back) is back, "the values do not survive a round trip")
    mon.seen("serialised")
    mon.signature("serialised", str(dt), len(shape))


STAGES = [("aliases", aliases, 6000, 60000), ("own", own, 8000, 90000), ("serialise", serialise, 1500, 15000)]
