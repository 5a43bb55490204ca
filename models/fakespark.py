"""A tiny in-memory stand-in for the part of PySpark the workflows use, so that they run here (PySpark is not installed).
It evaluates rows one by one with SQL's treatment of NULL; what it does not know raises Inconclusive."""
import random
import re
import sys
import types as pytypes
import zlib

import numpy as np

from vlib.core import Inconclusive


# ------------------------------------------------------------------ types
class DataType:
    def __init__(self, *a, **k):
        self.args = a

    def cast(self, v):
        return v

    def __eq__(self, o):
        return type(self) is type(o) and self.args == o.args

    def __hash__(self):
        return hash(type(self))


class FloatType(DataType):
    def cast(self, v):
        return None if v is None else float(np.float32(v))


class DoubleType(DataType):
    def cast(self, v):
        return None if v is None else float(v)


class LongType(DataType):
    def cast(self, v):
        return None if v is None else int(v)


class IntegerType(LongType):
    pass


class BooleanType(DataType):
    def cast(self, v):
        return None if v is None else bool(v)


class StringType(DataType):
    def cast(self, v):
        return None if v is None else str(v)


class ArrayType(DataType):
    def cast(self, v):
        if v is None:
            return None
        if not isinstance(v, (list, tuple, np.ndarray)):
            raise TypeError(f"cannot cast {v!r} to an array")
        return [self.args[0].cast(x) for x in v]


class MapType(DataType):
    def cast(self, v):
        return None if v is None else {self.args[0].cast(k): self.args[1].cast(x) for k, x in v.items()}


class StructField:
    def __init__(self, name, dataType, nullable=True):
        self.name, self.dataType = name, dataType


class StructType(DataType):
    def __init__(self, fields=None):
        super().__init__()
        self.fields = list(fields or [])

    def add(self, name, t=None, *a):
        self.fields.append(name if isinstance(name, StructField) else StructField(name, t))
        return self


NAMED = {"float": FloatType, "double": DoubleType, "long": LongType, "bigint": LongType, "int": IntegerType, "integer": IntegerType,
         "boolean": BooleanType, "string": StringType}


def as_type(t):
    if isinstance(t, str):
        t = t.strip().lower()
        m = re.fullmatch(r"array<(.*)>", t)
        if m:
            return ArrayType(as_type(m.group(1)))
        if t in NAMED:
            return NAMED[t]()
        raise Inconclusive(f"type {t}")
    return t


class Struct(tuple):
    """a struct value with field names"""

    def __new__(cls, names, vals):
        s = super().__new__(cls, vals)
        s.names = names
        return s


# ------------------------------------------------------------------ columns
def null2(f):
    return lambda a, b: None if a is None or b is None else f(a, b)


class Column:
    def __init__(self, name, fn, gen=None):
        self.name, self.fn, self.gen = name, fn, gen

    def __call__(self, row):
        return self.fn(row)

    def alias(self, *names):
        c = Column(names[0], self.fn, self.gen)
        c.names = list(names)
        return c

    name_ = alias

    def cast(self, t):
        t = as_type(t)
        return Column(self.name, lambda r: t.cast(self(r)))

    def _bin(self, o, f, sym):
        o = lit_or(o)
        g = null2(f)
        return Column(f"({self.name} {sym} {o.name})", lambda r: g(self(r), o(r)))

    def __eq__(self, o): return self._bin(o, lambda a, b: a == b, "=")
    def __ne__(self, o): return self._bin(o, lambda a, b: a != b, "!=")
    def __lt__(self, o): return self._bin(o, lambda a, b: a < b, "<")
    def __le__(self, o): return self._bin(o, lambda a, b: a <= b, "<=")
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b, ">")
    def __ge__(self, o): return self._bin(o, lambda a, b: a >= b, ">=")
    def __add__(self, o): return self._bin(o, lambda a, b: a + b, "+")
    def __radd__(self, o): return lit_or(o)._bin(self, lambda a, b: a + b, "+")
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b, "-")
    def __rsub__(self, o): return lit_or(o)._bin(self, lambda a, b: a - b, "-")
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b, "*")
    def __rmul__(self, o): return lit_or(o)._bin(self, lambda a, b: a * b, "*")
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b if b else None, "/")

    def __and__(self, o):
        o = lit_or(o)

        def f(r):
            a, b = self(r), o(r)
            return False if a is False or b is False else None if a is None or b is None else a and b
        return Column(f"({self.name} AND {o.name})", f)

    def __or__(self, o):
        o = lit_or(o)

        def f(r):
            a, b = self(r), o(r)
            return True if a is True or b is True else None if a is None or b is None else a or b
        return Column(f"({self.name} OR {o.name})", f)

    def __invert__(self):
        return Column(f"(NOT {self.name})", lambda r: None if self(r) is None else not self(r))

    def between(self, a, b):
        return (self >= a) & (self <= b)

    def isNull(self): return Column(f"({self.name} IS NULL)", lambda r: self(r) is None)
    def isNotNull(self): return Column(f"({self.name} IS NOT NULL)", lambda r: self(r) is not None)
    def getField(self, n): return Column(n, lambda r: field(self(r), n))
    def getItem(self, n): return Column(f"{self.name}[{n}]", lambda r: item(self(r), n))
    __getitem__ = getItem
    __hash__ = object.__hash__

    def __bool__(self):
        raise ValueError("Cannot convert column into bool")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Inconclusive(f"column method {n}")


def field(v, n):
    if v is None:
        return None
    if isinstance(v, Struct):
        return v[v.names.index(n)]
    return v.get(n)


def item(v, n):
    if v is None:
        return None
    if isinstance(v, dict):
        return v.get(n)
    if isinstance(n, str):
        return field(v, n)
    return v[n] if 0 <= n < len(v) else None


class AnalysisException(Exception):
    pass


def col(name):
    def get(row):
        if name in row:
            return row[name]
        head, _, rest = name.partition(".")
        if rest and head in row:
            v = row[head]
            for p in rest.split("."):
                v = field(v, p)
            return v
        raise AnalysisException(f"cannot resolve '{name}' given input columns {list(row)}")
    return Column(name.split(".")[-1], get)


def lit(v):
    return Column(str(v), lambda r: v)


def lit_or(v):
    return v if isinstance(v, Column) else lit(v)


def col_or(v):
    return v if isinstance(v, Column) else col(v)


def crc32(c):
    c = col_or(c)
    return Column("crc32", lambda r: None if c(r) is None else zlib.crc32(c(r).encode()) & 0xFFFFFFFF)


def explode(c):
    c = col_or(c)
    out = Column("col", None, gen=c)
    out.names = None
    return out


def map_keys(c):
    c = col_or(c)
    return Column("keys", lambda r: None if c(r) is None else list(c(r)))


def map_values(c):
    c = col_or(c)
    return Column("values", lambda r: None if c(r) is None else list(c(r).values()))


def size(c):
    c = col_or(c)
    return Column("size", lambda r: -1 if c(r) is None else len(c(r)))


def when(*a):
    raise Inconclusive("when")


def coalesce(*cs):
    cs = [col_or(c) for c in cs]
    return Column("coalesce", lambda r: next((v for v in (c(r) for c in cs) if v is not None), None))


def collect_list(c):
    c = col_or(c)
    out = Column("collect_list", None)
    out.agg = lambda rows: [v for v in (c(r) for r in rows) if v is not None]
    return out


def collect_set(c):
    c = col_or(c)
    out = Column("collect_set", None)
    out.agg = lambda rows: list(dict.fromkeys(v for v in (c(r) for r in rows) if v is not None))
    return out


def udf(f=None, returnType=StringType()):
    if f is None or isinstance(f, (str, DataType)):
        return lambda g: udf(g, f or returnType)
    rt = as_type(returnType)

    def wrap(v):
        if isinstance(rt, StructType) and isinstance(v, (tuple, list)):
            return Struct([x.name for x in rt.fields], v)
        return v

    def call(*cols):
        cs = [col_or(c) for c in cols]
        return Column(getattr(f, "__name__", "udf"), lambda r: wrap(f(*[c(r) for c in cs])))
    return call


# ------------------------------------------------------------------ SQL
TOK = re.compile(r"\s*(?:(\d+\.\d*(?:[eE][+-]?\d+)?|\.\d+|\d+(?:[eE][+-]?\d+)?)|([A-Za-z_][A-Za-z_0-9.]*)|(->|<=|>=|!=|<>|==|[-+*/%()<>=,])|('[^']*'))")


class Sql:
    def __init__(self, text):
        self.toks, i = [], 0
        text = text.strip()
        while i < len(text):
            m = TOK.match(text, i)
            if not m or m.end() == i:
                raise Inconclusive(f"SQL {text[i:]!r}")
            n, ident, op, s = m.groups()
            self.toks.append(("num", float(n) if re.search(r"[.eE]", n) else int(n)) if n else ("id", ident) if ident else ("op", op) if op else ("str", s[1:-1]))
            i = m.end()
        self.i = 0

    def peek(self, k=0):
        return self.toks[self.i + k] if self.i + k < len(self.toks) else (None, None)

    def kw(self, w, k=0):
        t, v = self.peek(k)
        return t == "id" and v.upper() == w

    def take(self, v=None):
        t = self.peek()
        if t[0] is None or (v is not None and not (t[1] == v or (t[0] == "id" and t[1].upper() == v))):
            raise Inconclusive(f"SQL: {t} where {v} is expected")
        self.i += 1
        return t[1]

    # each rule returns f(env) -> value
    def expr(self):
        # lambda: x -> e   or   (s, x) -> e
        if self.peek()[0] == "id" and self.peek(1) == ("op", "->"):
            n = [self.take()]
            self.take("->")
            return self.lam(n)
        if self.peek() == ("op", "("):
            j, names = self.i + 1, []
            while j < len(self.toks) and self.toks[j][0] == "id":
                names.append(self.toks[j][1])
                j += 1
                if j < len(self.toks) and self.toks[j] == ("op", ","):
                    j += 1
                    continue
                break
            if names and self.toks[j:j + 2] == [("op", ")"), ("op", "->")]:
                self.i = j + 2
                return self.lam(names)
        return self.or_()

    def lam(self, names):
        body = self.expr()
        return lambda env: (lambda *a: body({**env, **dict(zip(names, a))}))

    def or_(self):
        a = self.and_()
        while self.kw("OR"):
            self.take()
            a = self._b(a, self.and_(), lambda x, y: x or y)
        return a

    def and_(self):
        a = self.cmp()
        while self.kw("AND"):
            self.take()
            a = self._b(a, self.cmp(), lambda x, y: x and y)
        return a

    def _b(self, a, b, f):
        g = null2(f)
        return lambda env: g(a(env), b(env))

    def cmp(self):
        a = self.add()
        ops = {"<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y,
               "=": lambda x, y: x == y, "==": lambda x, y: x == y, "!=": lambda x, y: x != y, "<>": lambda x, y: x != y}
        while self.peek()[0] == "op" and self.peek()[1] in ops:
            o = ops[self.take()]
            a = self._b(a, self.add(), o)
        return a

    def add(self):
        a = self.mul()
        while self.peek() in (("op", "+"), ("op", "-")):
            o = self.take()
            a = self._b(a, self.mul(), (lambda x, y: x + y) if o == "+" else (lambda x, y: x - y))
        return a

    def mul(self):
        a = self.unary()
        while self.peek() in (("op", "*"), ("op", "/"), ("op", "%")):
            o = self.take()
            a = self._b(a, self.unary(), {"*": lambda x, y: x * y, "/": lambda x, y: x / y if y else None, "%": lambda x, y: x % y if y else None}[o])
        return a

    def unary(self):
        if self.peek() == ("op", "-"):
            self.take()
            a = self.unary()
            return lambda env: None if a(env) is None else -a(env)
        return self.atom()

    def atom(self):
        t, v = self.peek()
        if t in ("num", "str"):
            self.take()
            return lambda env: v
        if (t, v) == ("op", "("):
            self.take()
            e = self.expr()
            self.take(")")
            return e
        if t != "id":
            raise Inconclusive(f"SQL: {v}")
        self.take()
        u = v.upper()
        if u == "NULL":
            return lambda env: None
        if self.peek() != ("op", "("):
            def var(env):
                if v in env:
                    return env[v]
                if "." in v:
                    return col(v)(env)
                raise AnalysisException(f"cannot resolve '{v}'")
            return var
        self.take("(")
        if u == "CAST":
            e = self.expr()
            self.take("AS")
            ty = as_type(self.take())
            self.take(")")
            return lambda env: ty.cast(e(env))
        args = []
        while self.peek() != ("op", ")"):
            args.append(self.expr())
            if self.peek() == ("op", ","):
                self.take()
        self.take(")")
        if u == "COALESCE":
            return lambda env: next((x for x in (a(env) for a in args) if x is not None), None)
        if u == "IF":
            return lambda env: args[1](env) if args[0](env) else args[2](env)
        if u not in FUNCS:
            raise Inconclusive(f"SQL function {u}")
        f = FUNCS[u]
        return lambda env: (lambda xs: None if any(x is None for x in xs) else f(*xs))([a(env) for a in args])


def _agg(arr, init, f, fin=None):
    for x in arr:
        init = f(init, x)
    return fin(init) if fin else init


FUNCS = {
    "POWER": lambda a, b: float(a) ** b, "POW": lambda a, b: float(a) ** b, "ABS": abs, "SQRT": lambda a: float(a) ** 0.5, "EXP": lambda a: float(np.exp(a)),
    "LEAST": min, "GREATEST": max, "SIZE": len, "REVERSE": lambda a: list(a)[::-1], "FLOAT": lambda a: FloatType().cast(a),
    "DOUBLE": float, "AGGREGATE": _agg, "REDUCE": _agg, "TRANSFORM": lambda a, f: [f(x) for x in a], "ROUND": round,
    "SLICE": lambda a, s, n: list(a)[s - 1:s - 1 + n], "ELEMENT_AT": lambda a, i: item(a, i - 1 if not isinstance(a, dict) else i),
}


# ------------------------------------------------------------------ frames
class Row(dict):
    def __getattr__(self, n):
        try:
            return self[n]
        except KeyError:
            raise AttributeError(n)

    def __iter__(self):
        return iter(self.values())  # a pyspark Row is a tuple of values

    def __contains__(self, n):
        return n in self.keys()

    def asDict(self):
        return {k: dict.__getitem__(self, k) for k in self.keys()}

    def __getitem__(self, k):
        return list(self.values())[k] if isinstance(k, int) else dict.__getitem__(self, k)


class Rdd:
    def __init__(self, rows):
        self.rows = rows

    def flatMap(self, f):
        return Rdd([y for x in self.rows for y in f(x)])

    def map(self, f):
        return Rdd([f(x) for x in self.rows])

    def distinct(self):
        return Rdd(list(dict.fromkeys(self.rows)))

    def collect(self):
        return list(self.rows)


def key(v):
    return repr(v)


class Frame:
    def __init__(self, cols, rows):
        self.columns, self.rows = list(cols), rows

    def _check(self, c):
        if self.rows or c.fn is None:
            return
        # resolve names against the columns even when there are no rows is not modelled

    def withColumn(self, name, c):
        cols = self.columns if name in self.columns else self.columns + [name]
        return Frame(cols, [{**r, name: c(r)} for r in self.rows])

    def withColumnRenamed(self, a, b):
        return Frame([b if c == a else c for c in self.columns], [{b if k == a else k: v for k, v in r.items()} for r in self.rows])

    def drop(self, *names):
        return Frame([c for c in self.columns if c not in names], [{k: v for k, v in r.items() if k not in names} for r in self.rows])

    def filter(self, c):
        if isinstance(c, str):
            e = Sql(c).expr()
            return Frame(self.columns, [r for r in self.rows if e(r)])
        return Frame(self.columns, [r for r in self.rows if c(r)])

    where = filter

    def select(self, *cs):
        if len(cs) == 1 and isinstance(cs[0], (list, tuple)):
            cs = cs[0]
        cs = [col_or(c) for c in cs]
        gens = [c for c in cs if c.gen is not None]
        if len(gens) > 1:
            raise Inconclusive("several generators")
        names = []
        for c in cs:
            if c.gen is None:
                names.append(c.name)
            else:
                ns = getattr(c, "names", None)
                names += ns if ns else [None]
        out = []
        for r in self.rows:
            base = {c.name: c(r) for c in cs if c.gen is None}
            if not gens:
                out.append(base)
                continue
            g = gens[0]
            v = g.gen(r)
            for x in (v.items() if isinstance(v, dict) else (v or [])):
                if isinstance(v, dict):
                    ns = getattr(g, "names", None) or ["key", "value"]
                    ex = dict(zip(ns, x))
                else:
                    ex = {(getattr(g, "names", None) or ["col"])[0]: x}
                row = {}
                for c in cs:
                    row.update(ex if c is g else {c.name: base[c.name]})
                out.append(row)
        cols = list(out[0]) if out else [n or "col" for n in names]
        return Frame(cols, out)

    def distinct(self):
        seen = {}
        for r in self.rows:
            seen.setdefault(key(list(r.values())), r)
        return Frame(self.columns, list(seen.values()))

    def orderBy(self, *names):
        return Frame(self.columns, sorted(self.rows, key=lambda r: [r[n] for n in names]))

    def limit(self, n):
        return Frame(self.columns, self.rows[:n])

    def groupBy(self, *names):
        return Grouped(self, names)

    def sampleBy(self, c, fractions, seed=None):
        rng = random.Random(seed)
        rows = [r for r in self.rows if rng.random() < fractions.get(r[c], 0.0)]
        taken = {}
        for r in rows:
            for k, v in r.items():
                if k != c:
                    taken.setdefault(r[c], []).append(v)
        SESSION.samplings.append(dict(fractions=dict(fractions), seed=seed, taken=taken))
        return Frame(self.columns, rows)

    def count(self):
        return len(self.rows)

    def collect(self):
        return [Row(r) for r in self.rows]

    def toPandas(self):
        import pandas

        return pandas.DataFrame(self.rows, columns=self.columns)

    @property
    def rdd(self):
        return Rdd([Row(r) for r in self.rows])

    def createOrReplaceTempView(self, name):
        SESSION.tables[name] = self

    def persist(self, *a):
        return self

    cache = persist

    def show(self, *a):
        pass

    @property
    def write(self):
        return Writer(self)

    def __getitem__(self, n):
        return col(n)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in self.__dict__.get("columns", []):
            return col(n)
        raise Inconclusive(f"frame method {n}")


class Grouped:
    def __init__(self, df, names):
        self.names, self.groups = names, {}
        for r in df.rows:
            self.groups.setdefault(key([r[n] for n in names]), []).append(r)

    def count(self):
        return Frame([*self.names, "count"], [{**{n: g[0][n] for n in self.names}, "count": len(g)} for g in self.groups.values()])

    def agg(self, *cs):
        for c in cs:
            pass
        return Frame([*self.names, *[c.name for c in cs]],
                     [{**{n: g[0][n] for n in self.names}, **{c.name: c.__dict__["agg"](g) for c in cs}} for g in self.groups.values()])


def _alias_agg(self, *names):
    c = Column(names[0], self.fn, self.gen)
    c.names = list(names)
    if "agg" in self.__dict__:
        c.agg = self.__dict__["agg"]
    return c


Column.alias = _alias_agg


class Writer:
    def __init__(self, df):
        self.df, self.m = df, "errorifexists"

    def mode(self, m):
        self.m = m
        return self

    def format(self, f):
        return self

    def option(self, *a):
        return self

    def saveAsTable(self, name):
        if name in SESSION.tables and self.m in ("error", "errorifexists"):
            raise AnalysisException(f"table {name} already exists")
        SESSION.tables[name] = self.df
        SESSION.saved.append(name)


class Catalog:
    class _jcatalog:
        @staticmethod
        def tableExists(name):
            return name in SESSION.tables

    def dropTempView(self, name):
        SESSION.tables.pop(name, None)


class Session:
    def __init__(self):
        self.tables, self.saved, self.samplings = {}, [], []
        self.catalog = Catalog()
        self.sparkContext = pytypes.SimpleNamespace(setLogLevel=lambda *a: None)

    def sql(self, q):
        q = q.strip().rstrip(";")
        m = re.fullmatch(r"DESCRIBE\s+FORMATTED\s+(\w+)", q, re.I)
        if m:
            self._need(m.group(1))
            return Frame(["col_name", "data_type", "comment"], [
                dict(col_name="Provider", data_type="parquet", comment=""),
                dict(col_name="Location", data_type=f"file:/warehouse/{m.group(1)}", comment=""),
                dict(col_name="Serde Library", data_type="x", comment="")])
        m = re.fullmatch(r"SELECT\s+\*\s*(?:,(.*))?\s+FROM\s+(\w+)", q, re.I | re.S)
        if not m:
            raise Inconclusive(f"SQL {q}")
        df = self._need(m.group(2))
        if not m.group(1):
            return Frame(df.columns, [dict(r) for r in df.rows])
        p = Sql(m.group(1))
        new = []
        while True:
            e = p.expr()
            p.take("AS")
            new.append((p.take(), e))
            if p.peek() == ("op", ","):
                p.take()
                continue
            break
        if p.peek()[0] is not None:
            raise Inconclusive(f"SQL {q}")
        return Frame(df.columns + [n for n, _ in new], [{**r, **{n: e(r) for n, e in new}} for r in df.rows])

    def _need(self, name):
        if name not in self.tables:
            raise AnalysisException(f"table or view not found: {name}")
        return self.tables[name]


class Builder:
    def enableHiveSupport(self):
        return self

    def config(self, *a, **k):
        return self

    def appName(self, *a):
        return self

    def getOrCreate(self):
        return SESSION


SESSION = Session()


def parquet(url):
    """rows behind a dataset's url"""
    if not url.startswith("file:///warehouse/"):
        raise Inconclusive(f"url {url}")
    return SESSION.tables[url.rsplit("/", 1)[1]]


# ------------------------------------------------------------------ petastorm
OPENED = []


class BatchReader:
    def __init__(self, url, num_epochs=1, reader_pool_type="thread", **kw):
        if num_epochs is None:
            raise Inconclusive("a reader without end")
        self.url, self.pool, self.rows, self.closed = url, reader_pool_type, parquet(url).rows * num_epochs, False
        OPENED.append(self)

    def stop(self):
        self.closed = True

    def join(self):
        pass


def tensor_of(vals):
    import numpy
    import torch

    a = numpy.asarray(vals)
    if a.dtype == numpy.bool_:
        a = a.astype(numpy.uint8)
    if a.dtype == numpy.float64:
        a = a.astype(numpy.float32)  # columns are declared FloatType
    if a.dtype.kind in "USO":
        raise TypeError(f"petastorm cannot collate {a.dtype} values such as {vals[0]!r}")
    return torch.as_tensor(a)


def decimal_friendly_collate(batch):
    return {k: tensor_of([r[k] for r in batch]) for k in batch[0]}


class DataLoader:
    def __init__(self, reader, batch_size=1, collate_fn=decimal_friendly_collate, shuffling_queue_capacity=0, **kw):
        self.reader, self.batch_size, self.collate_fn = reader, batch_size, collate_fn
        reader.batch_size = batch_size

    def __iter__(self):
        rows = self.reader.rows
        for i in range(0, len(rows), self.batch_size):
            yield self.collate_fn([dict(r) for r in rows[i: i + self.batch_size]])

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.reader.stop()
        self.reader.join()


def install_petastorm():
    OPENED.clear()
    if "petastorm" in sys.modules:
        return
    p, q = pytypes.ModuleType("petastorm"), pytypes.ModuleType("petastorm.pytorch")
    p.make_batch_reader = BatchReader
    q.DataLoader, q.decimal_friendly_collate = DataLoader, decimal_friendly_collate
    p.pytorch = q
    sys.modules.update({"petastorm": p, "petastorm.pytorch": q})


def install():
    """Put the stand-in where `import pyspark` finds it; a fresh session."""
    SESSION.__init__()
    install_petastorm()
    if "pyspark" in sys.modules:
        return
    try:
        import pyspark  # noqa: F401

        raise Inconclusive("a real pyspark is installed")
    except ImportError:
        pass
    mods = {n: pytypes.ModuleType(n) for n in ("pyspark", "pyspark.sql", "pyspark.sql.functions", "pyspark.sql.types")}
    for f in (col, lit, crc32, explode, map_keys, map_values, size, coalesce, collect_list, collect_set, udf, when):
        setattr(mods["pyspark.sql.functions"], f.__name__, f)
    for t in (FloatType, DoubleType, LongType, IntegerType, BooleanType, StringType, ArrayType, MapType, StructField, StructType, DataType):
        setattr(mods["pyspark.sql.types"], t.__name__, t)

    class SparkSession:
        builder = Builder()

    mods["pyspark.sql"].SparkSession = SparkSession
    mods["pyspark.sql"].DataFrame = Frame
    mods["pyspark.sql"].Row = Row
    mods["pyspark.sql"].functions = mods["pyspark.sql.functions"]
    mods["pyspark.sql"].types = mods["pyspark.sql.types"]
    mods["pyspark"].sql = mods["pyspark.sql"]
    sys.modules.update(mods)
