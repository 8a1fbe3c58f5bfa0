"""Worker of the C22 monitor: drives the vortex Python module with generated data and judges what comes back.

Values are kept as plain Python data: None, bool, int (also for temporal types: the stored ticks; for floats: the
bits), str, bytes, and tuples for structs."""
import argparse, json, math, os, random, shutil, struct as st, sys, tempfile, time, traceback

import numpy as np
import pyarrow as pa
import pyarrow.compute as pc

INTS = {"i8": pa.int8(), "i16": pa.int16(), "i32": pa.int32(), "i64": pa.int64(), "u8": pa.uint8(), "u16": pa.uint16(), "u32": pa.uint32(), "u64": pa.uint64()}
NAME = {v: k for k, v in INTS.items()}
NAME.update({pa.float16(): "f16", pa.float32(): "f32", pa.float64(): "f64", pa.bool_(): "bool", pa.null(): "null"})
TEXT = [pa.string(), pa.large_string(), pa.string_view()]
BYTE = [pa.binary(), pa.large_binary(), pa.binary_view()]
TEMPORAL = [pa.date32(), pa.date64(), pa.time32("s"), pa.time32("ms"), pa.time64("us"), pa.time64("ns")] + [
    pa.timestamp(u, z) for u in ("s", "ms", "us", "ns") for z in (None, "UTC", "Europe/Berlin")
]


class Bad(Exception):
    def __init__(self, cls, detail):
        super().__init__(cls)
        self.cls, self.detail = cls, str(detail)


# ---------------------------------------------------------------- types and values
def is_temporal(t):
    return pa.types.is_temporal(t)


def is_text(t):
    return t in TEXT


def is_bytes(t):
    return t in BYTE


def ticks_type(t):
    return pa.int32() if t.bit_width == 32 else pa.int64()


def canon(t):
    if is_text(t):
        return pa.string_view()
    if is_bytes(t):
        return pa.binary_view()
    if pa.types.is_struct(t):
        return pa.struct([pa.field(t.field(i).name, canon(t.field(i).type), t.field(i).nullable) for i in range(t.num_fields)])
    return t


def dtype_str(t, nullable):
    """how Vortex writes the type, or None where the text is not pinned down"""
    if t == pa.null():
        return "null"
    if t in NAME:
        s = NAME[t]
    elif is_text(t):
        s = "utf8"
    elif is_bytes(t):
        s = "binary"
    elif pa.types.is_struct(t):
        kids = [dtype_str(t.field(i).type, t.field(i).nullable) for i in range(t.num_fields)]
        if None in kids:
            return None
        s = "{" + ", ".join(f"{t.field(i).name}={k}" for i, k in enumerate(kids)) + "}"
    else:
        return None
    return s + ("?" if nullable else "")


def field(r, name, t):
    return pa.field(name, t, t == pa.null() or r.random() < 0.7)


def gen_type(r, depth=0, null=True):
    k = r.randrange(100)
    if k < 35:
        return r.choice(list(INTS.values()))
    if k < 50:
        return r.choice([pa.float16(), pa.float32(), pa.float64(), pa.float64()])
    if k < 58:
        return pa.bool_()
    if k < 70:
        return r.choice(TEXT)
    if k < 78:
        return r.choice(BYTE)
    if k < 90:
        return r.choice(TEMPORAL)
    if k < 92 and null:
        return pa.null()
    if depth < 2:
        return pa.struct([field(r, f"f{i}", gen_type(r, depth + 1, null)) for i in range(r.randrange(1, 4))])
    return pa.int64()


def fbits(t, x):
    return int(np.array([x], dtype={2: np.float16, 4: np.float32, 8: np.float64}[t.bit_width // 8]).view({2: np.uint16, 4: np.uint32, 8: np.uint64}[t.bit_width // 8])[0])


def unbits(t, b):
    w = t.bit_width // 8
    return float(np.array([b], dtype={2: np.uint16, 4: np.uint32, 8: np.uint64}[w]).view({2: np.float16, 4: np.float32, 8: np.float64}[w])[0])


def gen_len(r):
    return r.choice([0, 1, 2, 3, 7, 8, 9, 63, 64, 65, r.randrange(200), r.randrange(200), r.randrange(200), 1023, 1024, 1025, r.randrange(3000), r.randrange(9000)])


def gen_vals(r, t, n, plain_floats=False):
    """non-null values"""
    if t == pa.null():
        return [None] * n
    if pa.types.is_boolean(t):
        m = r.randrange(4)
        return [(i < n // 2) if m == 0 else (r.random() < [0.5, 0.02, 0.98, 0.5][m]) for i in range(n)]
    if pa.types.is_integer(t) or is_temporal(t):
        b = t.bit_width
        signed = is_temporal(t) or pa.types.is_signed_integer(t)
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if signed else (0, (1 << b) - 1)
        if pa.types.is_time(t):
            lo, hi = 0, {"s": 86_400, "ms": 86_400_000, "us": 86_400_000_000, "ns": 86_400_000_000_000}[t.unit] - 1
        if pa.types.is_date64(t):
            day = 86_400_000
            return [r.randrange(-40_000, 40_000) * day for _ in range(n)] if r.random() < 0.7 else [r.choice([0, day, -day])] * n
        m = r.randrange(9)
        if m == 0:
            return [r.randint(lo, hi) for _ in range(n)]
        if m == 1:
            return [r.choice([lo, hi, lo + 1, hi - 1, 0]) for _ in range(n)]
        if m == 2:
            c = r.randint(max(lo, -5), 100)
            return [c] * n
        if m == 3:
            s = r.randint(max(lo, -50), 50)
            return [min(hi, s + i) for i in range(n)]
        if m == 4:
            out = []
            while len(out) < n:
                out += [r.randint(max(lo, -9), min(hi, 99))] * r.randrange(1, 60)
            return out[:n]
        if m == 5:
            pool = [r.randint(lo, hi) for _ in range(r.randrange(1, 9))]
            return [r.choice(pool) for _ in range(n)]
        if m == 6:
            # small, with few far off
            return [r.randint(lo, hi) if r.random() < 0.01 else r.randint(max(lo, -3), 12) for _ in range(n)]
        if m == 7:
            base = r.randint(lo, hi - min(hi - lo, 1000))
            return [min(hi, base + r.randrange(1000)) for _ in range(n)]
        return [r.randint(max(lo, -100), 100) for _ in range(n)]
    if pa.types.is_floating(t):
        m = r.randrange(6)
        if m == 0 and not plain_floats:
            return [r.getrandbits(t.bit_width) if r.random() < 0.5 else fbits(t, r.choice([0.0, -0.0, math.inf, -math.inf, 1.5])) for _ in range(n)]
        if m == 1:
            return [fbits(t, r.randrange(-1000, 1000) / 100 + 0.0) for _ in range(n)]
        if m == 2:
            return [fbits(t, r.randrange(1, 60))] * n
        if m == 3:
            pool = [fbits(t, r.randrange(1, 10000) / 10) for _ in range(5)]
            return [r.choice(pool) for _ in range(n)]
        if m == 4 and t.bit_width > 16:
            return [fbits(t, r.random() * 1e6 + 1) for _ in range(n)]
        return [fbits(t, r.randrange(1, 1000)) for _ in range(n)]
    if is_text(t) or is_bytes(t):
        m = r.randrange(5)
        al = ["a", "b", "Z", "0", " ", "ü", "漢", "😀"]
        word = lambda k: "".join(r.choice(al) for _ in range(k))
        if m == 0:
            v = [word(r.randrange(0, 30)) for _ in range(n)]
        elif m == 1:
            pool = [word(r.randrange(0, 20)) for _ in range(r.randrange(1, 6))]
            v = [r.choice(pool) for _ in range(n)]
        elif m == 2:
            v = [f"http://example.com/{r.randrange(1000)}/item" for _ in range(n)]
        elif m == 3:
            v = [word(r.choice([0, 11, 12, 13, 1])) for _ in range(n)]
        else:
            v = [word(5)] * n
        if is_bytes(t):
            return [x.encode() if r.random() < 0.7 else bytes(r.getrandbits(8) for _ in range(r.randrange(0, 16))) for x in v]
        return v
    if pa.types.is_struct(t):
        cols = [with_nulls(r, gen_vals(r, t.field(i).type, n, plain_floats), t.field(i).nullable) for i in range(t.num_fields)]
        return [tuple(c[i] for c in cols) for i in range(n)]
    raise AssertionError(t)


def with_nulls(r, v, nullable):
    if not nullable:
        return v
    p = r.choice([0, 0, 0.1, 0.5, 0.95, 1])
    return [None if r.random() < p else x for x in v]


def default(t):
    if pa.types.is_struct(t):
        return tuple(default(t.field(i).type) for i in range(t.num_fields))
    if is_text(t):
        return ""
    if is_bytes(t):
        return b""
    if t == pa.bool_():
        return False
    return None if t == pa.null() else 0


def arrow(t, vals):
    """the Arrow array of these values"""
    if t == pa.null():
        return pa.nulls(len(vals))
    if pa.types.is_floating(t):
        w = t.bit_width // 8
        a = np.array([0 if v is None else v for v in vals], dtype={2: np.uint16, 4: np.uint32, 8: np.uint64}[w]).view({2: np.float16, 4: np.float32, 8: np.float64}[w])
        mask = np.array([v is None for v in vals], dtype=bool)
        return pa.array(a, type=t, mask=mask, from_pandas=False)
    if is_temporal(t):
        return pa.array(vals, type=ticks_type(t)).view(t)
    if pa.types.is_struct(t):
        kids = [arrow(t.field(i).type, [(default(t.field(i).type) if v is None else v[i]) for v in vals]) for i in range(t.num_fields)]
        return pa.StructArray.from_arrays(kids, fields=[t.field(i) for i in range(t.num_fields)], mask=pa.array([v is None for v in vals], type=pa.bool_()))
    return pa.array(vals, type=t)


def sliced(r, t, vals, nullable):
    """the same, as a part of a longer array"""
    # the Arrow crate loses the offset of sliced structs when it takes them over from C
    if pa.types.is_struct(t) or r.random() < 0.4:
        return arrow(t, vals)
    pre, post = r.randrange(0, 10), r.randrange(0, 10)
    g = with_nulls(r, gen_vals(r, t, pre + post), nullable)
    return arrow(t, g[:pre] + vals + g[pre:]).slice(pre, len(vals))


def plain(a):
    if isinstance(a, pa.ChunkedArray):
        return [x for c in a.chunks for x in plain(c)]
    t = a.type
    if pa.types.is_struct(t):
        kids = [plain(a.field(i)) for i in range(t.num_fields)]
        ok = a.is_valid().to_pylist()
        return [tuple(k[i] for k in kids) if ok[i] else None for i in range(len(a))]
    if pa.types.is_floating(t):
        return a.view({16: pa.uint16(), 32: pa.uint32(), 64: pa.uint64()}[t.bit_width]).to_pylist()
    if is_temporal(t):
        return a.view(ticks_type(t)).to_pylist()
    return a.to_pylist()


def scrub(t, vals):
    """null struct rows hide their children; nulls below are not visible above"""
    return vals


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "…"


def same(what, got, want):
    if got == want:
        return
    if len(got) != len(want):
        raise Bad(f"{what}: length", f"{len(got)} rows, expected {len(want)}")
    for i, (g, w) in enumerate(zip(got, want)):
        if g != w or type(g) is not type(w):
            raise Bad(f"{what}: value", f"row {i} of {len(want)}: {short(g)} expected {short(w)}")


def key_of(t, v):
    """something Python orders like the type"""
    return unbits(t, v) if pa.types.is_floating(t) else v


OPS = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


def cmp(t, op, a, b):
    return None if a is None or b is None else OPS[op](key_of(t, a), key_of(t, b))


# ---------------------------------------------------------------- the case
class Case:
    def __init__(self, seed, i, scratch):
        self.r = random.Random(f"{seed}/{i}")
        self.steps, self.keys, self.obs, self.refused, self.trivial = [], {}, 0, 0, False
        self.label, self.findings = "", {}
        self.scratch = scratch

    def step(self, s):
        self.steps.append(s[:400])

    def key(self, k):
        self.keys[k] = self.keys.get(k, 0) + 1

    def run(self):
        k = self.r.randrange(10)
        if k < 4:
            self.journey()
        elif k < 8:
            self.table()
        elif k == 8:
            self.lists()
        else:
            self.dtypes()

    # ------------------------------------------------------------ arrays
    def look(self, x, t, vals, what):
        """the Vortex array seen from Python"""
        r = self.r
        self.label = f"{what} of {tclass(t)}"
        if len(x) != len(vals):
            raise Bad(f"{what}: len", f"{len(x)} expected {len(vals)}")
        a = x.to_arrow_array()
        if a.type != canon(t):
            raise Bad(f"{what}: type", f"{a.type} expected {canon(t)}")
        if isinstance(a, pa.Array):
            a.validate(full=True)
        same(what, plain(a), vals)
        n = a.null_count if t != pa.null() else 0
        if t != pa.null() and n != sum(v is None for v in vals):
            raise Bad(f"{what}: null count", n)
        self.obs += len(vals)
        str(x), x.tree_display(), x.encoding, x.nbytes
        self.key(f"enc:{x.encoding}")

    def scalar(self, x, t, vals):
        for i in {0, len(vals) - 1, self.r.randrange(len(vals))}:
            self.label = f"scalar_at of {tclass(t)}"
            got = x.scalar_at(i)
            want = vals[i]
            if hasattr(got, "into_python"):
                got = got.into_python(recursive=True)
            if not self.py_same(t, got, want):
                raise Bad("scalar_at", f"element {i}: {short(got)} expected {short(want)} ({t})")
            self.obs += 1

    def py_same(self, t, got, want):
        if want is None or got is None:
            return got is None and want is None
        if pa.types.is_struct(t):
            return isinstance(got, dict) and list(got) == [f.name for f in t] and all(self.py_same(f.type, got[f.name], w) for f, w in zip(t, want))
        if pa.types.is_floating(t):
            if not isinstance(got, float):
                return False
            w = unbits(t, want)
            return got == w and math.copysign(1, got) == math.copysign(1, w) or (math.isnan(got) and math.isnan(w))
        return type(got) is type(want) and got == want

    def journey(self):
        import vortex

        r = self.r
        t = gen_type(r)
        n = gen_len(r)
        nullable = r.random() < 0.6
        comparable = r.random() < 0.5
        vals = with_nulls(r, gen_vals(r, t, n, comparable), nullable)
        self.trivial = n == 0
        if r.random() < 0.3:
            k = r.randrange(0, 5)
            cuts = [0] + sorted(r.randrange(0, n + 1) for _ in range(k)) + [n]
            obj = pa.chunked_array([] if n == 0 and r.random() < 0.5 else [sliced(r, t, vals[a:b], nullable) for a, b in zip(cuts, cuts[1:])], type=t)
            how = "chunked"
        else:
            obj, how = sliced(r, t, vals, nullable), "array"
        self.step(f"{how} of {t} {short(vals)}")
        self.key(f"from:{how}:{tclass(t)}")
        self.label = f"array() of {how} {tclass(t)}"
        x = vortex.array(obj)
        if how == "array":
            want = dtype_str(t, obj.null_count > 0)
            if want is not None and str(x.dtype) != want:
                raise Bad("dtype", f"{x.dtype} expected {want}")
        self.look(x, t, vals, how)
        for _ in range(r.randrange(1, 5)):
            op = r.choice(["slice", "take", "filter", "compress", "compare", "scalar", "fill", "out"])
            n = len(vals)
            self.label = f"{op} of {tclass(t)} as {x.encoding}"
            self.key(f"op:{op}:{x.encoding}")
            if op == "slice":
                a = r.randrange(0, n + 1)
                b = r.randrange(a, n + 1)
                self.step(f"slice {a} {b}")
                x, vals = x.slice(a, b), vals[a:b]
            elif op == "take":
                if n == 0:
                    continue
                idx = [r.randrange(n) for _ in range(r.randrange(0, 40))]
                if r.random() < 0.3:
                    idx.sort()
                it = r.choice([u for u in INTS.values() if n - 1 < (1 << (u.bit_width - 1))])
                self.step(f"take {it} {idx}")
                x, vals = x.take(vortex.array(pa.array(idx, type=it))), [vals[i] for i in idx]
            elif op == "filter":
                p = r.choice([0, 0.05, 0.5, 0.95, 1])
                m = [r.random() < p for _ in range(n)]
                self.step(f"filter keeping {sum(m)} of {n}")
                x, vals = x.filter(vortex.array(sliced(r, pa.bool_(), m, False))), [v for v, k in zip(vals, m) if k]
            elif op == "compress":
                self.step("compress")
                x = vortex.encoding.compress(x)
            elif op == "scalar":
                if n:
                    self.scalar(x, t, vals)
                continue
            elif op == "compare":
                if not self.compare(x, t, vals, comparable):
                    continue
                continue
            elif op == "fill":
                if not (pa.types.is_integer(t) or pa.types.is_floating(t) or pa.types.is_boolean(t)):
                    continue
                self.step("fill_forward")
                try:
                    y = x.fill_forward()
                except ValueError as e:
                    if "not implemented" in str(e):
                        self.refused += 1
                        continue
                    raise
                last, out = default(t), []
                for v in vals:
                    last = last if v is None else v
                    out.append(last)
                x, vals = y, out
            else:
                self.out(x, t, vals)
                continue
            self.look(x, t, vals, op)

    def compare(self, x, t, vals, comparable):
        import vortex

        r = self.r
        if t == pa.null() or pa.types.is_struct(t) or (pa.types.is_floating(t) and not comparable):
            return False
        n = len(vals)
        nullable = r.random() < 0.5
        fresh = gen_vals(r, t, n, True)
        other = [v if v is not None and r.random() < 0.5 else f for v, f in zip(vals, fresh)]
        other = with_nulls(r, other, nullable)
        op = r.choice(list(OPS))
        y = vortex.array(sliced(r, t, other, nullable))
        if r.random() < 0.3:
            y = vortex.encoding.compress(y)
        self.step(f"compare {op} {short(other)}")
        z = {"==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y}[op]()
        want = [cmp(t, op, a, b) for a, b in zip(vals, other)]
        self.look(z, pa.bool_(), want, f"compare {op}")
        return True

    def out(self, x, t, vals):
        """to NumPy and Polars"""
        if pa.types.is_integer(t) and not any(v is None for v in vals):
            a = x.to_arrow_array()
            if isinstance(a, pa.Array):
                got = x.to_numpy()
                if got.dtype != np.dtype(t.to_pandas_dtype()):
                    raise Bad("to_numpy dtype", got.dtype)
                same("to_numpy", got.tolist(), vals)
        if pa.types.is_integer(t) or is_text(t) or t == pa.bool_():
            self.step("to_polars_series")
            same("to_polars_series", x.to_polars_series().to_list(), vals)

    # ------------------------------------------------------------ lists
    def lists(self):
        import vortex

        r = self.r
        k = r.randrange(6)
        n = r.choice([1, 2, 5, 40])
        t = [pa.int64(), pa.float64(), pa.string(), pa.binary(), pa.bool_(), None][k]
        if t is None:
            t = pa.struct([("a", pa.int64()), ("b", pa.string()), ("c", pa.bool_())])
            vals = [tuple(None if r.random() < 0.2 else g[0] for g in [gen_vals(r, f.type, 1) for f in t]) for _ in range(n)]
            vals.append((1, "x", True))
            n += 1
            py = [dict(zip("abc", v)) for v in vals]
        else:
            vals = gen_vals(r, t, n, True)
            vals.append(vals[0])
            n += 1
            if k == 1:
                py = [unbits(t, v) for v in vals]
            else:
                py = list(vals)
            if r.random() < 0.5:
                for i in range(n - 1):
                    if r.random() < 0.4:
                        vals[i] = py[i] = None
        self.step(f"list {short(py)}")
        self.key(f"list:{tclass(t)}")
        self.label = f"array() of list {tclass(t)}"
        x = vortex.array(py)
        want = dtype_str(t, any(v is None for v in vals))
        if str(x.dtype) != want:
            raise Bad("list dtype", f"{x.dtype} expected {want}")
        self.look(x, t, vals, "list")
        self.scalar(x, t, vals)
        if pa.types.is_struct(t):
            self.scalar_lazy(x, t, vals)

    def scalar_lazy(self, x, t, vals):
        i = self.r.randrange(len(vals))
        got = x.scalar_at(i).into_python()
        for f, w in zip(t, vals[i]):
            g = got[f.name]
            if hasattr(g, "into_python"):
                g = g.into_python()
            if not self.py_same(f.type, g, w):
                raise Bad("scalar field", f"{short(g)} expected {short(w)}")

    # ------------------------------------------------------------ dtypes
    def dtypes(self):
        import vortex

        r = self.r
        d = vortex.dtype
        nul = r.random() < 0.5
        w = r.choice([8, 16, 32, 64])
        fw = r.choice([16, 32, 64])
        q = "?" if nul else ""
        made = {
            f"i{w}{q}": d.int(w, nul),
            f"u{w}{q}": d.uint(w, nul),
            f"f{fw}{q}": d.float(fw, nul),
            f"bool{q}": d.bool(nul),
            f"utf8{q}": d.utf8(nul),
            f"binary{q}": d.binary(nul),
            "null": d.null(),
            "i64": d.int(),
            "u64": d.uint(),
            "f64": d.float(),
        }
        env = {k: getattr(d, k) for k in ("int", "uint", "float", "bool", "utf8", "binary", "null")}
        for s, x in made.items():
            if str(x) != s:
                raise Bad("dtype text", f"{x} expected {s}")
            if str(eval(repr(x), env)) != s:
                raise Bad("dtype repr", f"{x!r} expected {s}")
            if x.maybe_columns() is not None:
                raise Bad("columns of a flat type", s)
        t = gen_type(r)
        x = d.DType.from_arrow(t, nul)
        self.step(f"from_arrow {t} {nul}")
        self.key(f"dtype:{tclass(t)}")
        want = dtype_str(t, nul)
        if want is not None and str(x) != want:
            raise Bad("from_arrow", f"{x} expected {want}")
        if x.maybe_columns() != ([f.name for f in t] if pa.types.is_struct(t) else None):
            raise Bad("columns", x.maybe_columns())
        self.obs += len(made) + 1

    # ------------------------------------------------------------ tables and files
    def table(self):
        import vortex
        import vortex.dataset

        r = self.r
        n = gen_len(r)
        k = r.randrange(1, 6)
        self.trivial = n == 0
        fields, cols = [], []
        for i in range(k):
            t = gen_type(r, 1)
            nullable = t == pa.null() or r.random() < 0.6
            name = r.choice(["a", "Ünï", "some column", "f0", "f1", "x.y"]) + str(i)
            fields.append(pa.field(name, t, nullable))
            cols.append(with_nulls(r, gen_vals(r, t, n, True), nullable))
        schema = pa.schema(fields)
        rows = list(range(n))
        arrays = []
        # where the chunks of columns differ they are cut further on the way out
        aligned = None
        if any(pa.types.is_struct(f.type) for f in fields):
            aligned = [0] + sorted(r.randrange(0, n + 1) for _ in range(r.choice([0, 0, 1, 3]))) + [n]
        for f, c in zip(fields, cols):
            cuts = aligned or [0] + sorted(r.randrange(0, n + 1) for _ in range(r.choice([0, 0, 1, 3]))) + [n]
            arrays.append(pa.chunked_array([] if n == 0 and r.random() < 0.3 else [sliced(r, f.type, c[a:b], f.nullable) for a, b in zip(cuts, cuts[1:])], type=f.type))
        tb = pa.table(arrays, schema=schema)
        self.step(f"table of {n} rows {schema.to_string(show_schema_metadata=False)!r}")
        self.step("; ".join(short(c, 120) for c in cols))
        for f in fields:
            self.key(f"col:{tclass(f.type)}{'?' if f.nullable else ''}")
        self.label = "array() of table"
        x = vortex.array(tb)
        want = canon_schema(schema)
        self.see_table(x.to_arrow_table(), want, cols, "table")
        if r.random() < 0.2:
            ok = [i for i, f in enumerate(fields) if pa.types.is_integer(f.type) or is_text(f.type) or f.type == pa.bool_()]
            self.frames(x, fields, cols, ok)
        if r.random() < 0.5:
            self.label = "compress table"
            x = vortex.encoding.compress(x)
            self.see_table(x.to_arrow_table(), want, cols, "compressed table")
            self.step("compressed")
        path = os.path.join(self.scratch, f"t{r.getrandbits(40):x}.vortex")
        try:
            self.label = "write"
            vortex.io.write(x, path)
            for _ in range(r.randrange(1, 4)):
                self.read(vortex, path, fields, cols, n)
        finally:
            if os.path.exists(path):
                os.remove(path)

    def frames(self, x, fields, cols, ok):
        self.label = "frames"
        df = x.to_pandas()
        if list(df.columns) != [f.name for f in fields] or len(df) != len(cols[0]):
            raise Bad("to_pandas shape", f"{list(df.columns)} {len(df)}")
        for i in ok:
            a = pa.array(df[fields[i].name].array) if len(df) else pa.nulls(0)
            same("to_pandas", plain(a), cols[i])
        if all(i in ok for i in range(len(fields))):
            pf = x.to_polars_dataframe()
            if pf.columns != [f.name for f in fields]:
                raise Bad("to_polars columns", pf.columns)
            for i in ok:
                same("to_polars_dataframe", pf[fields[i].name].to_list(), cols[i])

    def see_table(self, t, want, cols, what):
        if not t.schema.equals(want):
            raise Bad(f"{what}: schema", f"{t.schema.to_string()!r} expected {want.to_string()!r}")
        for f, c, v in zip(want, t.columns, cols):
            same(what, plain(c), v)
            self.obs += len(v)

    def read(self, vortex, path, fields, cols, n):
        r = self.r
        names = [f.name for f in fields]
        route = r.choice(["read", "to_table", "to_batches", "reader", "head", "take", "scanner"])
        sel = None
        if r.random() < 0.6:
            sel = r.sample(range(len(fields)), r.randrange(1, len(fields) + 1))
        bs = r.choice([None, None, 1 + r.randrange(max(1, n)), 7, 65536]) if n < 2000 else r.choice([None, 1000, 65536])
        arrow_filter = route not in ("read",)
        filt = None
        if r.random() < 0.6:
            filt = self.gen_filter(vortex, fields, cols, n, arrow_filter, r.randrange(0, 3))
        self.step(f"{route} columns {sel} batch size {bs} filter {filt and filt.text}")
        self.label = f"{route}{' filtered' if filt else ''}"
        self.key(f"route:{route}:{'sel' if sel else 'all'}:{'filter' if filt else 'none'}")
        keep = [True] * n if filt is None else [v is True for v in filt.val]
        alt = None if filt is None else [v is True for v in filt.strict]
        pick = list(range(len(fields))) if sel is None else sel
        want = canon_schema(pa.schema([fields[i] for i in pick]))
        expr = None if filt is None else filt.expr
        columns = None if sel is None else [names[i] for i in sel]
        kw = dict(columns=columns, filter=expr, batch_size=bs)
        cut = None
        order = None
        try:
            if route == "read":
                proj = None if sel is None else [names[i] if r.random() < 0.5 else i for i in sel]
                got = vortex.io.read(path, projection=proj, row_filter=expr).to_arrow_table()
            else:
                ds = vortex.dataset.VortexDataset(path)
                if not ds.schema.equals(canon_schema(pa.schema(fields))):
                    raise Bad("dataset schema", f"{ds.schema.to_string()!r}")
                if route == "to_table":
                    got = ds.to_table(**kw)
                elif route == "to_batches":
                    bats = list(ds.to_batches(**kw))
                    if bs is not None and any(b.num_rows > bs for b in bats):
                        raise Bad("batch size", [b.num_rows for b in bats])
                    got = pa.Table.from_batches(bats, schema=bats[0].schema if bats else want)
                elif route == "reader":
                    rd = ds.to_record_batch_reader(**kw)
                    if not rd.schema.equals(want):
                        raise Bad("reader schema", rd.schema.to_string())
                    got = rd.read_all()
                elif route == "head":
                    cut = r.choice([0, 1, r.randrange(0, n + 1), n, n + 5])
                    self.step(f"head {cut}")
                    got = ds.head(cut, **kw)
                elif route == "take":
                    total = sum(keep)
                    order = [r.randrange(total) for _ in range(r.randrange(1, 20))] if total else []
                    if not order or (alt is not None and alt != keep):
                        return
                    self.step(f"take {order}")
                    got = ds.take(pa.array(order), **kw)
                else:
                    sc = ds.scanner(**kw)
                    if not sc.schema.equals(canon_schema(pa.schema(fields))) and not sc.schema.equals(want):
                        raise Bad("scanner schema", sc.schema)
                    way = r.randrange(4)
                    if way == 0:
                        got = sc.to_table()
                    elif way == 1:
                        got = sc.to_reader().read_all()
                    elif way == 2:
                        bats = list(sc.to_batches())
                        got = pa.Table.from_batches(bats, schema=bats[0].schema if bats else want)
                    else:
                        cut = r.randrange(0, n + 2)
                        got = sc.head(cut)
        except (NotImplementedError, pa.lib.ArrowNotImplementedError):
            if filt is None:
                raise
            self.refused += 1
            return

        def rows_of(k):
            ix = [i for i in range(n) if k[i]]
            if cut is not None:
                ix = ix[:cut]
            if order is not None:
                ix = [ix[i] for i in order]
            return [[cols[c][i] for i in ix] for c in pick]

        try:
            self.see_table(got, want, rows_of(keep), route)
        except Bad:
            if alt is None or alt == keep:
                raise
            # rows where one side of an OR is true and the other null: a listed finding
            self.see_table(got, want, rows_of(alt), route)
            self.findings["C22-or-null"] = self.findings.get("C22-or-null", 0) + 1

    def gen_filter(self, vortex, fields, cols, n, as_arrow, depth):
        r = self.r
        if depth > 0 and r.random() < 0.7:
            a = self.gen_filter(vortex, fields, cols, n, as_arrow, depth - 1)
            b = self.gen_filter(vortex, fields, cols, n, as_arrow, depth - 1)
            if a is None or b is None:
                return a or b
            if r.random() < 0.5:
                # null as either side is null, unless the other side settles it (Arrow)
                strict = [None if x is None or y is None else x and y for x, y in zip(a.strict, b.strict)]
                val = [False if x is False or y is False else None if x is None or y is None else True for x, y in zip(a.val, b.val)]
                return Filter(a.expr & b.expr, val if as_arrow else strict, strict, f"({a.text} & {b.text})")
            strict = [None if x is None or y is None else x or y for x, y in zip(a.strict, b.strict)]
            val = [True if x is True or y is True else None if x is None or y is None else False for x, y in zip(a.val, b.val)]
            return Filter(a.expr | b.expr, val if as_arrow else strict, strict, f"({a.text} | {b.text})")
        if as_arrow:
            ok = [i for i, f in enumerate(fields) if f.type in (pa.int8(), pa.int16(), pa.int32(), pa.int64(), pa.float32(), pa.float64(), pa.bool_())]
        else:
            ok = [i for i, f in enumerate(fields) if f.type in NAME and f.type != pa.null() or is_text(f.type) or is_bytes(f.type)]
        if not ok:
            return None
        i = r.choice(ok)
        f, c = fields[i], cols[i]
        t = f.type
        op = r.choice(list(OPS))
        col = pc.field(f.name) if as_arrow else vortex.expr.column(f.name)
        if t == pa.bool_() and r.random() < 0.3:
            return Filter(col, c, c, f"#{i}")
        same_type = [j for j in ok if fields[j].type == t and j != i]
        if same_type and r.random() < 0.3:
            j = r.choice(same_type)
            rhs = pc.field(fields[j].name) if as_arrow else vortex.expr.column(fields[j].name)
            e, vals = apply(op, col, rhs), cols[j]
            text = f"#{i} {op} #{j}"
        else:
            known = [v for v in c if v is not None]
            v = r.choice(known) if known and r.random() < 0.8 else gen_vals(r, t, 1, True)[0]
            p = unbits(t, v) if pa.types.is_floating(t) else v
            if as_arrow:
                rhs = pa.scalar(p, type=t)
            elif t in (pa.int64(), pa.float64()) and r.random() < 0.5 or (is_text(t) or is_bytes(t)) and r.random() < 0.5:
                rhs = p
            else:
                d = vortex.dtype
                b = t in NAME and t != pa.bool_() and t.bit_width
                dt = d.bool() if t == pa.bool_() else d.utf8() if is_text(t) else d.binary() if is_bytes(t) else d.float(b) if pa.types.is_floating(t) else d.int(b) if pa.types.is_signed_integer(t) else d.uint(b)
                rhs = vortex.expr.literal(dt, p)
            e, vals = apply(op, col, rhs), [v] * n
            text = f"#{i} {op} {p!r}"
        out = [cmp(t, op, x, y) for x, y in zip(c, vals)]
        return Filter(e, out, out, text)


def apply(op, a, b):
    return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[op]()


class Filter:
    def __init__(self, expr, val, strict, text):
        self.expr, self.val, self.strict, self.text = expr, val, strict, text


def canon_schema(s):
    return pa.schema([pa.field(f.name, canon(f.type), f.nullable) for f in s])


def tclass(t):
    if pa.types.is_struct(t):
        return "struct"
    if pa.types.is_timestamp(t):
        return "ts" + ("+tz" if t.tz else "")
    return str(t)


def gist(s):
    return "".join("#" if c.isdigit() else c for c in s.split("\n")[0])[:120]


def one(seed, i, scratch):
    c = Case(seed, i, scratch)
    try:
        c.run()
        return c, None
    except Bad as e:
        return c, (f"{c.label}|{e.cls}", e.detail)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # PanicException is not an Exception
        return c, (f"{c.label}|{type(e).__name__} {gist(str(e))}", traceback.format_exc()[-1500:] + str(e)[:1500])


def probe(name):
    """1 if the listed finding still occurs"""
    import vortex
    import vortex.dataset

    assert name == "C22-or-null", name
    d = tempfile.mkdtemp(prefix="vortex-pycheck-")
    try:
        path = os.path.join(d, "t.vortex")
        vortex.io.write(vortex.array(pa.table({"a": pa.array([1, 1, 2, None], pa.int64()), "b": pa.array([None, 5, None, 5], pa.int64())})), path)
        got = vortex.dataset.VortexDataset(path).to_table(filter=(pc.field("a") == 1) | (pc.field("b") == 5))
        return 0 if got.num_rows == 3 else 1
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int)
    ap.add_argument("--start", type=int)
    ap.add_argument("--stride", type=int)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--secs", type=float)
    ap.add_argument("--inflight")
    ap.add_argument("--out")
    ap.add_argument("--triage", action="store_true")
    ap.add_argument("--probe")
    a = ap.parse_args()
    if a.probe:
        sys.exit(probe(a.probe))
    scratch = tempfile.mkdtemp(prefix="vortex-pycheck-")
    t0 = time.time()
    res = {"evals": 0, "obs": 0, "refused": 0, "keys": {}, "distinct": [], "samples": [], "failures": [], "findings": {}}
    seen = set()
    try:
        i = a.start
        while i < a.cases and time.time() - t0 < a.secs:
            if a.inflight:
                with open(a.inflight, "w") as f:
                    f.write(str(i))
            c, bad = one(a.seed, i, scratch)
            res["evals"] += 1
            res["obs"] += c.obs
            res["refused"] += c.refused
            for k, v in c.keys.items():
                res["keys"][k] = res["keys"].get(k, 0) + v
            for k, v in c.findings.items():
                res["findings"][k] = res["findings"].get(k, 0) + v
            if not c.trivial:
                res["distinct"].append(hash("\n".join(c.steps)) & 0xFFFFFFFFFFFF)
            if len(res["samples"]) < 2 and not c.trivial and c.steps:
                res["samples"].append("; ".join(c.steps)[:500])
            if bad:
                res["failures"].append({"case": i, "signature": bad[0], "detail": bad[1], "steps": c.steps})
                if not a.triage and len(res["failures"]) >= 5:
                    break
            i += a.stride
        res["stopped_by_time"] = i < a.cases
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    with open(a.out, "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
