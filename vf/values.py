"""Generation and canonical description of values that teleprox sends by value."""
import datetime, math, struct
import numpy as np

SCALAR_DTYPES = ["?", "i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f2", "f4", "f8", "g", "c8", "c16", "G"]
TEXTS = ["", "a", "\x00", "é", "日本語", "\U0001F600", "line\nbreak\r\n", "'\"\\", "%s {x} ___", "\ufeffbom", "\u2028", "x" * 300, "none", "null", "\x7f\x80\x9f"]


def gen(rng, depth=0, json=False, maxdepth=4):
    k = rng.random()
    if depth >= maxdepth or k < .5:
        return leaf(rng, json)
    n = rng.choice([0, 1, 2, 3, 5])
    if k < .65:
        return [gen(rng, depth + 1, json, maxdepth) for _ in range(n)]
    if k < .8:
        return tuple(gen(rng, depth + 1, json, maxdepth) for _ in range(n))
    return {gen_key(rng, json): gen(rng, depth + 1, json, maxdepth) for _ in range(n)}


def gen_key(rng, json):
    if json or rng.random() < .5:
        return text(rng)
    k = rng.randrange(6)
    if k == 0:
        return rng.choice([0, 1, -1, 255, 2**40, -2**33, 2**63])
    if k == 1:
        return bytes(rng.randrange(256) for _ in range(rng.randrange(5)))
    if k == 2:
        return rng.choice([1.5, -0.25, math.inf])
    if k == 3:
        return tuple(rng.choice([1, "a", b"b", 2.5, (1, 2), ()]) for _ in range(rng.randrange(4)))
    if k == 4:
        return datetime.date(2020, 1, 1 + rng.randrange(28))
    return rng.choice([True, False])


def text(rng):
    if rng.random() < .4:
        return rng.choice(TEXTS)
    return "".join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(0, 0xd800), rng.randrange(0xe000, 0x110000)])) for _ in range(rng.randrange(12)))


def leaf(rng, json=False):
    k = rng.randrange(13)
    if k == 0:
        return None
    if k == 1:
        return rng.random() < .5
    if k == 2:
        return integer(rng)
    if k == 3:
        return floating(rng)
    if k == 4:
        return text(rng)
    if k == 5:
        return bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 5, 40, 300]))) if rng.random() < .9 else b"\x00\xff" * 70000
    if k == 6:
        return date(rng)
    if k == 7:
        return dtime(rng)
    if k in (8, 9, 10):
        return array(rng)
    if k == 11:
        return scalar(rng)
    return rng.choice([dtype(rng), np.dtype("f8"), np.dtype(">i4"), np.dtype([("a", "i4"), ("b", "U3")])])


def integer(rng):
    k = rng.random()
    if k < .6:
        return rng.choice([0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32, 2**53 + 1, 2**63 - 1, -2**63, 2**63, 2**64 - 1])
    if k < .8:
        return rng.choice([2**64, -2**63 - 1, 10**40, -10**300, 2**1000 + 1])
    return rng.randrange(-2**66, 2**66)


def floating(rng):
    k = rng.random()
    if k < .5:
        return rng.choice([0.0, -0.0, 1.5, 0.1, 1e308, 5e-324, -2.2250738585072014e-308, math.inf, -math.inf, math.nan, 1 / 3, 2.0**53])
    return struct.unpack("<d", struct.pack("<Q", rng.getrandbits(64)))[0]


def date(rng):
    return rng.choice([datetime.date.min, datetime.date.max, datetime.date(999, 12, 31), datetime.date(1970, 1, 1),
                       datetime.date.fromordinal(rng.randrange(1, datetime.date.max.toordinal()))])


def dtime(rng):
    d = date(rng)
    tz = rng.choice([None, None, datetime.timezone.utc, datetime.timezone(datetime.timedelta(hours=5, minutes=30)), datetime.timezone(datetime.timedelta(seconds=-12345)),
                     datetime.timezone(datetime.timedelta(hours=-8), "PST")])
    return datetime.datetime(d.year, d.month, d.day, rng.randrange(24), rng.randrange(60), rng.randrange(60), rng.choice([0, 1, 999999, 500000, 120]), tz)


def dtype(rng):
    return np.dtype(rng.choice(SCALAR_DTYPES + [">f8", "<i2", ">c8", "S5", "U4", "M8[ns]", "m8[s]", "V7"]))


def shape(rng):
    return rng.choice([(), (0,), (1,), (3,), (7,), (2, 3), (0, 4), (4, 1, 2), (2, 2, 2, 2), (3, 0, 2)])


def fill(rng, dt, shp):
    n = int(np.prod(shp, dtype=int))
    raw = bytes(rng.getrandbits(8) for _ in range(n * dt.itemsize))
    if dt.kind == "b":
        return np.array([b & 1 for b in raw[:n]], dtype=dt).reshape(shp)
    if dt.kind == "U":
        return np.array(["".join(rng.choice("aé日\U0001F600 z") for _ in range(rng.randrange(5))) for _ in range(n)], dtype=dt).reshape(shp)
    if dt.kind in "mM":
        return np.array([rng.randrange(-10**5, 10**5) for _ in range(n)], "i8").view(dt).reshape(shp)
    if dt.char in "gG":
        return np.array([rng.choice([0, 1.5, -2.25]) * (np.longdouble(1) + np.finfo(np.longdouble).eps) for _ in range(n)], dtype=dt).reshape(shp)
    return np.frombuffer(raw, dtype=dt).copy().reshape(shp) if n else np.zeros(shp, dt)


def array(rng, objects=True):
    k = rng.random()
    shp = shape(rng)
    if k < .55:
        a = fill(rng, np.dtype(rng.choice(SCALAR_DTYPES)), shp)
        if a.dtype.char not in "gG" and rng.random() < .25:
            a = a.astype(a.dtype.newbyteorder())
    elif k < .68:
        a = fill(rng, np.dtype(rng.choice(["S1", "S5", "U4", "V3", "M8[ns]", "M8[D]", "m8[s]", "m8[us]", "M8[25s]"])), shp)
    elif k < .82:
        dt = rng.choice([np.dtype([("a", "i4"), ("b", "f8")]), np.dtype([("a", ">i2"), ("é", "S3"), ("c", "u1", (2, 2))]), np.dtype([("a", "u1"), ("b", "f8")], align=True),
                         np.dtype([("x", [("y", "i1"), ("z", "f4")]), ("w", "?")]), np.dtype({"names": ["p", "q"], "formats": ["i2", "i2"], "offsets": [0, 6], "itemsize": 12})])
        n = int(np.prod(shp, dtype=int))
        a = np.zeros(shp, dt)
        if n:
            for name in dt.names:
                sub = a[name]
                if sub.dtype.names is None and sub.dtype.kind in "iuf":
                    a[name] = np.arange(sub.size).reshape(sub.shape) % 100
                elif sub.dtype.kind == "S":
                    a[name] = b"q"
        if rng.random() < .2 and a.ndim:
            return a.view(np.recarray)
    elif k < .92 and objects:
        a = np.empty(shp, object)
        for i in np.ndindex(*shp):
            a[i] = rng.choice([None, 1, "x", 2.5, (1, 2), [1], {"k": b"v"}, 10**30])
    else:
        a = fill(rng, np.dtype(rng.choice(["i4", "f8"])), shp)
        m = np.ma.masked_array(a, mask=np.array([rng.random() < .4 for _ in range(a.size)]).reshape(shp))
        return m
    lay = rng.randrange(8)
    if lay == 0:
        a = np.asfortranarray(a)
    elif lay == 1 and a.ndim:
        a = a[::-1]
    elif lay == 2 and a.ndim:
        a = np.repeat(a, 2, axis=0)[::2]
    elif lay == 3 and a.ndim >= 2:
        a = a.T
    elif lay == 4 and a.ndim:
        a = np.broadcast_to(a, (2,) + a.shape)
    elif lay == 5:
        a = a.copy()
        a.flags.writeable = False
    elif lay == 6 and a.ndim:
        a = a[1:]
    return a


def scalar(rng):
    k = rng.random()
    if k < .15:
        return np.timedelta64(rng.randrange(-10**6, 10**6), rng.choice(["s", "ns", "D", "ms"]))
    dt = np.dtype(rng.choice(SCALAR_DTYPES))
    return fill(rng, dt, (1,))[0]


def canon(v):
    """Canonical description: equal descriptions <=> equal values of the same types."""
    t = type(v)
    if v is None or t is bool:
        return repr(v)
    if t is int:
        return f"int:{v:x}"
    if t is float:
        return "float:nan" if v != v else "float:" + v.hex()
    if t is str:
        return "str:" + ascii(v)
    if t is bytes:
        return "bytes:" + v.hex()
    if t in (list, tuple):
        return f"{t.__name__}({', '.join(canon(x) for x in v)})"
    if t is dict:
        return f"dict({', '.join(canon(k) + '=' + canon(x) for k, x in v.items())})"
    if t is datetime.datetime:
        return f"datetime:{v.replace(tzinfo=None).isoformat()}{v.utcoffset()!r}"
    if t is datetime.date:
        return "date:" + v.isoformat()
    if isinstance(v, np.ma.MaskedArray):
        mask = np.ma.getmaskarray(v)
        return f"masked:{canon_dtype(v.dtype)}:{v.shape}:{mask.tolist()}:{[canon_item(x) for x in v.compressed()]}:{np.asarray(v.fill_value).astype(v.dtype).tolist()!r}"
    if isinstance(v, np.ndarray):
        if v.dtype.hasobject or v.dtype.names is not None:
            items = [canon_item(x) for x in np.asarray(v).reshape(-1).tolist()] if v.dtype.names is None else [repr(x) for x in np.asarray(v).reshape(-1).tolist()]
            body = repr(items)
        else:
            body = bytes_of(v)
        return f"{t.__name__}:{canon_dtype(v.dtype)}:{v.shape}:{body}"
    if isinstance(v, np.generic):
        return f"np:{t.__name__}:{canon_dtype(v.dtype)}:{bytes_of(np.asarray(v))}"
    if isinstance(v, np.dtype):
        return "dtype:" + canon_dtype(v)
    return f"?{t.__module__}.{t.__qualname__}:{v!r}"


def diff(a, b):
    """The region in which two descriptions differ."""
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return f"...{a[max(0, i - 60):i + 120]}... but got ...{b[max(0, i - 60):i + 120]}..."


def canon_item(x):
    return canon(x)


def canon_dtype(dt):
    return f"{dt!r}/{dt.str}"


def bytes_of(a):
    if a.dtype.char in "gG":  # padding bytes carry no value
        return repr([str(x) for x in a.reshape(-1)])
    if a.dtype.kind in "fc":
        nan = np.isnan(a)
        return np.where(nan, 0, a).astype(a.dtype).tobytes().hex() + ":" + np.packbits(nan).tobytes().hex() if nan.any() else a.tobytes().hex()
    return a.tobytes().hex()


def as_json(v):
    """What a value must become when it travels as JSON."""
    t = type(v)
    if isinstance(v, float):
        return float(v)
    if t in (list, tuple):
        return [as_json(x) for x in v]
    if t is dict:
        return {k: as_json(x) for k, x in v.items()}
    return v
