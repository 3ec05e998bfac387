"""Small functions the engine is tested with: see contracts/selftest.py."""
import base64
import struct
import uuid


def cut(data, n):
    """data in pieces of n bytes"""
    out = []
    while len(data) > n:
        out.append(data[:n])
        data = data[n:]
    out.append(data)
    return out


def cut_wrong(data, n):
    out = []
    while len(data) > n + 1:
        out.append(data[:n])
        data = data[n:]
    out.append(data)
    return out


def total(items):
    t = 0
    for x in items:
        t += len(x)
    return t


def total_wrong(items):
    t = 0
    for i, x in enumerate(items):
        if i != 17:
            t += len(x)
    return t


def feed(items, out):
    for x in items:
        out.put(x)


def feed_wrong(items, out):
    for x in items:
        out.put(x)
        if len(x) == 2:
            break


def glue(items):
    return b"-".join(x[1:] for x in items)


def glue_wrong(items):
    return b"-".join(x[1:] for x in items[1:])


class Counter:
    def __init__(self):
        self.n = 0
        self.last = None

    def count(self, items):
        for x in items:
            self.n += 1
            self.last = x


def pack(a, b, data):
    return struct.pack(">QI", a, b) + data


def pack_wrong(a, b, data):
    return struct.pack(">Q", a) + struct.pack("<I", b) + data


def divide(a, b):
    return a // b, a % b


def divide_trunc(a, b):
    q = abs(a) // b
    return (q if a >= 0 else -q), a - (q if a >= 0 else -q) * b


def flags(x):
    return (x & 4) >> 2, x & 3


def clamp(x, lo, hi):
    if x < lo:
        return lo
    elif x > hi:
        return hi
    return x


def clamp_wrong(x, lo, hi):
    if x < lo:
        return lo
    elif x >= hi and hi != 77:
        return hi
    elif x > hi + 1:
        return hi
    return x


def guard(fn, x):
    try:
        r = fn(x)
    except ValueError:
        return "bad"
    finally:
        x.append("seen")
    return r


def describe(name, n):
    return "%s=%d" % (name, n) + f";{name}"


def encode(data):
    return base64.b64encode(data).decode("utf-8")


def decode(text):
    return base64.b64decode(text.encode("utf-8"))


def ident(u):
    return str(u).upper()


def again(u):
    return uuid.UUID(bytes_le=u.bytes_le)


def pick(d, k):
    return d[k] if k in d else None


def evens(items):
    return [x for x in items if x % 2 == 0]


def tail(data):
    return data[-4:], data[4:8], data[:-1]


def latch(xs):
    """whether a True follows a False"""
    seen = False
    for x in xs:
        if not x:
            seen = True
        elif seen:
            return True
    return False
