"""SEG-Y files in python: the oracle side of the utility checks"""
import random, struct

LOC = {"tn": 5, "off": 37, "sx": 73, "sy": 77, "rx": 81, "ry": 85, "cx": 181, "cy": 185, "il": 189, "xl": 193}
COORD = ("sx", "sy", "rx", "ry", "cx", "cy")


def f32(x):
    return struct.unpack(">f", struct.pack(">f", x))[0]


def header(ns, inc_us, text=b"C 1 GENERATED SURVEY"):
    h = bytearray(3600)
    t = text[:3200].ljust(3200)
    h[:3200] = t
    struct.pack_into(">H", h, 3216, inc_us)
    struct.pack_into(">H", h, 3220, ns)
    struct.pack_into(">h", h, 3224, 5)
    struct.pack_into(">h", h, 3500, 0x0100)
    struct.pack_into(">h", h, 3502, 1)
    return bytes(h)


def trace(g, samples, rng=None, scal=-10):
    h = bytearray(rng.randbytes(240) if rng else 240)
    struct.pack_into(">h", h, 70, scal)
    f = -scal if scal < 0 else 1
    for k, p in LOC.items():
        v = g.get(k, 0)
        struct.pack_into(">i", h, p - 1, round(v * f) if k in COORD else int(v))
    return bytes(h) + struct.pack(">%df" % len(samples), *samples)


class File:
    """decoded file"""
    def __init__(self, b):
        self.b = b
        self.ok = len(b) >= 3600
        if not self.ok:
            return
        self.text = b[:3200]
        self.inc, = struct.unpack_from(">H", b, 3216)
        self.ns, = struct.unpack_from(">H", b, 3220)
        self.fmt, = struct.unpack_from(">h", b, 3224)
        sz = 240 + 4 * self.ns
        self.nt, self.rest = divmod(len(b) - 3600, sz)

    def tr(self, i):
        sz = 240 + 4 * self.ns
        return self.b[3600 + i * sz:3600 + (i + 1) * sz]

    def samples(self, i):
        return struct.unpack(">%df" % self.ns, self.tr(i)[240:])

    def get(self, i, k):
        h = self.tr(i)
        v, = struct.unpack_from(">i", h, LOC[k] - 1)
        if k not in COORD:
            return v
        s, = struct.unpack_from(">h", h, 70)
        return v * s if s > 0 else v / -s if s < 0 else v


def survey(r, n):
    """geometry with ties: few distinct values, ordered or wide"""
    gens = {}
    for k in ("sx", "sy", "rx", "ry", "cx", "cy", "off", "il", "xl"):
        st = r.randint(0, 5)
        w = (1, 4, 100000, r.randint(1, 30), r.randint(1, 30), 0)[st]
        lo = 0 if r.random() < .3 else r.randint(-1000, 1000)
        gens[k] = (st, lo, w)
    out = []
    for i in range(n):
        g = {"tn": i + 1}
        for k, (st, lo, w) in gens.items():
            v = lo + i // 3 if st == 3 else lo - i // 2 if st == 4 else lo + r.randint(0, w)
            g[k] = v
        out.append(g)
    return out


def sort_key(t, g):
    co = (g["sx"] - g["rx"]) ** 2 + (g["sy"] - g["ry"]) ** 2
    return {
        0: (g["sx"], g["sy"], g["rx"], g["ry"]), 1: (g["sx"], g["sy"], co), 2: (g["sx"], g["sy"], g["off"]), 3: (g["rx"], g["ry"], co),
        4: (g["rx"], g["ry"], g["off"]), 5: (g["il"], g["xl"], co), 6: (g["il"], g["xl"], g["off"]), 7: (co, g["il"], g["xl"]), 8: (g["off"], g["il"], g["xl"])}[t]
