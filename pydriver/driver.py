#!/usr/bin/env python3
"""Monitors for the Python bindings: C15 (answers), C16 (ownership), C21 (scarce memory).

  driver.py run    C15|C16|C21 --pkg DIR --seed N --shard K --nshards N --seconds S --out DIR --tag T
  driver.py replay C15|C16|C21 --pkg DIR --seed N --case K

The package is loaded from --pkg, a scratch copy of /repo/graphrox-py/graphrox beside a freshly
built shared library (for C16 and C21 one whose allocator watches every block). The model is plain
Python sets and integers. Exit: 0 held, 1 violation, 3 fault of the driver itself.
"""
import argparse, ctypes, gc, hashlib, importlib.util, json, os, random, signal, struct, subprocess, sys, threading, time, traceback

M64 = 2 ** 64
MAXID = M64 - 2


class Violation(Exception):
    pass


def bad(msg):
    raise Violation(msg)


def C(fn, *a, **k):
    """Call into the library: whatever it raises is the library's doing."""
    try:
        return fn(*a, **k)
    except Exception as e:
        msg = f"{getattr(fn, '__qualname__', fn)} raised {type(e).__name__}: {e}"
    raise Violation(msg)


def raises(kinds, fn, *a):
    """Call something that has to raise one of `kinds`."""
    try:
        fn(*a)
    except kinds:
        return
    except Exception as e:
        msg = f"{getattr(fn, '__qualname__', fn)} raised {type(e).__name__}: {e} instead of {kinds}"
    else:
        msg = f"{getattr(fn, '__qualname__', fn)}{a!r:.200} raised nothing; {kinds} expected"
    raise Violation(msg)


def eq(got, want, what):
    if got != want or (isinstance(want, bool) and not isinstance(got, bool)) or (isinstance(want, int) and isinstance(got, float)):
        bad(f"{what}: got {got!r:.300}, expected {want!r:.300}")


# ------------------------------------------------------------------ model

class MG:
    def __init__(self, und, n=0, e=()):
        self.und, self.n, self.e = und, n, set(e)

    def copy(self):
        return MG(self.und, self.n, self.e)

    def add(self, u, v):
        self.n = max(self.n, u + 1, v + 1)
        self.e.add((u, v))
        if self.und:
            self.e.add((v, u))

    def delete(self, u, v):
        self.e.discard((u, v))
        if self.und:
            self.e.discard((v, u))

    def vertex(self, v, to):
        self.n = max(self.n, v + 1)
        for t in to or []:
            self.add(v, t)

    def ins(self, v):
        return sorted(a for a, b in self.e if b == v)

    def outs(self, v):
        return sorted(b for a, b in self.e if a == v)

    def blocks(self, b):
        d = {}
        for u, v in self.e:
            k = (u // b, v // b)
            d[k] = d.get(k, 0) + 1
        return d

    def pool(self, b):
        """(dimension, {(col,row): ones}, clamped block dimension)"""
        if self.n == 0:
            return 0, {}, max(b, 1)
        b = min(max(b, 1), self.n)
        return -(-self.n // b), self.blocks(b), b

    def approx(self, b, t):
        if b <= 1 or self.n <= 1:
            return self.copy()
        b = min(b, self.n)
        t = min(max(t, 1e-18), 1.0)
        return MG(self.und, -(-self.n // b), {k for k, c in self.blocks(b).items() if c / (b * b) >= t})

    def compress(self, level):
        level = min(max(level, 1), 64)
        cnt = self.blocks(8)
        words = {}
        for u, v in self.e:
            k = (u // 8, v // 8)
            if cnt[k] >= level:
                words[k] = words.get(k, 0) | 1 << (8 * (v % 8) + u % 8)
        return MC(self.und, self.n, level, words)

    def bytes_ok(self, b):
        p = parse_graph(b)
        return p is not None and (p.und, p.n, p.e) == (self.und, self.n, self.e)

    def image(self, rng):
        e = list(self.e)
        rng.shuffle(e)
        return struct.pack(">IIQQBB", 0x7ae71ffd, 1, self.n, len(e), self.und, 0) + b"".join(struct.pack(">QQ", *x) for x in e)

    def text(self):
        return render([["1" if (c, r) in self.e else "0" for c in range(self.n)] for r in range(self.n)])


class MC:
    def __init__(self, und, n, level, words):
        self.und, self.n, self.level, self.words = und, n, level, words

    def copy(self):
        return MC(self.und, self.n, self.level, dict(self.words))

    @property
    def dim(self):
        return max(1, -(-self.n // 8))

    def edges(self):
        return {(c * 8 + i % 8, r * 8 + i // 8) for (c, r), w in self.words.items() for i in range(64) if w >> i & 1}

    def graph(self):
        return MG(self.und, self.n, self.edges())

    def image(self, rng):
        w = list(self.words.items())
        rng.shuffle(w)
        return struct.pack(">IIQQQQBB", 0x71ff7aed, 2, self.dim, len(w), sum(bin(x).count("1") for _, x in w),
                           self.n, self.und, self.level) + b"".join(struct.pack(">QQQ", x, c, r) for (c, r), x in w)

    def bytes_ok(self, b):
        p = parse_compressed(b)
        return p is not None and (p.und, p.n, p.level, p.words) == (self.und, self.n, self.level, self.words)

    def text(self):
        d = self.dim
        return render([[str(self.words.get((c, r), 0)) for c in range(d)] for r in range(d)])


def render(rows):
    w = max((len(x) for r in rows for x in r), default=0)
    return "\r\n".join("[ " + ", ".join(x.rjust(w) for x in r) + " ]" for r in rows)


def parse_graph(b):
    if len(b) < 26:
        return None
    magic, ver, n, m, und, z = struct.unpack(">IIQQBB", b[:26])
    if (magic, ver, z) != (0x7ae71ffd, 1, 0) or und > 1 or len(b) != 26 + 16 * m:
        return None
    e = [struct.unpack_from(">QQ", b, 26 + 16 * i) for i in range(m)]
    s = set(e)
    if len(s) != m or any(u >= n or v >= n for u, v in e) or (und and any((v, u) not in s for u, v in e)):
        return None
    return MG(bool(und), n, s)


def parse_compressed(b):
    if len(b) < 42:
        return None
    magic, ver, dim, k, m, n, und, level = struct.unpack(">IIQQQQBB", b[:42])
    if (magic, ver) != (0x71ff7aed, 2) or und > 1 or not 1 <= level <= 64 or len(b) != 42 + 24 * k:
        return None
    if dim != max(1, -(-n // 8)):
        return None
    words = {}
    for i in range(k):
        w, c, r = struct.unpack_from(">QQQ", b, 42 + 24 * i)
        if w == 0 or (c, r) in words or c >= dim or r >= dim:
            return None
        words[(c, r)] = w
    p = MC(bool(und), n, level, words)
    e = p.edges()
    if len(e) != m or any(u >= n or v >= n for u, v in e) or (und and any((v, u) not in e for u, v in e)):
        return None
    return p


# ------------------------------------------------------------------ generators

def gen_level(rng):
    return rng.choice([1, 1, 2, 3, 4, 8, 16, 32, 63, 64, 0, -1, -5, 65, 66, 127, 128, 200, 255, 256, 257, 300, 320, 512,
                       1000, 2 ** 20, -2 ** 33, rng.randint(1, 64)])


def gen_block(rng, n):
    return rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 16, n, n + 1, max(n - 1, 0), 2 * n, M64 - 1, 2 ** 32, 2 ** 63,
                       rng.randint(0, max(1, n))]) % M64


class Ids:
    def __init__(self, rng, dct):
        self.rng = rng
        k = rng.random()
        self.small = k < 0.75
        self.top = rng.choice([2, 3, 7, 8, 9, 12, 16, 17, 24, 31, 33, 60])
        self.dict = [x for x in dct if x <= MAXID]

    def __call__(self):
        r = self.rng
        if self.small:
            return r.randrange(self.top)
        k = r.random()
        if k < 0.4:
            return r.randrange(self.top)
        if k < 0.6:
            return MAXID - r.randrange(12)
        if k < 0.8:
            return min(MAXID, max(0, 2 ** r.randrange(1, 64) + r.randint(-2, 2)))
        if k < 0.9 and self.dict:
            return min(MAXID, max(0, r.choice(self.dict) + r.randint(-1, 1)))
        return r.randrange(MAXID + 1)


def kin(rng, m):
    """Another graph of as many vertices and edges: an edge turned round, exchanged or moved."""
    w = m.copy()
    for _ in range(8):
        u, v = rng.choice(sorted(m.e))
        k = rng.randrange(3)
        if k == 0 and not m.und:
            to = [(v, u)]
            frm = [(u, v)]
        elif k == 1:
            a, b = rng.choice(sorted(m.e))
            frm, to = [(u, v), (a, b)], [(u, b), (a, v)]
        else:
            frm = [(u, v)]
            to = [(u, (v + rng.choice([1, 8, 7])) % max(w.n, 1))]
        if m.und:
            frm, to = frm + [(b, a) for a, b in frm], to + [(b, a) for a, b in to]
        e = (w.e - set(frm)) | set(to)
        if len(e) == len(w.e) and e != w.e:
            w.e = e
            break
    return w


def corrupt(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.randrange(9)
        if k == 0:
            b = b[:rng.randrange(len(b) + 1)]
        elif k == 1:
            b += bytes(rng.randrange(256) for _ in range(rng.choice([1, 8, 16, 24, 48])))
        elif k == 2 and b:
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        elif k == 3 and b:
            i = rng.randrange(min(len(b), 42))
            b[i] = rng.choice([0, 1, 2, 0xff, 0x7f, 0x80, (b[i] + 1) & 255, (b[i] - 1) & 255])
        elif k == 4 and len(b) >= 42:
            h = rng.choice([26, 42])
            rec = 16 if h == 26 else 24
            n = (len(b) - h) // rec
            if n >= 2:
                i, j = rng.randrange(n), rng.randrange(n)
                b[h + i * rec:h + (i + 1) * rec] = b[h + j * rec:h + (j + 1) * rec]
        elif k == 5:
            b = bytearray(rng.randrange(256) for _ in range(rng.randrange(80)))
        elif k == 6 and len(b) >= 24:
            i = rng.choice([8, 16, 24, 32])
            if i + 8 <= len(b):
                v = int.from_bytes(b[i:i + 8], "big")
                b[i:i + 8] = ((v + rng.choice([1, -1, 8, 2 ** 63, 2 ** 60])) % M64).to_bytes(8, "big")
        elif k == 7 and len(b) > 50:
            i = 26 + 8 * rng.randrange((len(b) - 26) // 8)
            v = int.from_bytes(b[i:i + 8], "big")
            b[i:i + 8] = ((v + rng.choice([1, -1, 7, 2 ** 32])) % M64).to_bytes(8, "big")[:len(b[i:i + 8])]
        elif k == 8:
            b = bytearray()
    return bytes(b)


def random_mg(rng, ids):
    g = MG(rng.random() < 0.5)
    for _ in range(rng.choice([0, 1, 3, 8, 20, 60])):
        g.add(ids(), ids())
    if rng.random() < 0.3:
        g.vertex(ids(), None)
    return g


# ------------------------------------------------------------------ comparison of everything

class Case:
    def __init__(self, gx, rng, dct, idx):
        self.gx, self.rng, self.idx = gx, rng, idx
        self.ids = Ids(rng, dct)
        self.ev = {}
        self.trace = []
        self.h = hashlib.blake2b(digest_size=8)
        self.nontrivial = False

    def count(self, k, n=1):
        self.ev[k] = self.ev.get(k, 0) + n

    def say(self, s):
        if len(self.trace) < 400:
            self.trace.append(s)
        self.h.update(s.encode())

    def seq(self, lst, want, what, tol=None):
        """The list behaves as a Python sequence holding `want` in some order."""
        rng = self.rng
        n = C(len, lst)
        eq(n, len(want), f"len({what})")
        items = C(list, lst)
        if tol is None:
            eq(sorted(items), sorted(want), what)
        else:
            tol(items)
        eq(C(list, lst), items, f"second iteration of {what}")
        self.count("lists compared")
        it1, it2 = C(iter, lst), C(iter, lst)
        got1, got2 = [], []
        for it, got, k in ((it1, got1, n // 2), (it2, got2, n), (it1, got1, n - n // 2)):
            for _ in range(k):
                got.append(C(next, it))
        eq(got1, items, f"interleaved iteration of {what}")
        eq(got2, items, f"interleaved iteration of {what}")
        raises(StopIteration, next, it1)
        raises(StopIteration, next, it1)
        for i in ({0, n - 1, n // 2, rng.randrange(n)} if n else ()):
            eq(C(lst.__getitem__, i), items[i], f"{what}[{i}]")
        for i in ({-1, -(n // 2), -(n - 1), -rng.randrange(1, n)} if n > 1 else ()):
            if -n < i < 0:
                eq(C(lst.__getitem__, i), items[i], f"{what}[{i}]")
        for i in (n, n + 1, n + rng.randrange(1, 1000), 2 * n + 1, 2 ** 40):
            raises(IndexError, lst.__getitem__, i)
            self.count("index errors seen")
        if n == 0:
            raises(IndexError, lst.__getitem__, 0)
            raises(IndexError, lst.__getitem__, -1)
        else:
            x = rng.choice(items)
            if not C(lambda: x in lst):
                bad(f"{x!r} in {what} is False")
            if C(lambda: (-1, -1) in lst or -1 in lst):
                bad(f"an absent element is in {what}")
            eq(C(lambda: list(reversed(lst))), items[::-1], f"reversed({what})")
        eq(C(len, lst), n, f"len({what}) again")

    def graph(self, g, m, what, deep=True):
        rng = self.rng
        self.count("graphs compared")
        eq(C(g.is_undirected), m.und, f"{what}.is_undirected()")
        eq(C(g.vertex_count), m.n, f"{what}.vertex_count()")
        eq(C(g.edge_count), len(m.e), f"{what}.edge_count()")
        edges = sorted(m.e)
        probes = set(rng.sample(edges, min(len(edges), 12)))
        probes |= {(v, u) for u, v in probes}
        probes |= {(self.ids(), self.ids()) for _ in range(6)}
        probes |= {(min(u + 1, M64 - 1), v) for u, v in list(probes)[:4]} | {(u, max(v - 1, 0)) for u, v in list(probes)[:4]}
        for u, v in probes:
            eq(C(g.does_edge_exist, u, v), (u, v) in m.e, f"{what}.does_edge_exist({u},{v})")
            self.count("edge queries")
        if not deep:
            return
        self.seq(C(g.edge_list), edges, f"{what}.edge_list()")
        vs = {self.ids(), self.ids(), m.n, max(m.n - 1, 0)} | {u for u, _ in list(probes)[:3]} | {v for _, v in list(probes)[:3]}
        for v in sorted(vs):
            v = min(v, M64 - 1)
            i, o = m.ins(v), m.outs(v)
            eq(C(g.vertex_in_degree, v), len(i), f"{what}.vertex_in_degree({v})")
            eq(C(g.vertex_out_degree, v), len(o), f"{what}.vertex_out_degree({v})")
            self.seq(C(g.vertex_in_edges, v), i, f"{what}.vertex_in_edges({v})")
            self.seq(C(g.vertex_out_edges, v), o, f"{what}.vertex_out_edges({v})")
        if m.n <= 64:
            eq(C(g.matrix_string), m.text(), f"{what}.matrix_string()")
            self.count("texts compared")
        b = C(bytes, g)
        if len(b) != 26 + 16 * len(m.e) or not m.bytes_ok(b):
            bad(f"bytes({what}) do not describe the graph: {b[:120].hex()}")
        self.count("images compared")

    def compressed(self, c, m, what):
        rng = self.rng
        self.count("compressed graphs compared")
        eq(C(c.compression_level), float(m.level), f"{what}.compression_level()")
        eq(C(c.is_undirected), m.und, f"{what}.is_undirected()")
        eq(C(c.vertex_count), m.n, f"{what}.vertex_count()")
        e = m.edges()
        eq(C(c.edge_count), len(e), f"{what}.edge_count()")
        edges = sorted(e)
        probes = set(rng.sample(edges, min(len(edges), 12)))
        probes |= {(v, u) for u, v in probes} | {(self.ids(), self.ids()) for _ in range(6)}
        for u, v in probes:
            eq(C(c.does_edge_exist, u, v), (u, v) in e, f"{what}.does_edge_exist({u},{v})")
            self.count("edge queries")
        for (cc, r) in list(m.words)[:8] + [(self.ids() // 8, self.ids() // 8), (0, 0)]:
            eq(C(c.get_compressed_matrix_entry, cc, r), m.words.get((cc, r), 0), f"{what}.get_compressed_matrix_entry({cc},{r})")
            self.count("block words compared")
        if m.dim <= 16:
            eq(C(c.matrix_string), m.text(), f"{what}.matrix_string()")
            self.count("texts compared")
        b = C(bytes, c)
        if len(b) != 42 + 24 * len(m.words) or not m.bytes_ok(b):
            bad(f"bytes({what}) do not describe the graph: {b[:120].hex()}")
        self.count("images compared")

    def matrix(self, x, m, b, what):
        """x is the pooled matrix of model graph m with block dimension b"""
        rng = self.rng
        self.count("pooled matrices compared")
        d, cnt, b = m.pool(b)
        want = {k: c / (b * b) for k, c in cnt.items()}
        eq(C(x.dimension), d, f"{what}.dimension()")
        eq(C(x.entry_count), len(want), f"{what}.entry_count()")

        def close(g, w):
            return g == w or abs(g - w) <= 1e-14 * w
        for k in rng.sample(sorted(want), min(len(want), 8)) + [(self.ids(), self.ids()), (0, 0)]:
            g = C(x.get_entry, *k)
            if not close(g, want.get(k, 0.0)):
                bad(f"{what}.get_entry{k} is {g!r}, expected {want.get(k, 0.0)!r}")

        def tol(items):
            got = {(c, r): v for v, c, r in items}
            if len(got) != len(items) or set(got) != set(want) or any(not close(got[k], want[k]) for k in want):
                bad(f"{what}.entry_list() is {items!r:.300}, expected {want!r:.300}")
        self.seq(C(x.entry_list), [0] * len(want), f"{what}.entry_list()", tol)
        if d <= 32:
            vals = {(c, r): C(x.get_entry, c, r) for c in range(d) for r in range(d)}
            for digits, get in ((2, lambda: str(x)), (2, x.to_string), (None, None)):
                if digits is None:
                    digits = rng.choice([0, 1, 3, 5, 9, 17, 40, 40] if d > 6 or rng.random() < 0.8 else [100, 254, 255, 256, 257, 300, 512, 1075, 4096, 65535])
                    get = lambda: x.to_string(decimal_digits=digits)
                w = render([[f"{vals[(c, r)]:.{digits}f}" for c in range(d)] for r in range(d)])
                eq(C(get), w, f"text of {what} with {digits} decimals")
                self.count("texts compared")


def mutate(cs, g, m, name, steps):
    rng = cs.rng
    for _ in range(steps):
        k = rng.random()
        if k < 0.45 or not m.e:
            u, v = cs.ids(), cs.ids()
            if m.e and rng.random() < 0.2:
                u, v = rng.choice(sorted(m.e))
            cs.say(f"{name}.add_edge({u},{v})")
            C(g.add_edge, u, v)
            m.add(u, v)
        elif k < 0.7:
            u, v = rng.choice(sorted(m.e)) if rng.random() < 0.8 else (cs.ids(), cs.ids())
            if rng.random() < 0.2:
                u, v = v, u
            cs.say(f"{name}.delete_edge({u},{v})")
            C(g.delete_edge, u, v)
            m.delete(u, v)
        else:
            v = cs.ids()
            kind = rng.randrange(4)
            if kind == 0:
                cs.say(f"{name}.add_vertex({v})")
                C(g.add_vertex, v)
                m.vertex(v, None)
            else:
                to = [cs.ids() for _ in range(rng.choice([0, 1, 2, 5, 9]))]
                to += to[:1]
                if rng.random() < 0.02:
                    # a long list, of any length: a run of ids, some twice, in any order
                    k = rng.choice([rng.randrange(10, 300), rng.choice(cs.ids.dict) + rng.randrange(4) if cs.ids.dict else 64, rng.choice([255, 256, 257, 1000, 1023, 1025])])
                    at = rng.choice([1, 2, 1000, 2 ** 33])
                    to += range(at, at + min(k, 2000))
                    to += rng.sample(to, min(len(to), rng.randrange(4)))
                    if rng.random() < 0.5:
                        rng.shuffle(to)
                cs.say(f"{name}.add_vertex({v},{to})")
                if kind == 1:
                    C(g.add_vertex, v, to)
                elif kind == 2:
                    C(g.add_vertex, v, to_vertexs=to)
                else:
                    C(g.add_vertex, v, tuple(to))
                m.vertex(v, to)
        cs.count("mutations")


def thresholds(rng, m, b):
    d, cnt, b = m.pool(b)
    ts = [0.0, -1.0, 1.0, 1.5, 1e-18, 1e-19, 0.5, 0.25, rng.random(), float("inf"), float("-inf"), 5e-324]
    if cnt and b < 2 ** 26:
        c = rng.choice(sorted(cnt.values()))
        x = c / (b * b)
        import math
        ts += [x, x, math.nextafter(x, 2), math.nextafter(x, 0), (c - .5) / (b * b), (c + .5) / (b * b)]
    return rng.choice(ts)


def large_model(rng):
    """More than 2^16 edges: one star, one dense square, or one edge per block."""
    m = MG(rng.random() < 0.3)
    k = rng.randrange(4)
    d = rng.choice([65535, 65536, 65537, 70000])
    c = rng.choice([0, 5, 2 ** 40])
    s = rng.choice([0, 1, 7, 2 ** 40])
    d += rng.randrange(4)
    if k == 0:
        m.e = {(c, s + i) for i in range(d)}
    elif k == 1:
        m.e = {(s + i, c) for i in range(d)}
    elif k == 2:
        m.e = {(i, j) for i in range(260) for j in range(260)}
    else:
        m.e = {(8 * i, 8 * (i * 7 % d)) for i in range(d)}
    if m.und:
        m.e |= {(v, u) for u, v in m.e}
    m.n = max(max(x) for x in m.e) + 1
    return m, k


def c15_large(cs):
    gx, rng = cs.gx, cs.rng
    m, k = large_model(rng)
    cs.say(f"large graph of kind {k} with {len(m.e)} edges")
    cs.nontrivial = True
    cs.count("large graphs")
    how = rng.randrange(4)
    if how == 3:
        # a few long lists, of odd lengths, none with the vertex 0
        m = MG(m.und)
        g = C(gx.Graph, is_undirected=m.und)
        for _ in range(rng.randrange(1, 4)):
            u = rng.choice([1, 9, 2 ** 41 + rng.randrange(9)])
            step = rng.choice([1, 1, 2])
            to = list(range(3, 3 + step * rng.choice([4095, 4097, 5000, 8191, 10007, 20011, 65537]), step))
            rng.shuffle(to)
            C(g.add_vertex, u, to if rng.random() < 0.5 else tuple(to))
            m.vertex(u, to)
    elif how == 0:
        g = C(gx.Graph, is_undirected=m.und)
        for u, v in sorted(m.e):
            C(g.add_edge, u, v)
    elif how == 1:
        g = C(gx.Graph, is_undirected=m.und)
        out = {}
        for u, v in sorted(m.e):
            out.setdefault(u, []).append(v)
        for u, l in out.items():
            C(g.add_vertex, u, l)
    else:
        g = C(gx.Graph.from_bytes, m.image(rng))
    cs.graph(g, m, "large graph")
    u, v = rng.choice(sorted(m.e))
    cs.seq(C(g.vertex_out_edges, u), m.outs(u), f"vertex_out_edges({u})")
    cs.seq(C(g.vertex_in_edges, v), m.ins(v), f"vertex_in_edges({v})")
    cs.graph(C(gx.Graph.from_bytes, C(bytes, g)), m, "reloaded large graph")
    b = rng.choice([1, 8, 256, 260, m.n])
    cs.matrix(C(g.find_avg_pool_matrix, b), m, b, f"pool({b})")
    cs.graph(C(g.approximate, 8, 0.01), m.approx(8, 0.01), "approximate(8, 0.01)")
    mc = m.compress(1)
    c = C(g.compress, 1)
    cs.compressed(c, mc, "compress(1)")
    cs.compressed(C(gx.CompressedGraph.from_bytes, C(bytes, c)), mc, "reloaded")
    cs.graph(C(c.decompress), m, "decompressed large graph")
    C(g.delete_edge, u, v)
    m.delete(u, v)
    cs.graph(g, m, "large graph less an edge", deep=False)


def c15_threads(cs):
    """Several Python threads at once: each changes a graph of its own, all read a shared one."""
    gx, rng = cs.gx, cs.rng
    und = rng.random() < 0.5
    shared, sm = C(gx.Graph, is_undirected=und), MG(und)
    mutate(cs, shared, sm, "shared", 30)
    lv = rng.choice([1, 1, 2])
    comp, cm = C(shared.compress, lv), sm.compress(lv)
    pb = rng.choice([1, 2, 3, 8])
    pooled = C(shared.find_avg_pool_matrix, pb)
    k = rng.choice([2, 3, 4])
    rounds = rng.choice([5, 15])
    cs.say(f"{k} threads, {rounds} rounds")
    cs.nontrivial = True
    subs, faults = [], []
    for i in range(k):
        sub = Case(gx, random.Random(rng.random()), cs.ids.dict, cs.idx)
        subs.append(sub)

    def work(i):
        sub = subs[i]
        r = sub.rng
        try:
            own, om = C(gx.Graph, is_undirected=i % 2 == 0), MG(i % 2 == 0)
            for _ in range(rounds):
                x = r.randrange(6)
                if x == 0:
                    sub.graph(shared, sm, "graph shared by threads")
                elif x == 1:
                    sub.compressed(comp, cm, "compressed graph shared by threads")
                elif x == 2:
                    sub.matrix(pooled, sm, pb, "matrix shared by threads")
                elif x == 3:
                    sub.graph(C(comp.decompress), cm.graph(), "decompressed in a thread", deep=False)
                    sub.compressed(C(shared.compress, lv), cm, "compressed in a thread")
                elif x == 4:
                    d, dm = C(shared.duplicate), sm.copy()
                    mutate(sub, d, dm, "copy", 4)
                    sub.graph(d, dm, "copy changed in a thread")
                else:
                    mutate(sub, own, om, "own", 6)
                    sub.graph(own, om, "graph of one thread")
                    sub.graph(C(gx.Graph.from_bytes, C(bytes, own)), om, "reloaded in a thread", deep=False)
                if faults:
                    return
        except Violation as e:
            faults.append(f"with {k} threads: {e}")
        except Exception:
            faults.append(traceback.format_exc()[-1500:])
            raise

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(i,)) for i in range(k)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    for sub in subs:
        for w, n in sub.ev.items():
            cs.count(w, n)
    cs.count("runs with several Python threads")
    if faults:
        if not faults[0].startswith("with "):
            raise RuntimeError(faults[0])
        bad(faults[0])


def c15(cs):
    if 64 <= cs.idx < 72:
        return c15_large(cs)
    if 72 <= cs.idx < 80:
        return many(cs)
    if 80 <= cs.idx < 88:
        return sizes(cs)
    if cs.rng.random() < 0.02:
        return c15_threads(cs)
    gx, rng = cs.gx, cs.rng
    und = rng.random() < 0.5
    cs.say(f"Graph({und})")
    g = C(gx.Graph, is_undirected=und)
    m = MG(und)
    cs.graph(g, m, "empty graph", deep=rng.random() < 0.1)
    fam = [(g, m)]
    for rnd in range(rng.choice([1, 2, 3])):
        i = rng.randrange(len(fam))
        g, m = fam[i]
        mutate(cs, g, m, f"g{i}", rng.choice([1, 3, 8, 20, 40]))
        cs.graph(g, m, f"g{i}")
        if m.e:
            cs.nontrivial = True
        for _ in range(rng.choice([2, 4, 6])):
            k = rng.randrange(7)
            if k == 0:
                b = gen_block(rng, m.n)
                cs.say(f"pool {b}")
                x = C(g.find_avg_pool_matrix, b)
                cs.matrix(x, m, b, f"pool({b})")
                if rng.random() < 0.3:
                    cs.matrix(C(x.duplicate), m, b, f"pool({b}).duplicate()")
            elif k == 1:
                b = gen_block(rng, m.n)
                t = thresholds(rng, m, b)
                cs.say(f"approximate {b} {t!r}")
                d, cnt, bb = m.pool(b)
                # where b*b is not exact in doubles the quotient is only known to a few ulps
                if bb < 2 ** 26 or all(abs(c / (bb * bb) - min(max(t, 1e-18), 1)) > 1e-15 * min(max(t, 1e-18), 1) for c in cnt.values()):
                    a = C(g.approximate, b, t)
                    cs.graph(a, m.approx(b, t), f"approximate({b},{t!r})", deep=rng.random() < 0.5)
                    cs.count("approximations compared")
            elif k in (2, 3):
                lv = gen_level(rng)
                cs.say(f"compress {lv}")
                c = C(g.compress, lv)
                mc = m.compress(lv)
                cs.compressed(c, mc, f"compress({lv})")
                if rng.random() < 0.5:
                    c = C(gx.CompressedGraph.from_bytes, mc.image(rng))
                    cs.compressed(c, mc, "CompressedGraph.from_bytes")
                if rng.random() < 0.3:
                    c = C(c.duplicate)
                    cs.compressed(c, mc, "duplicate of compressed")
                if rng.random() < 0.5:
                    d = C(c.decompress)
                    cs.graph(d, mc.graph(), f"compress({lv}).decompress()")
                    cs.count("decompressions compared")
            elif k == 4:
                cs.say("duplicate")
                d = C(g.duplicate)
                md = m.copy()
                fam.append((d, md))
                mutate(cs, d, md, f"g{len(fam) - 1}", 3)
                cs.graph(g, m, f"g{i} after its copy was changed", deep=False)
                cs.graph(d, md, "changed copy", deep=False)
            elif k == 5:
                cs.say("from_bytes")
                img = m.image(rng) if rng.random() < 0.5 else C(bytes, g)
                d = C(gx.Graph.from_bytes, img)
                cs.graph(d, m, "Graph.from_bytes")
                fam.append((d, m.copy()))
                if m.e and rng.random() < 0.4:
                    # its next of kin right after it: as long and with the same counts
                    for _ in range(rng.randrange(1, 4)):
                        w = kin(rng, m)
                        cs.graph(C(gx.Graph.from_bytes, w.image(rng)), w, "Graph.from_bytes of the next of kin")
                        c, cw = m.compress(1), w.compress(1)
                        cs.compressed(C(gx.CompressedGraph.from_bytes, c.image(rng)), c, "CompressedGraph.from_bytes")
                        cs.compressed(C(gx.CompressedGraph.from_bytes, cw.image(rng)), cw, "CompressedGraph.from_bytes of the next of kin")
                        cs.count("next of kin loaded in succession")
                    cs.graph(C(gx.Graph.from_bytes, img), m, "Graph.from_bytes again")
            else:
                good = m.image(rng) if rng.random() < 0.5 else m.compress(gen_level(rng)).image(rng)
                img = corrupt(rng, good)
                cs.say("load " + img[:64].hex())
                for cls, parse, cmp in ((gx.Graph, parse_graph, cs.graph), (gx.CompressedGraph, parse_compressed, cs.compressed)):
                    p = parse(img)
                    if p is None:
                        raises(ValueError, cls.from_bytes, img)
                        cs.count("bad images refused")
                    else:
                        cmp(C(cls.from_bytes, img), p, "from_bytes")
                        cs.count("odd but valid images loaded")


def many(cs):
    """The same few calls more often than 16 bits can count, or as many objects alive at once."""
    gx, rng = cs.gx, cs.rng
    n = 65536 + rng.randrange(2, 2000)
    kind = cs.idx % 4
    cs.nontrivial = True
    und = rng.random() < 0.5
    u, v = rng.randrange(12), rng.randrange(12)
    cs.say(f"{n} rounds of kind {kind} ({und}, {u}, {v})")
    g, m = C(gx.Graph, is_undirected=und), MG(und)
    for a, b in ((u, v), (3, 9), (u, 11), (14, 2)):
        C(g.add_edge, a, b)
        m.add(a, b)
    if kind == 0:
        # graphs, told apart by an edge
        gs = []
        for k in range(n):
            x = C(gx.Graph, is_undirected=und)
            C(x.add_edge, k, 1)
            gs.append(x)
        left = list(range(n))
        rng.shuffle(left)
        for k in left[::2]:
            gs[k] = None
        for k in left[1::2]:
            if C(gs[k].does_edge_exist, k, 1) is not True or C(gs[k].edge_count) != (2 if und and k != 1 else 1):
                bad(f"graph {k} of {n}: its edge {k}>1 is gone, or others came ({C(gs[k].edge_count)} edges)")
        for k in left[::2]:
            x = gs[k] = C(g.duplicate)
            if C(x.edge_count) != len(m.e):
                bad(f"a copy of a graph of {len(m.e)} edges, one of {n} objects, counts {C(x.edge_count)}")
        for k in left[1::2]:
            if C(gs[k].vertex_count) != max(k, 1) + 1:
                bad(f"graph {k} of {n} has {C(gs[k].vertex_count)} vertices")
        rng.shuffle(left)
        for k in left:
            gs[k] = None
    elif kind == 1:
        # one graph, asked again and again
        d, i, e = len(m.outs(u)), len(m.ins(v)), sorted(m.e)
        for k in range(n):
            if C(g.edge_count) != len(e) or C(g.vertex_count) != m.n or C(g.does_edge_exist, u, v) is not True:
                bad(f"question {k}: counts or edges differ")
            j = k % 4
            if j == 0:
                eq(C(g.vertex_out_degree, u), d, f"out-degree, question {k}")
            elif j == 1:
                eq(C(g.vertex_in_degree, v), i, f"in-degree, question {k}")
            elif j == 2:
                eq(sorted(C(list, C(g.edge_list))), e, f"edges, question {k}")
            else:
                eq(len(C(bytes, g)), 26 + 16 * len(e), f"bytes, question {k}")
    elif kind == 2:
        # derived objects, one after another; some stay
        lv, b = rng.choice([1, 2]), rng.randrange(2, 6)
        mc, (dim, blocks, _) = m.compress(lv), m.pool(b)
        c0 = C(g.compress, lv)
        stay = []
        for k in range(n):
            j = k % 4
            if j == 0:
                x = C(g.compress, lv)
                eq(C(x.edge_count), C(c0.edge_count), f"edges of compressed graph {k}")
            elif j == 1:
                x = C(g.find_avg_pool_matrix, b)
                eq((C(x.dimension), C(x.entry_count)), (dim, len(blocks)), f"pooled matrix {k}")
            elif j == 2:
                x = C(c0.decompress)
                eq((C(x.vertex_count), C(x.edge_count)), (m.n, len(mc.graph().e)), f"decompressed graph {k}")
            else:
                x = C(c0.duplicate)
                eq(C(x.compression_level), float(lv), f"level of copy {k}")
            if k % 16 < 4:
                stay.append(x)
        cs.compressed(c0, mc, "compressed graph after all that")
        rng.shuffle(stay)
        del stay
    else:
        # lists and refusals
        img, x = m.image(rng), C(g.edge_list)
        want, held = C(list, x), []
        junk = img[:-1]
        for k in range(n):
            j = k % 4
            if j == 0:
                eq(C(x.__getitem__, k % len(want)), want[k % len(want)], f"item, question {k}")
            elif j == 1:
                held.append(C(g.vertex_out_edges, u))
            elif j == 2:
                raises(ValueError, gx.Graph.from_bytes, junk)
            else:
                y = C(gx.Graph.from_bytes, img)
                eq(C(y.edge_count), len(m.e), f"edges of loaded graph {k}")
        outs = m.outs(u)
        for k, l in enumerate(held):
            eq(sorted(C(list, l)), outs, f"out-edges, list {k}")
        rng.shuffle(held)
        del held
    cs.graph(g, m, "graph after all that")
    cs.count("rounds of the same calls", n)


def sizes(cs):
    """Lists, images and texts of 0, 1, 2, 3, ... elements, each in turn."""
    gx, rng = cs.gx, cs.rng
    kind = cs.idx % 8
    und = rng.random() < 0.5
    top = 1100
    cs.nontrivial = True
    cs.say(f"every size up to {top}, kind {kind}, undirected {und}")
    g, m = C(gx.Graph, is_undirected=und), MG(und)

    def lst(l, want, what):
        """`l` holds just what `want` does, and knows where it ends."""
        n = len(want)
        eq(C(len, l), n, f"len({what})")
        items = C(list, l)
        eq(sorted(items), want, what)
        for i in range(n) if n < 140 else (0, n // 2, rng.randrange(n), n - 2, n - 1):
            eq(C(l.__getitem__, i), items[i], f"{what}[{i}] of {n}")
            if i:
                eq(C(l.__getitem__, -i), items[-i], f"{what}[{-i}] of {n}")
        raises(IndexError, l.__getitem__, n)
        raises(IndexError, l.__getitem__, n + 1)
        cs.count("lists compared")

    cells = [(i * 577 % 2209 // 47, i * 577 % 2209 % 47) for i in range(2209)]
    for k in range(2209 if kind == 2 else top):
        if k > 1030 and k % 8 not in (0, 1, 7) and k % 1000 != 999:
            continue
        a, b = cells[k] if kind in (0, 6) else (3 * k + 1, 7) if kind == 1 else (cells[k][0] * 8 + k % 8, cells[k][1] * 8 + k // 8 % 8)
        if kind in (0, 1, 3, 4, 6):
            C(g.add_edge, a, b)
            m.add(a, b)
        n = len(m.e)
        at = f"with {n} edges"
        if kind in (0, 1):
            eq(C(g.edge_count), n, f"edge_count() {at}")
            lst(C(g.edge_list), sorted(m.e), f"edge_list() {at}")
            if kind == 1:
                lst(C(g.vertex_in_edges, 7), m.ins(7), f"vertex_in_edges(7) {at}")
                eq(C(g.vertex_in_degree, 7), len(m.ins(7)), f"vertex_in_degree(7) {at}")
        elif kind == 2:
            # a list given to add_vertex, and got back
            to = [i * 7 + 2 for i in range(k)]
            rng.shuffle(to)
            x, w = C(gx.Graph, is_undirected=und), MG(und)
            C(x.add_vertex, 5, to if k % 2 else tuple(to))
            w.vertex(5, to)
            lst(C(x.vertex_out_edges, 5), sorted(set(to)), f"vertex_out_edges(5) after add_vertex of {k}")
            eq((C(x.vertex_count), C(x.edge_count)), (w.n, len(w.e)), f"counts after add_vertex of {k}")
            eq(C(x.vertex_out_degree, 5), k, f"vertex_out_degree(5) after add_vertex of {k}")
        elif kind == 3:
            x = C(g.find_avg_pool_matrix, 1)
            eq((C(x.dimension), C(x.entry_count)), (m.n, n), f"pooled matrix {at}")
            lst(C(x.entry_list), sorted((1.0, u, v) for u, v in m.e), f"entry_list() {at}")
        elif kind == 4:
            mc = m.compress(1)
            c = C(g.compress, 1)
            img = C(bytes, c)
            if not mc.bytes_ok(img):
                bad(f"bytes of a compressed graph {at} do not describe it")
            for y in (c, C(gx.CompressedGraph.from_bytes, img)):
                eq((C(y.vertex_count), C(y.edge_count)), (m.n, n), f"compressed graph {at}")
            if k % 5 == 0 or k < 300 or n % 8 in (0, 7) and k < 600:
                d = C(c.decompress)
                eq(C(d.vertex_count), m.n, f"vertices of a decompressed graph {at}")
                eq(sorted(C(list, C(d.edge_list))), sorted(m.e), f"edges of a decompressed graph {at}")
        elif kind == 6:
            img = C(bytes, g)
            if not m.bytes_ok(img):
                bad(f"bytes of a graph {at} do not describe it")
            y = C(gx.Graph.from_bytes, img)
            eq(sorted(C(list, C(y.edge_list))), sorted(m.e), f"edges of a reloaded graph {at}")
            raises(ValueError, gx.Graph.from_bytes, img[:-1 - k % 16])
            raises(ValueError, gx.Graph.from_bytes, img + b"\0" * (1 + k % 16))
        elif kind == 5 and k < 90:
            # texts of every dimension
            w = MG(und)
            for _ in range(k // 2):
                w.add(rng.randrange(k), rng.randrange(k))
            w.vertex(k, None)
            x = C(gx.Graph.from_bytes, w.image(rng))
            cs.graph(x, w, f"graph of {k + 1} vertices", deep=False)
            eq(C(x.matrix_string), w.text(), f"matrix_string() of {k + 1} vertices")
            if k < 50:
                vals = [["1.0" if (c, r) in w.e else "0.0" for c in range(k + 1)] for r in range(k + 1)]
                eq(C(C(x.find_avg_pool_matrix, 1).to_string, 1), render(vals), f"to_string(1) of dimension {k + 1}")
            # (k + 1 blocks each way)
            big = MG(und)
            for u, v in w.e:
                big.add(u * 8 + v % 8, v * 8 + u % 8)
            big.vertex(k * 8 + 7, None)
            eq(C(C(C(gx.Graph.from_bytes, big.image(rng)).compress, 1).matrix_string), big.compress(1).text(), f"matrix_string() of {k + 1} blocks")
            cs.count("texts compared", 2)
        elif kind == 7:
            # a graph of k + 1 vertices, copied and changed
            x, w = C(gx.Graph, is_undirected=und), MG(und)
            C(x.add_vertex, k, [k // 2, k])
            w.vertex(k, [k // 2, k])
            y = C(x.duplicate)
            C(x.delete_edge, k, k)
            eq((C(y.vertex_count), C(y.edge_count), C(y.does_edge_exist, k, k)), (w.n, len(w.e), True), f"copy of a graph of {k + 1} vertices after the original changed")
            b = 1 + k % 9
            p = C(y.find_avg_pool_matrix, b)
            d, cnt, b = w.pool(b)
            eq((C(p.dimension), C(p.entry_count)), (d, len(cnt)), f"pool({b}) of {k + 1} vertices")
            z = C(y.approximate, b, 1e-6)
            eq((C(z.vertex_count), C(z.edge_count)), (w.approx(b, 1e-6).n, len(w.approx(b, 1e-6).e)), f"approximate({b}) of {k + 1} vertices")
        cs.count("sizes checked one by one")


# ------------------------------------------------------------------ C16

class Mon:
    def __init__(self, lib):
        for n in ("gxmon_live_blocks", "gxmon_live_bytes"):
            f = getattr(lib, n)
            f.restype = ctypes.c_size_t
            f.argtypes = []
        lib.gxmon_total_blocks.restype = lib.gxmon_refused.restype = ctypes.c_uint64
        lib.gxmon_refuse_from.argtypes, lib.gxmon_refuse_from.restype = [ctypes.c_size_t], None
        lib.gxmon_py_refused.restype = ctypes.c_uint64
        lib.gxmon_py_refuse_from.argtypes, lib.gxmon_py_refuse_from.restype = [ctypes.c_size_t], None
        lib.gxmon_py_hook.argtypes, lib.gxmon_py_hook.restype = [ctypes.c_void_p, ctypes.c_void_p], None
        api = ctypes.pythonapi
        lib.gxmon_py_hook(*(ctypes.cast(f, ctypes.c_void_p) for f in (api.PyMem_GetAllocator, api.PyMem_SetAllocator)))
        self.lib = lib

    def live(self):
        return (self.lib.gxmon_live_blocks(), self.lib.gxmon_live_bytes())

    def total(self):
        return self.lib.gxmon_total_blocks()


def snap_graph(cs, g):
    n = C(g.vertex_count)
    return ("g", C(g.is_undirected), n, C(g.edge_count), sorted(C(list, C(g.edge_list))), C(g.matrix_string) if n <= 40 else "")


def snap_comp(cs, c):
    n = C(c.vertex_count)
    return ("c", C(c.is_undirected), n, C(c.edge_count), C(c.compression_level), C(c.matrix_string) if n <= 64 else "",
            sorted(C(list, C(C(c.decompress).edge_list))))


def snap_mat(cs, x):
    d = C(x.dimension)
    return ("m", d, C(x.entry_count), sorted(C(list, C(x.entry_list))), C(x.to_string) if d <= 40 else "")


def snap_list(cs, l):
    return ("l", C(len, l), C(list, l))


class It:
    """A live iterator with what it still has to deliver."""
    def __init__(self, it, rest):
        self.it, self.rest = it, rest


def c16_body(cs):
    gx, rng = cs.gx, cs.rng
    if 72 <= cs.idx < 80:
        return many(cs)
    if 80 <= cs.idx < 88:
        return sizes(cs)
    snaps = {"g": snap_graph, "c": snap_comp, "m": snap_mat, "l": snap_list}
    objs = []       # [kind, object, expected snapshot]

    def put(kind, o):
        objs.append([kind, o, snaps[kind](cs, o)])
        cs.count("objects created")

    def pick(kinds):
        c = [i for i, x in enumerate(objs) if x[0] in kinds]
        return rng.choice(c) if c else None

    large = 64 <= cs.idx < 80
    if large:
        put("g", C(gx.Graph.from_bytes, large_model(rng)[0].image(rng)))
        put("l", C(objs[0][1].edge_list))
        put("c", C(objs[0][1].compress, 1))
        put("m", C(objs[0][1].find_avg_pool_matrix, rng.choice([1, 2, 8, 9])))
        put("l", C(objs[3][1].entry_list))
        cs.count("large graphs")
    for step in range(5 if large else rng.choice([6, 15, 30, 60])):
        k = rng.randrange(20)
        if k in (0, 1) or not objs:
            g = C(gx.Graph, is_undirected=rng.random() < 0.5)
            cs.say("new")
            for _ in range(rng.choice([0, 0, 3, 12])):
                C(g.add_edge, cs.ids(), cs.ids())
            if rng.random() < 0.02:     # lists of more than a few hundred elements
                d, a = rng.choice([254, 255, 256, 257, 300, 511, 513, 1000]), cs.ids()
                C(g.add_vertex, a, [a // 2 + i * 8 for i in range(d)])
                put("l", C(g.vertex_out_edges, a))
                put("l", C(C(g.find_avg_pool_matrix, rng.choice([1, 2, 8])).entry_list))
                cs.count("graphs with lists of hundreds of elements")
            put("g", g)
        elif k in (2, 3, 4):        # derive from a graph
            i = pick("g")
            if i is None:
                continue
            g = objs[i][1]
            w = rng.randrange(10)
            cs.say(f"derive {i} {w}")
            if w == 0:
                put("g", C(g.duplicate))
            elif w == 1:
                put("m", C(g.find_avg_pool_matrix, gen_block(rng, objs[i][2][2])))
            elif w == 2:
                put("g", C(g.approximate, gen_block(rng, objs[i][2][2]), rng.choice([0.0, 0.1, 0.5, 1.0])))
            elif w == 3:
                put("c", C(g.compress, gen_level(rng)))
            elif w == 4:
                put("g", C(gx.Graph.from_bytes, C(bytes, g)))
            elif w in (5, 6):
                put("l", C(g.edge_list))
            elif w == 7:
                put("l", C(g.vertex_in_edges, cs.ids()))
            else:
                put("l", C(g.vertex_out_edges, cs.ids()))
        elif k in (5, 6):           # derive from a compressed graph or matrix
            i = pick("cm")
            if i is None:
                continue
            o = objs[i][1]
            w = rng.randrange(3)
            cs.say(f"derive {i} {w}")
            if objs[i][0] == "c":
                if w == 0:
                    put("c", C(o.duplicate))
                elif w == 1:
                    put("g", C(o.decompress))
                else:
                    put("c", C(gx.CompressedGraph.from_bytes, C(bytes, o)))
            else:
                put("m", C(o.duplicate)) if w == 0 else put("l", C(o.entry_list))
        elif k in (7, 8, 9):        # iterator, partly consumed
            i = pick("l")
            if i is None:
                continue
            items = objs[i][2][2]
            it = C(iter, objs[i][1])
            n = rng.randrange(len(items) + 1)
            for j in range(n):
                eq(C(next, it), items[j], "iterated element")
            cs.say(f"iter {i} {n}")
            objs.append(["i", It(it, items[n:]), None])
            cs.count("iterators created")
            if rng.random() < 0.5:  # the list goes while the iterator stays
                objs.pop(i)
                cs.count("lists dropped before their iterators")
                churn(gx, rng)
        elif k == 10:               # advance an iterator
            i = pick("i")
            if i is None:
                continue
            x = objs[i][1]
            for _ in range(rng.randrange(4)):
                if x.rest:
                    eq(C(next, x.it), x.rest.pop(0), "element of a live iterator")
                else:
                    raises(StopIteration, next, x.it)
            cs.count("iterators advanced")
        elif k in (11, 12):         # mutate a graph: nothing else may move
            i = pick("g")
            if i is None:
                continue
            g = objs[i][1]
            cs.say(f"mutate {i}")
            for _ in range(rng.choice([1, 4, 20])):
                if rng.random() < 0.6:
                    C(g.add_edge, cs.ids(), cs.ids())
                elif objs[i][2][4] and rng.random() < 0.7:
                    C(g.delete_edge, *rng.choice(objs[i][2][4]))
                else:
                    C(g.add_vertex, cs.ids(), [cs.ids() for _ in range(rng.randrange(4))])
                cs.count("mutations")
            objs[i][2] = snap_graph(cs, g)
        elif k in (13, 14, 15):     # drop
            i = rng.randrange(len(objs))
            cs.say(f"drop {i}")
            x = objs.pop(i)
            if rng.random() < (0.9 if gc.isenabled() else 0.3):  # inside a reference cycle
                loop = [x]
                loop.append(loop)
                del loop, x
                if rng.random() < 0.5:
                    gc.collect()
                    cs.count("collections of cycles")
            else:
                del x
            cs.count("objects dropped")
            if rng.random() < 0.4:
                churn(gx, rng)
        elif k == 16 and gc.isenabled():    # finalisers run within the next calls
            i = pick("gm")
            if i is None:
                continue
            cs.say(f"cycles {i}")
            o = objs[i][1]
            for _ in range(rng.choice([3, 20])):
                l = C(o.edge_list) if objs[i][0] == "g" else C(o.entry_list)
                loop = [l, C(o.duplicate)] if rng.random() < 0.5 else [l, C(iter, l)]
                loop.append(loop)
                if objs[i][0] == "g" and rng.random() < 0.3:
                    loop += [C(o.vertex_out_edges, cs.ids()), C(o.vertex_in_edges, cs.ids()), C(o.compress, 1)]
                del l, loop
            cs.count("objects left to an eager collector")
        elif k in (16, 17):         # a call that raises
            failing_call(cs, objs)
        elif k == 18 and rng.random() < 0.25:
            drop_in_threads(cs, objs, snaps)
        else:                       # re-observe one
            i = rng.randrange(len(objs))
            observe(cs, objs[i], snaps)
    for x in objs:
        observe(cs, x, snaps)
    cs.nontrivial = any(x[0] != "g" or x[2][4] for x in objs)
    rng.shuffle(objs)
    x = None
    if rng.random() < 0.5:
        while objs:
            objs.pop()


def churn(gx, rng):
    """Allocate and release a little, so that memory released too early gets reused."""
    g = C(gx.Graph)
    for i in range(rng.randrange(12)):
        C(g.add_edge, i, i + 1)
    C(len, C(g.edge_list))


def drop_in_threads(cs, objs, snaps):
    """Several threads read, derive from and drop objects made by this one, at the same time."""
    rng = cs.rng
    n = rng.randint(2, 4)
    shared = [x for x in objs if x[0] == "g"][:1]
    hands = [[] for _ in range(n)]
    for _ in range(min(len(objs), rng.choice([2, 6, 20]))):
        x = objs.pop(rng.randrange(len(objs)))
        hands[rng.randrange(n)].append(x)
    cs.say(f"drop {[len(h) for h in hands]} in threads")
    problems = []
    gate = threading.Barrier(n)

    def work(mine):
        try:
            gate.wait()
            for _ in range(3):
                for x in shared:
                    eq(snaps["g"](cs, C(x[1].duplicate)), x[2], "duplicate made in a thread")
                    C(len, C(x[1].edge_list))
            while mine:
                x = mine.pop()
                observe(cs, x, snaps)
                if x[0] == "g" and not any(x is y for y in shared):
                    C(x[1].add_edge, 1, 2)
                del x
        except Violation as e:
            problems.append(str(e))
        except Exception as e:
            problems.append(e)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(h,)) for h in hands]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
    cs.count("objects dropped by other threads")
    shared = None
    for p in problems:
        if isinstance(p, str):
            bad(p)
        raise p


def observe(cs, x, snaps):
    kind, o, s = x
    cs.count("objects observed again")
    if kind == "i":
        for w in o.rest:
            eq(C(next, o.it), w, "element of a live iterator")
        raises(StopIteration, next, o.it)
        o.rest = []
    else:
        eq(snaps[kind](cs, o), s, f"contents of an object nobody changed (kind {kind})")


def failing_call(cs, objs):
    gx, rng = cs.gx, cs.rng
    k = rng.randrange(13)
    cs.say(f"fail {k}")
    cs.count("raising calls")
    o = rng.choice(objs)
    before = o[2]

    def attempt(fn, *a):
        try:
            fn(*a)
        except Exception:
            return
    if k == 0:
        attempt(gx.Graph.from_bytes, corrupt(rng, random_mg(rng, cs.ids).image(rng)))
    elif k == 1:
        attempt(gx.CompressedGraph.from_bytes, corrupt(rng, random_mg(rng, cs.ids).compress(gen_level(rng)).image(rng)))
    elif k == 2:
        attempt(gx.CompressedGraph.from_bytes, random_mg(rng, cs.ids).image(rng))
    elif k == 3:
        attempt(gx.Graph.from_bytes, rng.choice([None, "text", 5]))
    elif k == 4 and o[0] == "l":
        attempt(o[1].__getitem__, o[2][1] + rng.randrange(3))
        attempt(o[1].__getitem__, "x")
    elif k == 5 and o[0] == "g":
        attempt(o[1].does_edge_exist, "a", 1)
        attempt(o[1].add_edge, 1, None)
        attempt(o[1].add_vertex, "v", [1])
        attempt(o[1].add_vertex, 1, ["v"])
    elif k == 6 and o[0] == "g":
        attempt(o[1].find_avg_pool_matrix, "b")
        attempt(o[1].approximate, 2, "t")
        attempt(o[1].compress, "l")
        attempt(o[1].compress, 2.5)
    elif k == 7 and o[0] == "g":
        attempt(o[1].vertex_in_edges, "v")
        attempt(o[1].vertex_out_edges, None)
    elif k == 8 and o[0] == "m":
        attempt(o[1].to_string, "x")
        attempt(o[1].to_string, 70000)
        attempt(o[1].get_entry, "a", 0)
    elif k == 9:
        g = C(gx.Graph)
        C(g.add_edge, 2 ** 40, 3)
        attempt(g.matrix_string)
        attempt(C(g.compress, 1).matrix_string)
        attempt(C(g.find_avg_pool_matrix, 2).to_string)
    elif k == 10 and o[0] == "c":
        attempt(o[1].does_edge_exist, "a", "b")
        attempt(o[1].get_compressed_matrix_entry, None, 1)
    elif k == 11:
        attempt(gx.Graph, True, 5)
        attempt(gx.CompressedGraph, None)
        attempt(gx.CsrSquareMatrix, "x")
    elif k == 12 and o[0] == "l":
        it = C(iter, o[1])
        for _ in range(o[2][1]):
            C(next, it)
        raises(StopIteration, next, it)
        raises(StopIteration, next, it)
    del o
    gc.collect()


EXIT_SCRIPT = r"""
import importlib.util, sys, random
spec = importlib.util.spec_from_file_location('graphrox', sys.argv[1] + '/__init__.py')
gx = importlib.util.module_from_spec(spec); sys.modules['graphrox'] = gx; spec.loader.exec_module(gx)
rng = random.Random(int(sys.argv[2]))
keep = []
for i in range(6):
    g = gx.Graph(is_undirected=rng.random() < .5)
    for _ in range(9): g.add_edge(rng.randrange(20), rng.randrange(20))
    l = g.edge_list(); it = iter(l); next(it)
    keep += [g, l, it, g.compress(1), g.find_avg_pool_matrix(3), g.duplicate(), g.vertex_in_edges(1)]
rng.shuffle(keep)
keep.append(keep)
if rng.random() < .5: del keep[:rng.randrange(len(keep))]
if rng.random() < .5: globals().update({'v%d' % i: x for i, x in enumerate(keep)})
del g, l, it
"""


def c16(cs):
    """Run the case; an unbalanced account is only believed if it repeats."""
    mon = cs.mon
    if cs.idx % 400 == 7:
        try:
            r = subprocess.run([sys.executable, "-c", EXIT_SCRIPT, cs.pkg, str(cs.idx)], capture_output=True, text=True, timeout=300)
        except subprocess.TimeoutExpired:
            bad("an interpreter with live objects does not exit")
        cs.count("interpreter exits with live objects")
        if r.returncode < 0 or "GXALLOC" in r.stderr:
            if r.returncode == -9:
                raise RuntimeError("exit script killed")
            bad(f"interpreter exit with live objects: status {r.returncode} {r.stderr[-300:]}")
    st = cs.rng.getstate()
    for attempt in (1, 2):
        cs.rng.setstate(st)
        gc.collect()
        base, t0 = mon.live(), mon.total()
        if cs.idx % 6 == 3:         # the collector runs all the time, within the library's calls too
            gc.set_threshold(cs.rng.choice([1, 2, 7, 40]), 5, 5)
            gc.enable()
            cs.count("cases with an eager collector", 1 if attempt == 1 else 0)
        try:
            c16_body(cs)
        except Violation as e:
            e.__traceback__ = None
            raise
        finally:
            gc.disable()
        gc.collect()
        after = mon.live()
        cs.count("native allocations watched", mon.total() - t0)
        if after == base:
            cs.count("accounts balanced")
            return
    bad(f"native memory not given back: {base[0]} blocks/{base[1]} bytes before, {after[0]}/{after[1]} after everything was dropped")


# ------------------------------------------------------------------ C21

def c21(cs):
    """The native library is refused the memory for a result: the call raises, nothing else."""
    gx, rng, lib = cs.gx, cs.rng, cs.gx._lib

    def scarce(size, fn, what):
        """Refused to the native library, or to the interpreter that is to hold the result."""
        theirs = rng.random() < 0.5
        refuse, refused = (lib.gxmon_refuse_from, lib.gxmon_refused) if theirs else (lib.gxmon_py_refuse_from, lib.gxmon_py_refused)
        gc.collect()
        live, before = cs.mon.live(), refused()
        refuse(size)
        try:
            r = fn()
        except Exception as e:
            r = e
        finally:
            refuse(2 ** 64 - 1)
        if not isinstance(r, Exception):
            bad(f"{what} returned {r!r:.60} ({len(r)} long) although {size} bytes were not to be had")
        cs.count("exceptions seen: " + type(r).__name__)
        cs.count("requests for memory refused" if theirs else "requests for memory refused to the interpreter", refused() - before)
        eq(refused() > before, True, f"{what}: refused memory")
        r.__traceback__ = None
        del r
        gc.collect()
        eq(cs.mon.live(), live, f"native blocks and bytes after {what} was refused memory{'' if theirs else ' for the Python object'}")

    def few(n, k, b=1):
        m = MG(rng.random() < 0.5)
        for _ in range(k):
            m.add(rng.randrange(n) * b, rng.randrange(n) * b)
        m.vertex(n * b - 1, None)
        return m

    kind = rng.randrange(5)
    digits = rng.randrange(9)
    if rng.random() < 0.1:      # a text too large for any memory
        x = rng.choice([40000, 2 ** 31, 2 ** 32 + 1, 2 ** 33, 2 ** 62, M64 - 3])
        m = MG(rng.random() < 0.5)
        m.add(x, rng.randrange(9))
        g = C(gx.Graph.from_bytes, m.image(rng))
        c, p = C(g.compress, 1), C(g.find_avg_pool_matrix, rng.choice([1, 2]))
        fs = [(g.matrix_string, "matrix_string"), (p.to_string, "to_string"), (lambda: p.to_string(0), "to_string(0)")]
        if x > 2 ** 30:
            fs.append((c.matrix_string, "matrix_string of a compressed graph"))
        for fn, what in fs:
            live = cs.mon.live()
            raises(Exception, fn)
            eq(cs.mon.live(), live, f"native blocks and bytes after {what} of {x + 1} vertices")
            cs.count("texts too large for any memory")
        cs.graph(g, m, "graph whose text is too large", deep=False)
        cs.say(f"text for {x + 1} vertices")
        cs.nontrivial = True
        return
    if kind in (0, 1):      # images, of exactly 2^k records
        k = rng.randrange(8, 11)
        m, b = MG(rng.random() < 0.5), 8 if kind else 1
        while len(m.e) < 2 ** k:
            u, v = rng.randrange(60) * b, rng.randrange(60) * b
            if u != v or not m.und:
                m.add(u, v)
    elif kind == 2:
        n = rng.randrange(40, 100)
        m = few(n, rng.randrange(n // 2))
    elif kind == 3:
        n = rng.randrange(40, 80)
        m = few(n, rng.randrange(n // 2), 8)
    else:
        n, b = rng.randrange(40, 80), rng.randrange(1, 4)
        m = few(n, rng.randrange(n // 2), b)
    g = C(gx.Graph.from_bytes, m.image(rng))
    cs.say(f"kind {kind}: {m.n} vertices, {len(m.e)} edges, {digits} decimals")
    c = C(g.compress, 1) if kind in (1, 3) else None
    p = C(g.find_avg_pool_matrix, b) if kind == 4 else None
    calls = {0: [(g.__bytes__, "bytes(graph)")], 1: [(c and c.__bytes__, "bytes(compressed graph)")],
             2: [(g.matrix_string, "matrix_string")], 3: [(c and c.matrix_string, "matrix_string of a compressed graph")],
             4: [(lambda: p.to_string(), "to_string"), (lambda: p.to_string(digits), f"to_string({digits})")]}[kind]
    for _ in range(rng.randrange(1, 4)):
        fn, what = rng.choice(calls)
        want = C(fn)
        for _ in range(rng.randrange(1, 3)):
            scarce(len(want) + (rng.random() < 0.4 and kind > 1), fn, what)
        if rng.random() < 0.5:
            eq(C(fn), want, f"{what} after memory was refused")
        if rng.random() < 0.5:
            cs.graph(g, m, "graph after memory was refused", deep=False)
    if c is not None:
        cs.compressed(c, m.compress(1), "compressed graph after memory was refused")
    if rng.random() < 0.3:
        x = rng.randrange(m.n)
        C(g.add_edge, x, x)
        m.add(x, x)
        cs.graph(g, m, "graph mutated after memory was refused", deep=False)
    cs.nontrivial = True


# ------------------------------------------------------------------ main

def load(pkg):
    spec = importlib.util.spec_from_file_location("graphrox", os.path.join(pkg, "__init__.py"))
    gx = importlib.util.module_from_spec(spec)
    sys.modules["graphrox"] = gx
    spec.loader.exec_module(gx)
    return gx


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("mode", choices=["run", "replay"])
    ap.add_argument("prop", choices=["C15", "C16", "C21"])
    ap.add_argument("--pkg", required=True)
    for n, d in (("seed", 1), ("shard", 0), ("nshards", 1), ("seconds", 5), ("min", 0), ("max", 10 ** 15), ("case", 0)):
        ap.add_argument("--" + n, type=int, default=d)
    ap.add_argument("--out", default="/tmp")
    ap.add_argument("--tag", default="0")
    ap.add_argument("--dict", default="")
    a = ap.parse_args()
    dct = [int(x) for x in open(a.dict).read().split()] if a.dict and os.path.exists(a.dict) else []
    gc.disable()
    sys.unraisablehook = lambda u: None
    gx = load(a.pkg)
    mon = Mon(gx._lib) if a.prop != "C15" else None
    body = {"C15": c15, "C16": c16, "C21": c21}[a.prop]

    def one(idx):
        rng = random.Random(f"{a.seed}-{a.prop}-{idx}")
        cs = Case(gx, rng, dct, idx)
        cs.mon, cs.pkg = mon, a.pkg
        # a case takes milliseconds, seconds at most: after this much CPU it does not end (the
        # default action of the signal ends the process, in whatever code it is)
        signal.setitimer(signal.ITIMER_PROF, 90)
        try:
            body(cs)
            return cs, None, None
        except Violation as e:
            return cs, str(e), None
        except Exception:
            return cs, None, traceback.format_exc()[-1500:]
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)

    name = f"{a.out}/{a.prop}-{a.tag}"
    if a.mode == "run":
        state = os.open(name + ".state", os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
    failure = None
    if mon:     # warm up: whatever is allocated once and for all
        for i in range(3):
            idx = 10 ** 12 + 400 * i
            if a.mode == "run":
                os.pwrite(state, struct.pack("<Q", idx), 0)
            v = one(idx)[1]
            if v is not None and failure is None:
                failure = {"case": idx, "message": v}
    if a.mode == "replay":
        cs, v, b = one(a.case)
        print(f"case {a.case} of {a.prop} (seed {a.seed}): {'; '.join(cs.trace)[:6000]}")
        print("RESULT " + (f"violation: {v}" if v else f"harness bug: {b}" if b else "held"))
        sys.stdout.flush()
        os._exit(1 if v else 3 if b else 0)
    t0 = time.time()
    ev, hashes, samples, bug = {}, set(), [], None
    cases = nontrivial = 0
    idx, k = a.shard, 0
    while failure is None and k < a.max and (k < a.min or time.time() - t0 < a.seconds):
        os.pwrite(state, struct.pack("<Q", idx), 0)
        cs, v, b = one(idx)
        cases += 1
        if b is None and cs.nontrivial:
            nontrivial += 1
            hashes.add(int.from_bytes(cs.h.digest(), "little"))
        for w, n in cs.ev.items():
            ev[w] = ev.get(w, 0) + n
        if k == 0 or (k in (32, 64, 128) and len(samples) < 4):
            samples.append(f"case {idx}: " + "; ".join(cs.trace)[:600])
        if v is not None:
            failure = {"case": idx, "message": v}
            break
        if b is not None:
            bug = f"case {idx}: {b}"
            break
        del cs
        if k % 50 == 0:
            gc.collect()
        idx += a.nshards
        k += 1
    with open(name + ".hash", "wb") as f:
        for h in hashes:
            f.write(struct.pack("<Q", h))
    with open(name + ".json", "w") as f:
        json.dump({"cases": cases, "nontrivial": nontrivial, "distinct": len(hashes), "seconds": round(time.time() - t0, 2),
                   "events": ev, "skips": {}, "samples": samples, "failure": failure, "bug": bug}, f)
    sys.stdout.flush()
    os._exit(3 if bug else 1 if failure else 0)


if __name__ == "__main__":
    main()
