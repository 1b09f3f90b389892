"""Families of inputs, each aimed at a part of the behaviour (no oracle here).

A family is a function (r, scale) -> list of cases {bytes, o[, legal]}; r is the
random source of the run, scale is 1 for the quick tier and larger for the
thorough one.  Where a field has 8 bits all 256 values are used; wider fields
get every boundary of the format and random values.  Several variants of a box
or segment are packed in one file where the file can hold them.
"""
import gen
from gen import *     # noqa: F401,F403
from codec import *   # noqa: F401,F403

BOXED = ("jp2", "jph")
RAW = ("j2c", "jhc")
RSIZ = {"jp2": 0, "j2c": 0, "jph": 0x4000, "jhc": 0x4000}
CAP15 = seg(0x50, u32(1 << 17) + u16(0))

E16 = sorted(set([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1022, 1023, 1024, 1025,
                  4095, 4096, 8191, 8192, 16382, 16383, 16384, 16385, 32766, 32767, 32768, 32769, 49151, 49152, 65533,
                  65534, 65535] + [1 << k for k in range(16)]))
E32 = sorted(set([0, 1, 2, 3, 15, 16, 17, 18, 19, 20, 255, 256, 257, 65534, 65535, 65536, 65537, 2**24, 2**31 - 1, 2**31,
                  2**31 + 1, 2**32 - 3, 2**32 - 2, 2**32 - 1] + [1 << k for k in range(32)]))


def case(b, fmt="jp2", verbose=True, pm=True, nullxml=False, **kw):
    c = {"bytes": b, "o": opts(fmt, verbose, pm, nullxml)}
    c.update(kw)
    return c


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def some(r, xs, n):
    xs = list(xs)
    return xs if len(xs) <= n else r.sample(xs, n)


# ------------------------------------------------------------ plain files
def plain_code(fmt="jp2", main=b"", n=1, comps=None, hdr=b"", tiles=None, w=16, h=16, first=b"", **siz_kw):
    """A codestream without faults, as small as possible, with additions"""
    comps = comps or [(7, 1, 1)] * n
    siz_kw.setdefault("rsiz", RSIZ[fmt])
    body = SOC + siz(w, h, comps, **siz_kw)
    if siz_kw["rsiz"] & 0xc000 == 0x4000 or fmt in ("jph", "jhc"):
        body += CAP15
    body += first + cod() + qcd() + main
    body += tilepart(0, 0, 1, hdr) if tiles is None else tiles
    return body + EOC


def plain(fmt="jp2", cs=None, subs=None, pre=b"", post=b"", n=1, bpc=7, w=16, h=16, ipr=0, unk=0, how="32", mid=b"", **kw):
    cs = plain_code(fmt, n=n, w=w, h=h, **kw) if cs is None else cs
    if fmt in RAW:
        return cs
    brand = b"jp2 " if fmt == "jp2" else b"jph "
    if subs is None:
        subs = box("ihdr", ihdr(h, w, n, bpc, 7, unk, ipr)) + box("colr", b"\1\0\0" + u32(16))
    return SIG + ftyp(brand, 0, [brand]) + pre + box("jp2h", subs) + mid + box("jp2c", cs, how) + post


HDR = box("ihdr", ihdr(16, 16, 1, 7, 7, 0, 0)) + box("colr", b"\1\0\0" + u32(16))


def in_header(fmt, boxes):
    return plain(fmt, subs=HDR + b"".join(boxes))


def pack_header(r, boxes, per=24, fmts=BOXED, **kw):
    return [case(in_header(f, ch), f, **kw) for f in fmts for ch in chunks(boxes, per)]


def pack_main(r, segs, per=24, fmts=FORMATS, n=1, **kw):
    return [case(plain(f, n=n, main=b"".join(ch)), f, **kw) for f in fmts for ch in chunks(segs, per)]


def pack_tile(r, segs, per=24, fmts=FORMATS, n=1, **kw):
    return [case(plain(f, n=n, hdr=b"".join(ch)), f, **kw) for f in fmts for ch in chunks(segs, per)]


def pack_codes(r, codes, per=12, fmts=BOXED, **kw):
    """Several codestream boxes in one file"""
    out = []
    for f in fmts:
        for ch in chunks(codes, per):
            out.append(case(plain(f, post=b"".join(box("jp2c", c(f) if callable(c) else c) for c in ch)), f, **kw))
    return out


def bytes_of(v, size):
    return (v & ((1 << (8 * size)) - 1)).to_bytes(size, "big")


def values(r, size, extra=0):
    if size == 1:
        return list(range(256))
    if size == 2:
        return E16 + [r.randrange(65536) for _ in range(12 + extra)]
    return E32 + [r.randrange(2**32) for _ in range(12 + extra)]


def sweep(r, fields, rand=20, extra=0):
    """Payloads in which one field takes every value of interest, and random ones"""
    out = []
    for k, (size, _) in enumerate(fields):
        for v in values(r, size, extra):
            out.append(b"".join(bytes_of(v if j == k else d, s) for j, (s, d) in enumerate(fields)))
    for _ in range(rand):
        out.append(b"".join(bytes_of(r.choice([d, r.choice(values(r, s))]), s) for s, d in fields))
    return out


def lengths(p, r=None, more=4):
    """p cut to every shorter length and extended"""
    return [p[:k] for k in range(len(p))] + [p + b"\0" * k for k in range(1, more + 1)]


# ------------------------------------------------------------ general
def f_valid(r, scale=1, n=160):
    out = []
    for _ in range(n * scale):
        f = r.choice(FORMATS)
        out.append(case(gen.valid(r, f), f, r.random() < .5, r.random() < .7, r.random() < .4))
    return out


def f_damaged(r, scale=1, n=300, fmts=FORMATS):
    out = []
    while len(out) < n * scale:
        f = r.choice(fmts)
        b = gen.mutate(r, gen.valid(r, f, rich=r.random() < .7))
        if r.random() < .1:
            b = gen.truncate(r, b)
        if not gen.too_big(b):
            out.append({"bytes": b, "o": ropts(r, f if r.random() < .9 else None)})
    return out


def f_soup(r, scale=1, n=150):
    out = []
    while len(out) < n * scale:
        b = gen.soup(r)
        if not gen.too_big(b):
            out.append({"bytes": b, "o": ropts(r)})
    return out


def f_junk(r, scale=1, n=60):
    return [{"bytes": bytes(r.randrange(256) for _ in range(r.randrange(60))), "o": ropts(r)} for _ in range(n * scale)]


def f_twins(r, scale=1, n=60):
    """The same file with every combination of options"""
    out = []
    for _ in range(n * scale):
        f = r.choice(FORMATS)
        b = gen.valid(r, f)
        if r.random() < .5:
            b = gen.mutate(r, b)
        if gen.too_big(b):
            continue
        for v in (False, True):
            for p in (False, True):
                x = r.random() < .5
                out.append(case(b, f, v, p, x, group=len(out) // 4))
    return out


def f_formats(r, scale=1, n=50):
    """The same file in all formats"""
    out = []
    for _ in range(n * scale):
        b = gen.valid(r, r.choice(FORMATS), rich=True)
        if r.random() < .3:
            b = gen.mutate(r, b)
        if gen.too_big(b):
            continue
        for f in FORMATS:
            out.append(case(b, f, r.random() < .6))
    return out


# ------------------------------------------------------------ framing
def leaf(r):
    return r.choice([("xml ", b"<a/>"), ("unkn", b"\1\2"), ("uuid", bytes(range(16)) + b"z"), ("abcd", b""), ("jp2i", b"x"),
                     ("ihdr", ihdr(3, 4, 1, 7)), ("url ", b"\0\0\0\0u\0"), ("ulst", u16(1) + bytes(16)), ("colr", b"\1\0\0" + u32(17)),
                     ("bpcc", b"\7"), ("resc", u16(1) * 4 + b"\1\1"), ("ftyp", b"jp2 \0\0\0\0jp2 ")])


def any_box(r, depth=0):
    if depth < 3 and r.random() < .35:
        t = r.choice(["jp2h", "res ", "uinf", "jp2h", "uuid", "asoc"])
        body = b"".join(any_box(r, depth + 1) for _ in range(r.randrange(4)))
        if t == "uuid":
            body = bytes(16) + body
    elif r.random() < .12:
        t, body = "jp2c", plain_code(n=1)
    else:
        t, body = leaf(r)
    k = r.random()
    if k < .55:
        return box(t, body)
    if k < .75:
        return box(t, body, "64")
    if k < .82:
        return box(t, body, "0")
    n = len(body)
    if k < .91:
        return box(t, body, "32", r.choice([n + 8, n + 7, n + 9, n + 12, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 100, 65535, 2**31, 2**32 - 1]))
    return box(t, body, "64", r.choice([n + 16, n + 15, n + 17, 0, 1, 2, 7, 8, 9, 15, 16, 17, 24, 2**31, 2**32, 2**32 + 16 + n,
                                        2**63, 2**64 - 1]))


def f_framing(r, scale=1, n=330):
    out = []
    for _ in range(n * scale):
        f = r.choice(BOXED)
        k = r.random()
        boxes = [any_box(r) for _ in range(r.randrange(1, 6))]
        junk = bytes(r.randrange(256) for _ in range(r.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15])))
        if k < .4:
            b = plain(f, post=b"".join(boxes) + junk)
        elif k < .6:
            b = plain(f, subs=HDR + b"".join(boxes) + junk)
        elif k < .75:
            b = plain(f, pre=b"".join(boxes), how=r.choice(["32", "64", "0"]))
        elif k < .9:
            b = b"".join(boxes) + junk
        else:
            b = plain(f, how="0") + b"".join(boxes)
        if not gen.too_big(b):
            out.append(case(b, f, r.random() < .7))
    return out


def f_framing_systematic(r, scale=1):
    """One box, every way of stating its length, at the top level and inside a superbox"""
    out = []
    body = b"<ab/>"
    for t in ("xml ", "unkn", "jp2h", "res ", "jp2c"):
        for how, hd in (("32", 8), ("64", 16)):
            for ln in sorted(set(list(range(0, 20)) + [hd + len(body) + d for d in range(-3, 4)] + [40, 1000, 2**31 - 1, 2**31, 2**32 - 1]
                                 + ([2**32, 2**32 + hd, 2**48, 2**64 - 1] if how == "64" else []))):
                if how == "32" and ln == 1:
                    continue
                b = box(t, body, how, ln)
                for f in (("jp2", "jph") if t == "xml " else ("jp2",)):
                    out.append(case(plain(f, post=b + box("xml ", b"<z/>")), f))
                    out.append(case(plain(f, subs=HDR + b + box("cdef", u16(0))), f))
        out.append(case(plain(post=box(t, body, "0")), "jp2"))
        for k in range(24):
            out.append(case(plain(post=box(t, body + b"<!---->")[:k]), "jp2"))
            out.append(case(plain(post=box(t, body, "64")[:k]), "jp2"))
            out.append(case(plain(subs=HDR + box(t, body)[:k]), "jp2"))
    return out if scale > 1 else some(r, out, 420)


# ------------------------------------------------------------ small boxes
def f_sigftyp(r, scale=1):
    out = []
    for f in BOXED:
        rest = plain(f)[12 + 20:]
        brand = b"jp2 " if f == "jp2" else b"jph "
        ft = ftyp(brand, 0, [brand])
        sigs = [b"\r\n\x87\n"[:k] for k in range(4)] + [b"\r\n\x87\n\0"] + \
            [bytes((c ^ (1 << b)) if i == k else c for i, c in enumerate(b"\r\n\x87\n")) for k in range(4) for b in (0, 3, 7)]
        for s in sigs:
            out.append(case(box("jP  ", s) + ft + rest, f))
        brands = [b"jp2 ", b"jph ", b"jpx ", b"JP2 ", b"jp2\0", b"jp20", b"\0\0\0\0", b"    ", b" jp2", b"jphh", b"\xe9\xe8\xe7\xe6"]
        for b1 in brands:
            for mv in ([0] if b1 != brand else E32):
                for cl in ([[brand]] if mv else [[brand], [b"jpx "], [], [b"jpx ", b"JP20", brand], [brand, b"xxxx"], [b"jp2 ", b"jph "],
                                                 [b"jp2\0", b"jph\0"], [b"xjp2", b" xxx"], [b"aaaa"] * 12 + [brand]]):
                    out.append(case(SIG + ftyp(b1, mv, cl) + rest, f))
        full = (brand + u32(0) + brand * 3)
        for k in range(len(full)):
            out.append(case(SIG + box("ftyp", full[:k]) + rest, f))
        for extra in (b"\0", b"ab", b"abc"):
            out.append(case(SIG + box("ftyp", full + extra) + rest, f))
    raw = [case(SIG + ftyp(b"jp2 ", 0, [b"jp2 "]), f) for f in RAW]
    return (out if scale > 1 else some(r, out, 200)) + raw


def f_ihdr(r, scale=1):
    fields = [(4, 16), (4, 16), (2, 1), (1, 7), (1, 7), (1, 0), (1, 0)]
    bodies = sweep(r, fields, 30 * scale) + lengths(ihdr(16, 16, 1, 7, 7, 0, 0))
    out = pack_header(r, [box("ihdr", b) for b in bodies])
    # as the first and only image header box, where it also matters to the rest
    for b in some(r, bodies, 60 * scale):
        f = r.choice(BOXED)
        out.append(case(plain(f, subs=box("ihdr", b) + box("colr", b"\1\0\0" + u32(16)) + (box("bpcc", b"\7") if r.random() < .4 else b"")), f))
    return out


def f_bpcc(r, scale=1):
    bodies = [bytes([v]) for v in range(256)] + [b""] + [bytes(r.randrange(256) for _ in range(k)) for k in range(2, 9)]
    return pack_header(r, [box("bpcc", b) for b in bodies], per=40)


def f_colr(r, scale=1):
    bodies = sweep(r, [(1, 1), (1, 0), (1, 0), (4, 16)]) + sweep(r, [(1, 5), (1, 0), (1, 0), (2, 1), (2, 13), (2, 0), (1, 128)])
    bodies += [b"\5\0\0" + u16(a) + u16(b) + u16(c) + b"\0" for k in range(26) for a, b, c in ((k, 13, 0), (1, k, 0), (1, 13, k))]
    bodies += lengths(b"\1\0\0" + u32(16)) + lengths(b"\5\0\0" + u16(1) + u16(13) + u16(0) + b"\0") + [b"\1\0\0" + u32(k) for k in range(10, 25)]
    return pack_header(r, [box("colr", b) for b in bodies], per=40)


def f_palette(r, scale=1):
    bodies = []
    for d in range(256):
        w = ((d & 127) + 8) // 8
        n = r.choice((1, 2, 2))
        bodies.append(u16(n) + u8(1) + u8(d) + bytes(r.randrange(256) for _ in range(n * w)))
    for ne in (0, 1, 2, 3, 7):
        for ds in ([], [7], [7, 15], [15, 7, 0x87], [8, 0, 37], [23, 31, 39], [7, 60, 3, 127]):
            w = [((d & 127) + 8) // 8 for d in ds]
            p = u16(ne) + u8(len(ds)) + bytes(ds) + bytes(r.randrange(256) for _ in range(ne * sum(w)))
            bodies.append(p)
            bodies.append(p[:-1])
            bodies.append(p + b"\1")
    bodies += lengths(u16(2) + u8(2) + b"\7\x0f" + bytes(6))
    bodies += [u16(ne) + u8(1) + u8(7) + bytes(ne % 300) for ne in (255, 256, 1023, 1024, 1025, 1500)]
    bodies += [u16(1) + u8(npc) + bytes([7] * npc) + bytes(npc) for npc in (254, 255)]
    out = pack_header(r, [box("pclr", b) for b in bodies[:300]], per=30, fmts=("jp2",))
    out += pack_header(r, [box("pclr", b) for b in bodies[300:]], per=3, fmts=("jp2",), cap=9000)
    out += pack_header(r, [box("pclr", b) for b in some(r, bodies[:300], 60)], per=30, fmts=("jph",))
    return out


def f_cmap(r, scale=1):
    ent = sweep(r, [(2, 0), (1, 1), (1, 0)], 40) + [u16(0) + u8(0) + u8(p) for p in range(256)]
    bodies = [b"".join(ch) for ch in chunks(ent, 20)] + lengths(u16(0) + b"\1\0" + u16(1) + b"\0\1")
    bodies += [u16(a) + u8(b) + u8(c) for a in (0, 16383, 16384, 16385) for b in (0, 1, 2) for c in (0, 1, 255)]
    return pack_header(r, [box("cmap", b) for b in bodies], per=4)


def f_cdef(r, scale=1):
    bodies = []
    for e in sweep(r, [(2, 0), (2, 0), (2, 1)], 40):
        bodies.append(u16(1) + e)
    for typs in ([1, 1], [1, 2], [2, 2], [0, 1], [0, 2, 1], [3, 0], [65535, 1], [0, 0, 0, 1]):
        for a in (0, 1, 65535):
            bodies.append(u16(len(typs)) + b"".join(u16(k) + u16(t) + u16(a if t in (1, 2) else k + 1) for k, t in enumerate(typs)))
    p = u16(2) + u16(0) * 2 + u16(1) + u16(1) * 2 + u16(0)
    bodies += lengths(p, more=7) + [u16(n) + bytes(6 * k) for n in (0, 1, 2, 3, 4) for k in (0, 1, 2, 3)]
    out = pack_header(r, [box("cdef", b) for b in bodies], per=24)
    # without colour specification box (allowed in jph)
    for b in some(r, bodies, 40 * scale):
        f = r.choice(BOXED)
        out.append(case(plain(f, subs=box("ihdr", ihdr(16, 16, 1, 7, 7, r.randrange(2), 0)) + box("cdef", b)), f))
    return out


def f_res(r, scale=1):
    fields = [(2, 300), (2, 1), (2, 300), (2, 1), (1, 2), (1, 2)]
    bodies = sweep(r, fields, 60, 10) + lengths(u16(300) + u16(1) + u16(72) + u16(7) + b"\2\3")
    bodies = [b for b in bodies]
    exps = [b for b in bodies if len(b) == 10 and (b[8] in range(40, 216) or b[9] in range(40, 216))]
    rest = [b for b in bodies if not (len(b) == 10 and (b[8] in range(40, 216) or b[9] in range(40, 216)))]
    bodies = rest + (exps if scale > 1 else some(r, exps, 60))
    boxes = [box(r.choice(["resc", "resd"]), b) for b in bodies]
    if scale > 1:
        boxes = [box(t, b) for t in ("resc", "resd") for b in bodies]
    out = []
    for ch in chunks(boxes, 12):
        f = r.choice(BOXED)
        out.append(case(in_header(f, [box("res ", b"".join(ch))]), f))
    for t in ("resc", "resd"):
        for b in some(r, bodies, 25 * scale):
            out.append(case(in_header("jp2", [box("res ", box(t, b))]), "jp2"))
    return out


def f_icc(r, scale=1):
    out = []

    def put(profile, meth=None, f=None):
        f = f or r.choice(BOXED)
        out.append(case(in_header(f, [box("colr", u8(meth or r.choice([2, 2, 3])) + b"\0\0" + profile)]), f))

    for _ in range(40 * scale):
        put(icc(r, r.choice([b"scnr", b"mntr", b"prtr", b"link", b"spac", b"abst", b"nmcl", b"XXXX", b"scn\0"])))
    for m in (2, 3):
        for f in BOXED:
            base = icc(r)
            for d in (-4, -1, 1, 4, 100, 2**31, 2**32 - 1 - len(base)):
                put(u32(len(base) + d) + base[4:], m, f)
            for tags in ([], [b"desc"], [b"A2B0"], [b"desc", b"A2B0"], [b"A2B0", b"desc"], [b"desc", b"A2B1"], [b"rXYZ"] * 5 + [b"A2B0"],
                         [b"wtpt", b"rXYZ"], [b"a2b0", b"desc"]):
                put(icc(r, b"mntr", tags=tags), m, f)
            for cl in (b"scnr", b"mntr", b"prtr", b"link", b"spac", b"abst", b"nmcl", b"MNTR", b"rtnm"):
                put(icc(r, cl), m, f)
    for dsc in (b"", b"x", b"a" * 200, b"caf\xc3\xa9", b"\xff\xfe", b"ab\0cd", b"tab\tnl\n", b"<&>"):
        put(icc(r, b"mntr", desc=dsc), 2)
    # tag tables of all sorts: description tags that lie anywhere, of any size, with any stated length
    for _ in range(60 * scale):
        hd = bytearray(icc(r, b"mntr", tags=[])[:128])
        n = r.choice([1, 2, 3, 4])
        at = 132 + 12 * n
        data = b"".join(b"desc" + u32(0) + u32(r.choice([0, 1, 2, 5, 12, 13, 20, 40, 100, 2**31, 2**32 - 1])) + r.choice([b"sRGB profile", b"Q" * 30, b"\0text"])
                        for _ in range(r.choice([1, 2, 3])))
        tt = b""
        for _ in range(n):
            off = at + r.choice([0, 0, 0, 12, 24, 1, len(data) - 5, len(data), len(data) + 9, -4, -at, r.randrange(len(data))])
            tt += r.choice([b"desc", b"desc", b"wtpt", b"A2B0", b"cprt"]) + u32(off) + u32(r.choice([0, 4, 11, 12, 13, 15, 20, 24, 25, 30, len(data), len(data) + 50, 2**31]))
        prof = hd + u32(n) + tt + data
        prof[0:4] = u32(len(prof))
        put(bytes(prof))
    base = bytearray(icc(r, b"mntr"))
    for p in range(0, len(base)):
        for v in some(r, [0, 1, 2, 3, 127, 128, 255, r.randrange(256), base[p] ^ 1, base[p] ^ 128], (2 if p < 132 else 1) + scale):
            q = bytearray(base)
            q[p] = v
            if p in (128, 129) and v:
                continue
            put(bytes(q))
    # every value of the flag, attribute and version bytes
    boxes = []
    for p in (8, 9, 27, 29, 31, 33, 35, 44, 47, 56, 63, 66, 67):
        for v in (range(256) if scale > 1 or p in (47, 63, 9) else some(r, range(256), 40)):
            q = bytearray(base[:132])
            q[0:4] = u32(132)
            q[128:132] = u32(0)
            q[p] = v
            boxes.append(box("colr", b"\2\0\0" + bytes(q)))
    out += pack_header(r, boxes, per=16, fmts=("jp2",))
    for k in (0, 1, 4, 12, 40, 60, 84, 100, 127, 128, 130, 132, 134, 140, 144, 150, 168, 172, 180, len(base) - 1):
        put(bytes(base[:k]))
    return out


# ------------------------------------------------------------ metadata boxes
MOREXML = XMLS + BADXML + [
    b"<a>" + b"x" * 200 + b"</a>", b"<a b='&lt;&gt;&quot;&apos;&amp;'>&#x20ac;&#8364;</a>", b"\xef\xbb\xbf<a/>", b"<?xml version='1.0' encoding='UTF-8'?>\n<a/>\n",
    b"<?xml version='1.0' encoding='ISO-8859-1'?><a>\xe9</a>", b"<a><?pi data?></a>", b"<!-- c --><a/><!-- d -->", b"<a/> \n", b"<a/>x",
    b"<a b='1' b='2'/>", b"<a><b></a></b>", b"<1a/>", b"<a:b/>", b"<a xmlns:p='u' p:b='1'/>", b"<a xml:lang='nl'>t</a>", b"<a>]]></a>",
    b"<a>\x01</a>", b"<a b='\n\t'> x </a>", b"<a>\r\n</a>", b"<!DOCTYPE a><a/>", b"<a><b/><b/><c><d>1</d></c>tail</a>", b"<a/>\0<b/>",
    b"<a>\xf0\x9f\x98\x80</a>", b"<a>\xed\xa0\x80</a>", b"<A/>", b"<a.b-c_d/>", b"< a/>", b"<a", b"</a>", b"<a>&#0;</a>", b"<a>&amp</a>",
    b"<a b=c/>", b"<a 'b'/>", b"<a b='<'/>", b"<a b=''/>", b"<a xmlns='x'><b xmlns='y'/><c/></a>", b"<!--x--><!--y--><a/>", b"<?xml?><a/>"]


def f_xml(r, scale=1):
    out = []
    docs = list(MOREXML)
    frag = [b"<a>", b"</a>", b"<b/>", b"<c x='1'>", b"</c>", b"text", b" ", b"&amp;", b"&#65;", b"<!--k-->", b"<![CDATA[q]]>", b"\0", b"\n", b"<?p?>",
            b"\xc3\xa9", b"<", b">", b"&", b"'", b"\xff"]
    for _ in range(60 * scale):
        docs.append(b"".join(r.choice(frag) for _ in range(r.randrange(1, 6))))
    for _ in range(60 * scale):
        docs.append(b"<a>" + b"".join(r.choice(frag[2:15]) for _ in range(r.randrange(1, 5))) + b"</a>")
    for d in docs:
        for post in (b"", b"\0") if r.random() < .5 else (b"", b"\0\0"):
            f = r.choice(BOXED)
            for nx in (False, True):
                out.append(case(plain(f, post=box("xml ", d + post) + box("uuid", XMP + d + post)), f, True, True, nx))
    return out


def f_uuid(r, scale=1):
    out = []
    ids = [bytes(16), bytes(range(16)), b"\xff" * 16, XMP] + [XMP[:k] + bytes([XMP[k] ^ 1]) + XMP[k + 1:] for k in range(16)]
    ids += [bytes(r.randrange(256) for _ in range(16)) for _ in range(20 * scale)]
    boxes = []
    for i in ids:
        for data in (b"", b"z", b"<a/>", bytes(30)):
            boxes.append(box("uuid", i + data))
    boxes += [box("uuid", XMP[:k]) for k in range(17)]
    for ch in chunks(boxes, 10):
        f = r.choice(BOXED)
        out.append(case(plain(f, post=b"".join(ch)), f, True, True, r.random() < .5))
    lists = []
    for n in (0, 1, 2, 3, 17, 255, 256, 65535):
        for k in (n, n - 1, n + 1, 0):
            if 0 <= k < 300:
                b = u16(n) + bytes(r.randrange(256) for _ in range(16 * k))
                for cut in (b, b[:-1], b + b"\0", b + bytes(8)):
                    lists.append(box("ulst", cut))
    lists += [box("ulst", (u16(2) + bytes(32))[:k]) for k in range(34)]
    for ch in chunks(lists, 6):
        f = r.choice(BOXED)
        out.append(case(plain(f, post=box("uinf", b"".join(ch))), f))
    urls = [b"\0\0\0\0" + u for u in (b"", b"\0", b"http://x\0", b"http://x", b"a\0b\0", b"a\0\0", b"caf\xc3\xa9\0", b"\xe9\0", b"\xc3\0", b"\xff\xfe\0",
                                       b"a\tb\0", b"\xf0\x9f\x98\x80\0", b"\xed\xa0\x80\0", b"\xc0\xaf\0", b" \0", b"a&<\0")]
    urls += [bytes([v]) + b"\0\0\0u\0" for v in range(256)] + [b"\0" + bytes(v if j == k else 0 for j in range(3)) + b"u\0" for k in range(3)
                                                               for v in (1, 2, 127, 128, 255)]
    urls += lengths(b"\0\0\0\0abc\0")
    for ch in chunks([box("url ", u) for u in urls], 12):
        f = r.choice(BOXED)
        out.append(case(plain(f, post=box("uinf", b"".join(ch))), f))
    return out


def f_unknown(r, scale=1):
    """Boxes of types that are not defined"""
    out = []
    types = [b"abcd", b"JP2H", b"jp2\0", b"\0\0\0\0", b"\xff\xff\xff\xff", b"ihd\xe9", b"\xc3\xa9ab", b"a\nbc", b"    ", b"a&<>", b"\x7fabc", b"xml\0", b"jP2 ", b"asoc",
             b"\xe2\x82\xaca", b"\x1b[0m", b"'\"''", b"res\t"]
    types += [bytes(r.randrange(256) for _ in range(4)) for _ in range(30 * scale)]
    for t in types:
        f = r.choice(BOXED)
        b = box(t, b"zz")
        out.append(case(plain(f, pre=b if r.random() < .3 else b"", subs=HDR + b, post=b + box("uinf", b + box("ulst", u16(0)) + b)), f, r.random() < .5))
    return out


# ------------------------------------------------------------ codestream segments
def f_siz(r, scale=1):
    fields = [(2, 0), (4, 16), (4, 16), (4, 0), (4, 0), (4, 16), (4, 16), (4, 0), (4, 0), (2, 1)]
    out = []
    codes = []

    def code(p, ln=None):
        return lambda f: SOC + seg(0x51, p, ln) + CAP15 + cod() + qcd() + tilepart(0) + EOC

    tail = b"\7\1\1"
    for p in sweep(r, fields, 40 * scale):
        if int.from_bytes(p[36 - 2:38 - 2], "big") > 300:
            continue
        codes.append(code(p + tail))
    for v in range(256):
        codes.append(code(b"".join(bytes_of(d, s) for s, d in fields) + bytes([v, 1, 1])))
    for v in list(range(0, 5)) + [127, 128, 254, 255]:
        codes.append(code(b"".join(bytes_of(d, s) for s, d in fields) + bytes([7, v, 1])))
        codes.append(code(b"".join(bytes_of(d, s) for s, d in fields) + bytes([7, 1, v])))
    rs = sorted(set([0x4000, 0x4001, 0x8000, 0xc000, 0x3fff, 0x0fff] + [(a << 12) | (b << 8) | (c << 4) | d for a in (0, 1, 4, 5, 8, 12) for b in range(16)
                    for c in (0, 5, 15) for d in (0, 3, 7, 8, 15)]))
    for v in (rs if scale > 1 else some(r, rs, 220)):
        codes.append(code(u16(v) + b"".join(bytes_of(d, s) for s, d in fields[1:]) + tail))
    out += pack_codes(r, codes, per=10, fmts=("jp2",))
    out += pack_codes(r, some(r, codes, 160 * scale), per=10, fmts=("jph",))
    for k in some(r, range(len(codes)), 60 * scale):
        f = r.choice(RAW)
        out.append(case(codes[k](f), f))
    # number of components
    for n in (1, 2, 3, 4, 255, 256, 257, 258, 300, 1000):
        for d in (0, -1, 1):
            for f in (r.choice(BOXED), r.choice(RAW)):
                comps = [(7, 1, 1)] * n
                cs = SOC + siz(16, 16, comps, csiz=n + d if n + d > 0 else 0, rsiz=RSIZ[f]) + CAP15 + cod() + qcd() + tilepart(0) + EOC
                out.append(case(plain(f, cs=cs, n=n), f, cap=9000))
    for csz in (16383, 16384, 16385, 20000, 65535):
        out.append(case(plain("jp2", cs=SOC + siz(16, 16, [(7, 1, 1)] * 5, csiz=csz) + cod() + qcd() + tilepart(0) + EOC), "jp2"))
    base = b"".join(bytes_of(d, s) for s, d in fields) + tail
    for k in range(len(base)):
        f = r.choice(FORMATS)
        out.append(case(plain(f, cs=code(base[:k])(f)), f))
    for ln in (0, 1, 2, 3, 38, 39, 40, 41, 42, 43, 44, 47, 49190, 49191, 65535):
        f = r.choice(FORMATS)
        out.append(case(plain(f, cs=code(base, ln)(f)), f))
    return out


def f_tilegrid(r, scale=1):
    """Image, tile sizes and offsets: number of tiles, height, width"""
    codes = []
    for _ in range(220 * scale):
        e = lambda: r.choice([1, 2, 3, 5, 7, 8, 15, 16, 17, 31, 33, 100, 255, 256, 1000, 65535, 65536, 65537, 2**31, 2**32 - 1, r.randrange(1, 2**32)])  # noqa: E731
        o = lambda: r.choice([0, 0, 0, 1, 2, 5, 15, 16, 17, 100, 65536, 2**32 - 2, r.randrange(2**32 - 1)])  # noqa: E731
        xs, ys, xt, yt = e(), e(), e(), e()
        xo, yo, xto, yto = o(), o(), o(), o()
        if r.random() < .6:
            xo, yo = xo % xs, yo % ys
            xto, yto = xto % (xo + 1), yto % (yo + 1)
        if r.random() < .1:
            xt = 0
        codes.append(lambda f, a=(xs, ys, xo, yo, xt, yt, xto, yto): SOC + siz(a[0], a[1], [(7, 1, 1)], RSIZ[f], *a[2:]) + CAP15 + cod() + qcd() + tilepart(0) + EOC)
    out = pack_codes(r, codes, per=10, fmts=(r.choice(BOXED),))
    out += [case(c(f), f) for c in some(r, codes, 60 * scale) for f in (r.choice(RAW),)]
    return out


def coding_bodies(r):
    """Variants of the part common to COD and COC, as (precincts?, bytes)"""
    out = []
    for p in sweep(r, [(1, 2), (1, 4), (1, 4), (1, 0), (1, 1)], 30):
        out.append((0, p))
    for w in range(12):
        for h in range(12):
            out.append((0, bytes([1, w, h, 0, 1])))
    for lv in (0, 1, 2, 5, 31, 32, 33):
        for k in (lv + 1, lv, lv + 2, 0):
            out.append((1, bytes([lv, 4, 4, 0, 1]) + bytes(r.choice([0x00, 0x11, 0x77, 0xff, 0x01, 0x10]) for _ in range(k))))
    for v in range(256):
        out.append((1, bytes([1, 4, 4, 0, 1, v, 0x88])))
        out.append((1, bytes([1, 4, 4, 0, 1, 0x88, v])))
    return out


def f_cod(r, scale=1):
    bodies = coding_bodies(r)
    if scale == 1:
        bodies = some(r, bodies, 900)
    segs = [seg(0x52, u8(p | r.choice([0, 2, 4, 6])) + u8(r.randrange(5)) + u16(1) + u8(r.randrange(2)) + b) for p, b in bodies]
    segs += [seg(0x52, p + bytes([2, 4, 4, 0, 1])) for p in sweep(r, [(1, 0), (1, 0), (2, 1), (1, 0)], 30)]
    full = bytes([1, 0, 0, 1, 0, 2, 4, 4, 0, 1, 0x77, 0x88, 0x88])
    segs += [seg(0x52, full[:k]) for k in range(2, len(full))] + [seg(0x52, full + bytes(k)) for k in (1, 2, 30, 33, 40)]
    r.shuffle(segs)
    out = pack_main(r, segs, per=16, fmts=("jp2",))
    out += pack_main(r, some(r, segs, 300 * scale), per=16, fmts=("jph", "jhc"))
    out += pack_main(r, some(r, segs, 100 * scale), per=16, fmts=("j2c",))
    out += pack_tile(r, some(r, segs, 120 * scale), per=16)
    for s in some(r, segs, 40 * scale):        # as the first COD of the codestream
        f = r.choice(FORMATS)
        out.append(case(plain(f, first=s), f))
    return out


WIDE = (1, 2, 256, 257, 300)


def by_width(r, make, scale=1, count=60, cap=9000):
    """Segments with component indices: in codestreams with few and with many components"""
    out = []
    for n in WIDE:
        wide = n >= 257
        segs = make(wide)
        for f in FORMATS:
            for ch in chunks(some(r, segs, count * scale if n in (1, 257) else 16 * scale), 16):
                out.append(case(plain(f, n=n, main=b"".join(ch)), f, cap=cap))
        f = r.choice(FORMATS)
        for ch in chunks(some(r, segs, 24 * scale), 16):
            out.append(case(plain(f, n=n, hdr=b"".join(ch)), f, cap=cap))
    return out


def indices(wide):
    return [0, 1, 2, 254, 255] + ([256, 257, 16382, 16383, 16384, 16385, 65535] if wide else list(range(3, 254, 17)))


def f_coc(r, scale=1):
    def make(wide):
        bodies = some(r, coding_bodies(r), 200)
        s = [seg(0x53, cix(r.choice(indices(wide)), wide) + u8(p) + b) for p, b in bodies]
        s += [coc(i, 0, None, wide) for i in indices(wide)]
        full = cix(0, wide) + bytes([1, 2, 4, 4, 0, 1, 0x77, 0x88, 0x88])
        s += [seg(0x53, full[:k]) for k in range(2, len(full))] + [seg(0x53, full + bytes(k)) for k in (1, 30, 32, 33, 34, 40)]
        return s
    return by_width(r, make, scale)


def quant_bodies(r):
    out = []
    for sq in range(256):
        out.append(bytes([sq]) + bytes(r.randrange(256) for _ in range(r.choice([1, 2, 4, 7, 8, 14]))))
    for style in range(4):
        for k in list(range(0, 24)) + [97, 98, 192, 193, 194, 195, 196]:
            out.append(bytes([0x40 | style]) + bytes(r.randrange(256) for _ in range(k)))
    for v in E16:
        out.append(bytes([0x41]) + u16(v))
        out.append(bytes([0x42]) + u16(v) * 4)
    for v in range(256):
        out.append(bytes([0x40, v, v ^ 255, v]))
    return out


def f_qcd(r, scale=1):
    segs = [seg(0x5c, b) for b in some(r, quant_bodies(r), 420 * scale)] + [seg(0x5c, b"")]
    out = pack_main(r, segs, per=20, fmts=("jp2",)) + pack_main(r, some(r, segs, 160), per=20, fmts=("jph", "j2c", "jhc"))
    return out + pack_tile(r, some(r, segs, 60), per=20)


def f_qcc(r, scale=1):
    def make(wide):
        return [seg(0x5d, cix(r.choice(indices(wide)), wide) + b) for b in some(r, quant_bodies(r), 260)] + [seg(0x5d, cix(0, wide)[:k]) for k in (0, 1)]
    return by_width(r, make, scale, 90)


def f_rgn(r, scale=1):
    def make(wide):
        s = [rgn(r.choice(indices(wide)), 0, v, wide) for v in range(256)] + [rgn(0, v, 7, wide) for v in range(256)]
        s += [rgn(i, 0, 7, wide) for i in indices(wide)]
        full = cix(0, wide) + b"\0\7"
        return some(r, s, 150) + [rgn(0, 0, v, wide) for v in (36, 37, 38, 254, 255)] + [rgn(i, 0, 7, wide) for i in indices(wide)] \
            + [seg(0x5e, full[:k]) for k in range(len(full))] + [seg(0x5e, full + bytes(k)) for k in (1, 2)]
    return by_width(r, make, scale, 100)


def f_poc(r, scale=1):
    def make(wide):
        s = []
        ix = indices(wide)
        for _ in range(90):
            s.append(poc([(r.choice([0, 1, 31, 32, 33, 255]), r.choice(ix), r.choice([0, 1, 2, 65535]), r.choice([0, 1, 2, 32, 33, 34, 255]),
                           r.choice(ix + [0]), r.choice([0, 1, 4, 5, 255])) for _ in range(r.randrange(0, 4))], wide))
        for k, vals in enumerate(([0, 1, 32, 33, 255], ix, E16, [0, 1, 2, 32, 33, 34, 255], ix, range(256))):
            for v in vals:
                e = [0, 0, 1, 1, 1, 0]
                e[k] = v
                s.append(poc([tuple(e)], wide))
        for rs in (0, 1, 5, 31, 32, 33):
            for re_ in (rs - 1, rs, rs + 1, 33, 34):
                s.append(poc([(rs, 0, 1, re_, 1, 0)], wide))
        for cs in (0, 1, 200, 254, 255):
            for ce in (0, cs - 1, cs, cs + 1, 255):
                s.append(poc([(0, cs, 1, 1, ce, 0)], wide))
        full = poc([(0, 0, 1, 1, 1, 0), (0, 0, 1, 1, 1, 0)], wide)[4:]
        return s + [seg(0x5f, full[:k]) for k in range(len(full))] + [seg(0x5f, full + bytes(3))]
    return by_width(r, make, scale, 110)


def f_comcrg(r, scale=1):
    segs = [com(bytes([v]), 1) for v in range(256)] + [com(bytes([v, 0, 255]), 0) for v in range(0, 256, 9)]
    segs += [com(b"text", v) for v in E16] + [seg(0x64, p) for p in lengths(u16(1) + b"ab")] + [com(b"", 1), com(b"", 0), com(b"x" * 300, 1)]
    segs += [com(bytes(range(0xa0, 0x100)), 1), com(bytes(range(32, 127)), 1), com(b"a\0", 1), com(b"\x80\x9f", 1), com(b"\xad", 1)]
    segs += [com(bytes(r.randrange(256) for _ in range(r.randrange(1, 8))), r.randrange(3)) for _ in range(60 * scale)]
    out = pack_main(r, segs, per=30, fmts=("jp2", r.choice(RAW))) + pack_tile(r, some(r, segs, 120), per=30, fmts=(r.choice(FORMATS),))
    for n in (1, 2, 3, 5, 257):
        s = [seg(0x63, b"".join(u16(r.choice(E16)) for _ in range(2 * n))) for _ in range(8)]
        s += [seg(0x63, bytes(k)) for k in (0, 1, 2, 3, 4 * n - 1, 4 * n + 1, 4 * n + 4)]
        for f in (r.choice(BOXED), r.choice(RAW)):
            for ch in chunks(s, 4):
                out.append(case(plain(f, n=n, main=b"".join(ch)), f, cap=9000))
    return out


def f_cap(r, scale=1):
    segs = []
    for k in range(1, 33):
        segs.append(seg(0x50, u32(1 << (32 - k)) + u16(r.randrange(65536))))
        segs.append(seg(0x50, u32((1 << (32 - k)) | (1 << 17)) + u16(r.randrange(65536)) + u16(r.randrange(65536))))
    for v in [1 << k for k in range(16)] + [0x8000, 0xc000, 0x4000, 0xffff, 0] + list(range(32)) + [r.randrange(65536) for _ in range(30 * scale)]:
        segs.append(seg(0x50, u32(1 << 17) + u16(v)))
    for p in (0, 2**32 - 1, 1 << 17, 3 << 17, 0x80020000, 0x00030001):
        n = bin(p).count("1")
        for k in (n, n - 1, n + 1, 0):
            segs.append(seg(0x50, u32(p) + b"".join(u16(r.randrange(65536)) for _ in range(max(0, k)))))
            segs.append(seg(0x50, u32(p) + bytes(2 * max(0, k) + 1)))
    segs += [seg(0x50, (u32(1 << 17) + u16(3))[:k]) for k in range(6)]
    out = pack_main(r, segs, per=16, fmts=("jph", "jhc")) + pack_main(r, some(r, segs, 80), per=16, fmts=("jp2", "j2c"))
    # no other CAP in the codestream
    for s in some(r, segs, 30 * scale):
        for f in FORMATS:
            rs = r.choice([0, 0x4000, 0x8000, 0xc000, 1])
            cs = SOC + siz(16, 16, [(7, 1, 1)], rs) + r.choice([s, s, b""]) + cod() + qcd() + tilepart(0) + EOC
            out.append(case(plain(f, cs=cs), f))
    return out


def f_prf(r, scale=1):
    segs = []
    for m in (0x56, 0x59):
        for v in E16:
            segs.append(seg(m, u16(v)))
        for k in range(0, 7):
            for _ in range(3):
                segs.append(seg(m, b"".join(u16(r.choice([0, 1, 65535, r.randrange(65536)])) for _ in range(k))))
        segs += [seg(m, bytes(k)) for k in range(6)] + [seg(m, b"\0\1" * 38), seg(m, b"\0\0" * 5 + b"\0\1")]
    return pack_main(r, segs, per=20)


def rplen(r):
    k = r.choice([1, 1, 2, 2, 3, 4, 5])
    return bytes([0x80 | r.randrange(128) for _ in range(k - 1)] + [r.randrange(128)])


def f_packets(r, scale=1):
    main, hdr = [], []
    for v in range(256):
        main.append(seg(0x57, u8(0) + u8(1) + u8(v)))
        hdr.append(seg(0x58, u8(r.randrange(256)) + u8(v)))
    for _ in range(150 * scale):
        s = b"".join(rplen(r) for _ in range(r.randrange(0, 6)))
        main.append(seg(0x57, u8(r.randrange(256)) + u8(r.randrange(256)) + s))
        hdr.append(seg(0x58, u8(r.randrange(256)) + s))
    for k in range(1, 9):
        for b in (b"\x81", b"\xff", b"\x80"):
            hdr.append(seg(0x58, u8(0) + b * k + b"\x01"))
            hdr.append(seg(0x58, u8(0) + b * k))
            main.append(seg(0x57, u8(0) + u8(k + 1) + b * k + b"\x7f"))
    main += [seg(0x57, b""), seg(0x57, b"\0"), seg(0x57, b"\0\0"), seg(0x60, b""), seg(0x60, b"\0abc"), seg(0x55, b"\0\x40" + bytes(4))]
    hdr += [seg(0x58, b""), seg(0x58, b"\0"), seg(0x61, b""), seg(0x61, b"\0x")]
    r.shuffle(main)
    r.shuffle(hdr)
    out = []
    for pm in (True, False):
        fm = FORMATS if scale > 1 else (r.choice(BOXED), r.choice(RAW))
        out += pack_main(r, main if pm else some(r, main, 120), per=24, fmts=fm, pm=pm)
        out += pack_tile(r, hdr if pm else some(r, hdr, 120), per=24, fmts=fm, pm=pm)
    return out


def f_markers(r, scale=1):
    """Main headers: start, order, unknown markers, odd lengths"""
    out = []
    good = [cod(), qcd()]
    for f in FORMATS:
        c0 = CAP15 if f in ("jph", "jhc") else b""
        z = siz(16, 16, [(7, 1, 1)], RSIZ[f])
        for start in (SOC + z, z, SOC, b"", z + SOC, SOC + SOC + z, b"\xff\x4e" + z, b"\xff\x4f\xff\x50\0\2" + z, SOC + b"\0" + z, SOC + z + z, b"\xfe\x4f" + z):
            out.append(case(plain(f, cs=start + c0 + b"".join(good) + tilepart(0) + EOC), f))
        for drop in ([], [0], [1], [0, 1]):
            for c in (c0, CAP15, b""):
                out.append(case(plain(f, cs=SOC + z + c + b"".join(g for i, g in enumerate(good) if i not in drop) + tilepart(0) + EOC), f))
        for m in range(256):
            if m in (0x90,):
                continue
            if scale == 1 and r.random() < .6 and m not in (0x4f, 0x51, 0x92, 0x93, 0xd9):
                continue
            out.append(case(plain(f, main=seg(m, bytes(r.randrange(6)))), f))
        for ln in (0, 1, 2, 3, 4, 11, 13, 50, 1000, 65535):
            for s in (cod(length=ln), qcd(length=ln), com(b"abc", length=ln), seg(0x66, b"ab", ln)):
                out.append(case(plain(f, main=s), f))
        for tail in (b"", EOC, b"\xff", b"\xff\xd9\0", b"\xff\xd8", b"\0\0", EOC + EOC):
            out.append(case(plain(f, cs=plain_code(f)[:-2] + tail), f))
            out.append(case(plain(f, cs=SOC + z + c0 + b"".join(good) + tail), f))
    return out if scale > 1 else some(r, out, 500)


def f_capneed(r, scale=1):
    """Capability field against presence of the capability segment"""
    out = []
    vals = sorted(set([0, 1, 2, 3, 4, 0x3fff, 0x4000, 0x4001, 0x4002, 0x4003, 0x4fff, 0x5000, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xbfff,
                       0xc000, 0xc001, 0xffff] + [1 << k for k in range(16)] + [0x4000 | 1 << k for k in range(14)]
                      + [r.randrange(65536) for _ in range(12 * scale)]))
    for c in (b"", CAP15):
        codes = [SOC + siz(16, 16, [(7, 1, 1)], v) + c + cod() + qcd() + tilepart(0, data=b"") + EOC for v in vals]
        out += pack_codes(r, codes, per=8)
        out += [case(x, f) for x in some(r, codes, 12) for f in RAW]
    return out


def f_overrides(r, scale=1):
    """Component overrides that repeat a component or do not, in the main and tile-part headers"""
    codes = []
    for n in (1, 2, 3, 256, 257, 300):
        wide = n >= 257
        ix = sorted(set([0, 1, 2, 127, 128, 254, 255, 256, 299, n - 1, n]))
        pairs = [(a, b) for a in ix for b in ix if (a < 256 and b < 256) or wide]
        mk = {"coc": lambda i: coc(i, 0, spcod(0), wide), "qcc": lambda i: qcc(i, 0, 2, b"", wide), "rgn": lambda i: rgn(i, 0, 3, wide)}
        for a, b in some(r, pairs, 12 * scale):
            for k in mk:
                x, y = mk[k](a), mk[k](b)
                for main, h0, h1 in ((x + y, b"", b""), (x, y, b""), (b"", x + y, b""), (b"", x, y), (x, b"", y), (x + com(b"") + y, b"", b"")):
                    if n > 3 and r.random() < .85:
                        continue
                    tp = tilepart(0, 0, 2, h0, b"") + tilepart(0, 1, 2, h1, b"")
                    codes.append((n, plain_code("jp2", n=n, main=main, tiles=tp)))
    out = []
    for big in (False, True):
        cs = [c for n, c in codes if (n > 3) == big]
        if not big:
            out += pack_codes(r, cs, per=10)
        else:
            out += [case(c, r.choice(RAW), r.random() < .7, cap=9000) for c in some(r, cs, 60 * scale)]
    return out


# ------------------------------------------------------------ tile-parts
def f_tpsot(r, scale=1):
    """Segments that are only allowed in first tile-parts, in tile-parts of every number"""
    out = []
    its = [cod(), qcd(), coc(0), qcc(0, 0, 2, b"\x40" * 4), rgn(0), poc([(0, 0, 1, 1, 1, 0)]), com(b"x"), seg(0x58, b"\0\5"), b""]
    for f in ("jp2", "jhc") if scale == 1 else FORMATS:
        for s in its:
            for part in chunks(range(256), 32):
                if s not in its[:5] and r.random() < .7:
                    continue
                tp = b"".join(tilepart(0, k, 0, s, b"") for k in part)
                out.append(case(plain(f, cs=plain_code(f, tiles=tp)), f, r.random() < .5, cap=9000))
    return out


def f_tileparts(r, scale=1, n=380):
    """Tile-part histories: order, numbering, stated lengths and numbers, missing and superfluous parts"""
    out = []
    for _ in range(n * scale):
        f = r.choice(FORMATS)
        nt = r.choice([1, 1, 2, 3, 4, 6])
        parts = []
        for t in range(nt):
            k = r.choice([1, 1, 2, 3])
            d = r.choice(["all", "first", "last", "none", "wrong", "mixed"]) if r.random() < .7 else "all"
            for i in range(k):
                tn = {"all": k, "first": k if i == 0 else 0, "last": k if i == k - 1 else 0, "none": 0,
                      "wrong": r.choice([k + 1, max(1, k - 1), k]), "mixed": r.choice([0, k, k + 1])}[d]
                parts.append([t, i, tn])
        if r.random() < .6:
            keyed = []
            for t in range(nt):
                keyed += sorted((r.random(), p) for p in [q for q in parts if q[0] == t])
            parts = [p for _, p in sorted(keyed, key=lambda q: q[0])] if r.random() < .5 else parts
        k = r.random()
        if k < .12 and parts:
            parts.pop(r.randrange(len(parts)))
        elif k < .2:
            parts.insert(r.randrange(len(parts) + 1), list(r.choice(parts)))
        elif k < .28:
            r.choice(parts)[0] = r.choice([nt, nt + 1, nt - 1, 0, 65534, 65535, 255, 256])
        elif k < .34:
            r.choice(parts)[1] = r.choice([0, 1, 254, 255])
        elif k < .4:
            r.choice(parts)[2] = r.choice([0, 1, 2, 255])
        body = b""
        at = r.randrange(len(parts)) if parts and r.random() < .4 else -1
        for j, (t, i, tn) in enumerate(parts):
            hdr = b"" if r.random() < .7 else com(b"c")
            data = bytes(r.choice([0, 1, 0x90, 0xff, 0x93, 0xd9, 0x80]) for _ in range(r.randrange(5)))
            size = 14 + len(hdr) + len(data)
            ps = None
            sod = SOD
            if j == at:
                ps = r.choice([0, 1, 2, 11, 12, 13, 14, 15, size - 1, size + 1, size + 2, size + 14, 2**31, 2**32 - 1, 0])
                if r.random() < .2:
                    sod, ps = b"", None
            if j == len(parts) - 1 and r.random() < .25:
                ps = 0
            body += tilepart(t, i, tn, hdr, data, ps, sod)
        end = r.choice([EOC] * 8 + [b"", b"\xff", b"\0\0" + EOC, EOC + b"\0", b"\xff\x90"])
        z = siz(8 * nt, 16, [(7, 1, 1)], RSIZ[f], 0, 0, 8, 16)
        cs = SOC + z + (CAP15 if f in ("jph", "jhc") else b"") + cod() + qcd() + body + end
        out.append(case(plain(f, cs=cs, w=8 * nt), f, r.random() < .7))
    return out


def f_sot(r, scale=1):
    """The fields of the SOT segment"""
    out = []
    for f in (FORMATS if scale > 1 else (r.choice(BOXED), r.choice(RAW))):
        for k, vals in enumerate((E16, E32, range(256), range(256), [0, 2, 4, 6, 8, 9, 10, 11, 12, 16, 18, 65535])):
            for v in (vals if scale > 1 or k in (0, 1, 4) else some(r, vals, 50) + [0, 1, 2, 254, 255]):
                a = [0, 12 + 2 + 4, 0, 1, 10]
                a[k] = v
                cs = plain_code(f, tiles=sot(a[0], a[1], a[2], a[3], a[4]) + SOD + bytes(4))
                out.append(case(plain(f, cs=cs), f))
        # a grid of many tiles
        for nt in (2, 3, 255, 256, 257, 300):
            for skip in (None, 0, nt - 1, nt // 2):
                for tn in (0, 1):
                    tp = b"".join(tilepart(t, 0, tn, b"", b"\0") for t in range(nt) if t != skip)
                    if len(tp) > 5000 and scale == 1 and r.random() < .75:
                        continue
                    z = siz(nt, 16, [(7, 1, 1)], RSIZ[f], 0, 0, 1, 16)
                    cs = SOC + z + (CAP15 if f in ("jph", "jhc") else b"") + cod() + qcd() + tp + EOC
                    out.append(case(plain(f, cs=cs, w=nt), f, cap=12000))
        # many parts of one tile
        for np_ in (2, 10, 254, 255, 256):
            for tn in (0, min(np_, 255), 1):
                if np_ > 100 and scale == 1 and tn == 1:
                    continue
                tp = b"".join(tilepart(0, min(i, 255), tn, b"", b"\0") for i in range(np_))
                out.append(case(plain(f, cs=plain_code(f, tiles=tp)), f, cap=12000))
        for cut in range(1, 15):
            cs = plain_code(f)[:-2]
            out.append(case(plain(f, cs=cs[:len(cs) - 18 + cut] + r.choice([b"", EOC])), f))
    return out


def f_tileheader(r, scale=1, n=260):
    """Segments in tile-part headers"""
    out = []
    for _ in range(n * scale):
        f = r.choice(FORMATS)
        nc = r.choice([1, 2, 3, 3, 257])
        wide = nc >= 257
        nt = r.choice([1, 2])
        body = b""
        np_ = r.choice([1, 2])
        for t in range(nt):
            for i in range(np_):
                k = r.randrange(5)
                hdr = b"".join(r.choice([cod(), qcd(), coc(r.choice([0, 1, 0, 2]), 0, None, wide), qcc(r.choice([0, 1, 0, 2]), 0, 2, b"\x40" * 4, wide),
                                         rgn(0, 0, 3, wide), poc([(0, 0, 1, 1, 1, 0)], wide), com(b"x"), seg(0x58, b"\0\5"),
                                         seg(0x61, b"\0a"), seg(0x57, b"\0\1\5"), seg(0x50, u32(0)), seg(0x55, b"\0\0"), seg(0x66, b"z"),
                                         seg(0x63, bytes(4 * nc)), SOC, EOC][:13 if r.random() < .85 else 16]) for _ in range(k))
                body += tilepart(t, i, np_ if r.random() < .7 else 0, hdr, b"\0", sod=SOD if r.random() < .96 else b"")
        z = siz(8 * nt, 16, [(7, 1, 1)] * nc, RSIZ[f], 0, 0, 8, 16)
        main = b"".join(r.choice([coc(r.choice([0, 1]), 0, None, wide), qcc(r.choice([0, 1]), 0, 2, b"\x40" * 4, wide), com(b"m")]) for _ in range(r.choice([0, 0, 1, 2, 3])))
        cs = SOC + z + (CAP15 if f in ("jph", "jhc") else b"") + cod() + qcd() + main + body + EOC
        out.append(case(plain(f, cs=cs, w=8 * nt, n=nc), f, r.random() < .7, cap=9000))
    return out


def f_tileheader_order(r, scale=1):
    """Every pair of segments of a tile-part header, in the first and in a later tile-part"""
    out = []
    its = [cod(), qcd(), coc(0), coc(1), qcc(0, 0, 2, b"\x40" * 4), qcc(1, 0, 2, b"\x40" * 4), rgn(0), poc([(0, 0, 1, 1, 1, 0)]), com(b"x"), seg(0x58, b"\0\5"), seg(0x61, b"\0a")]
    for f in (FORMATS if scale > 1 else (r.choice(FORMATS),)):
        for a in its:
            for b in its + [b""]:
                for late in (False, True):
                    tp = tilepart(0, 0, 2, b"" if late else a + b, b"\0") + tilepart(0, 1, 2, a + b if late else b"", b"\0")
                    out.append(case(plain(f, n=2, cs=plain_code(f, n=2, tiles=tp)), f))
    return out


# ------------------------------------------------------------ relations
def f_consistency(r, scale=1, n=330):
    """Image header, bits per component box and SIZ that agree or differ in one respect"""
    out = []
    for _ in range(n * scale):
        f = r.choice(BOXED)
        k = r.choice([1, 1, 2, 3, 4, 5])
        same = r.random() < .6
        depth = [r.choice([7, 0, 15, 37, 0x87, 0x80, 8])] * k if same else [r.choice([7, 0x87, 8, 15, 0x8f]) for _ in range(k)]
        w, h = r.choice([(16, 16), (17, 33), (100, 7), (65536, 3), (1, 1)])
        xo, yo = r.choice([(0, 0), (0, 0), (3, 5), (16, 0), (0, 9)])
        comps = [(d, r.choice([1, 1, 2]), r.choice([1, 1, 2])) for d in depth]
        z = siz(w + xo, h + yo, comps, RSIZ[f], xo, yo)
        bpc = depth[0] if len(set(depth)) == 1 and r.random() < .8 else 255
        hh, ww, nn, bp, bb = h, w, k, bpc, list(depth)
        t = r.randrange(10)
        if t == 0:
            hh = r.choice([h + 1, h - 1, h + yo, w, 0])
        elif t == 1:
            ww = r.choice([w + 1, w - 1, w + xo, h, 0])
        elif t == 2:
            nn = r.choice([k + 1, k - 1, 0, 256 + k])
        elif t == 3:
            bp = r.choice([bpc ^ 1, bpc ^ 128, 255, 127, 7, 0x87])
        elif t == 4:
            i = r.randrange(k)
            bb[i] ^= r.choice([1, 128, 2])
        elif t == 5:
            bb = bb[:-1] if r.random() < .5 else bb + [7]
        elif t == 6 and k > 1:
            bb = list(reversed(bb))
        subs = box("ihdr", ihdr(hh, ww, nn, bp, 7, 0, 0)) + box("colr", b"\1\0\0" + u32(16))
        if (bp == 255) != (r.random() < .1):
            subs += box("bpcc", bytes(bb))
        cs = SOC + z + (CAP15 if f == "jph" else b"") + cod() + qcd() + tilepart(0) + EOC
        u = r.random()
        pre = mid = post = b""
        if u < .06:        # a second header or codestream: the first counts
            post = box("jp2c", plain_code(f, w=99, h=98))
        elif u < .12:
            post = box("jp2h", box("ihdr", ihdr(5, 6, 7, 8)))
        elif u < .16:
            mid = box("jp2c", cs[:2] + b"\0\0")
        elif u < .2:
            mid = box("jp2h", box("ihdr", ihdr(5, 6, 7, 8)))
        elif u < .23:
            subs = subs + box("ihdr", ihdr(5, 6, 7, 8))
        out.append(case(plain(f, cs=cs, subs=subs, pre=pre, mid=mid, post=post), f, r.random() < .7))
    return out


def f_ratio(r, scale=1, n=240):
    """Compression ratio: sizes, depths and file lengths"""
    out = []
    for _ in range(n * scale):
        f = r.choice(FORMATS)
        k = r.choice([1, 2, 3, 4, 7])
        w = r.choice([1, 2, 16, 100, 1000, 4000, 65535, 2**31, 2**32 - 1, r.randrange(1, 5000)])
        h = r.choice([1, 2, 16, 100, 1000, 4000, 65535, 2**31, 2**32 - 1, r.randrange(1, 5000)])
        xo, yo = r.choice([(0, 0), (0, 0), (1, 0), (0, 1), (5, 9), (3, 3)])
        d = [r.choice([7, 0, 15, 37, 0x87])] * k if r.random() < .6 else [r.choice([7, 0, 15, 37]) for _ in range(k)]
        xs, ys = min(w + xo, 2**32 - 1), min(h + yo, 2**32 - 1)
        z = siz(xs, ys, [(x, 1, 1) for x in d], RSIZ[f], xo, yo)
        cs = SOC + z + (CAP15 if f in ("jph", "jhc") else b"") + cod() + qcd() + com(b"p" * r.randrange(1, 200)) + tilepart(0, data=bytes(r.randrange(50))) + EOC
        bpc = d[0] if len(set(d)) == 1 else 255
        subs = box("ihdr", ihdr(ys - yo, xs - xo, k, bpc)) + box("colr", b"\1\0\0" + u32(16)) + (box("bpcc", bytes(d)) if bpc == 255 or r.random() < .1 else b"")
        out.append(case(plain(f, cs=cs, subs=subs, post=b"" if f in RAW or r.random() < .5 else box("xml ", b"<a>%s</a>" % (b"y" * r.randrange(300)))), f, r.random() < .5))
    return out


def cut_points(b, starts):
    """Offsets around the boundaries of a file"""
    out = set([0, 1, 2, len(b) - 1, len(b) - 2, len(b) - 3, len(b)])
    for s in starts:
        out.update(range(max(0, s - 2), min(len(b), s + 3)))
    return sorted(out)


def f_prefixes(r, scale=1):
    """All prefixes of files that end with their codestream"""
    out = []
    for f in FORMATS:
        for _ in range(scale):
            nt = r.choice([1, 2])
            hdr = r.choice([b"", com(b"x")])
            data = bytes(r.choice([0, 1, 0x55]) for _ in range(3))
            tp = b"".join(tilepart(t, i, r.choice([0, 2]), hdr, data) for t in range(nt) for i in range(2))
            z = siz(8 * nt, 16, [(7, 1, 1)], RSIZ[f], 0, 0, 8, 16)
            cs = SOC + z + (CAP15 if f in ("jph", "jhc") else b"") + cod() + qcd() + tp + EOC
            b = plain(f, cs=cs, w=8 * nt, how=r.choice(["32", "64", "0"]))
            for k in range(len(b)):
                out.append(case(b[:k], f, r.random() < .5, legal="False"))
            out.append(case(b, f, legal="True"))
    return out


def f_prefixes_rich(r, scale=1, n=160):
    out = []
    for _ in range(n * scale):
        f = r.choice(FORMATS)
        b = gen.valid(r, f, tail=False)
        out.append(case(gen.truncate(r, b), f, r.random() < .5))
        if r.random() < .3:
            out.append(case(b[:len(b) - r.randrange(1, 6)], f, r.random() < .5))
    return out


def f_lost(r, scale=1, n=150):
    """Files from which a piece inside has been lost or replaced by zeros"""
    out = []
    for _ in range(n * scale):
        f = r.choice(FORMATS)
        b = gen.valid(r, f, rich=r.random() < .5)
        i = r.randrange(len(b))
        j = min(len(b), i + r.choice([1, 2, 3, 8, 14, 30, 100]))
        b = b[:i] + (b[j:] if r.random() < .6 else bytes(j - i) + b[j:])
        if not gen.too_big(b):
            out.append(case(b, f, r.random() < .5))
    return out


def f_random_fields(r, scale=1, n=200):
    """Files with many fields at random boundary values"""
    out = []
    while len(out) < n * scale:
        f = r.choice(FORMATS)
        b = bytearray(gen.valid(r, f))
        for _ in range(r.randrange(2, 12)):
            b[r.randrange(len(b))] = edge8(r)
        b = bytes(b)
        if not gen.too_big(b):
            out.append({"bytes": b, "o": ropts(r, f)})
    return out


# ------------------------------------------------------------ MIX
RDF = b"http://www.w3.org/1999/02/22-rdf-syntax-ns#"
MIXFIELDS = [(b"http://ns.adobe.com/xap/1.0/", b"CreateDate"), (b"http://ns.adobe.com/tiff/1.0/", b"Artist"),
             (b"http://ns.adobe.com/tiff/1.0/", b"Make"), (b"http://ns.adobe.com/tiff/1.0/", b"Model"),
             (b"http://ns.adobe.com/exif/1.0/aux/", b"SerialNumber"), (b"http://ns.adobe.com/xap/1.0/", b"CreatorTool"),
             (b"http://ns.adobe.com/tiff/1.0/", b"CreatorTool"), (b"urn:other", b"Make")]
MIXVALUES = [b"2020-01-02", b" padded ", b"", b" ", b"Tool 1.2.3", b"Tool", b"Two Words 7", b"Two Words 7b", b"Tool 1.2\n", b"\nTool 3", b"A 1 2",
             b"Tool ", b" 5", b"a&amp;b", b"x\ty 1", b"line1\nline2 3", b"-", b"Tool 1..2", b"Tool 1,2"]


def xmp(r):
    k = r.random()
    ns = b" xmlns:rdf='" + RDF + b"'"
    if k < .06:
        return b"<x:xmpmeta xmlns:x='adobe:ns:meta/'/>"
    if k < .12:
        return b"<x:xmpmeta xmlns:x='adobe:ns:meta/'><rdf:RDF" + ns + b"/></x:xmpmeta>"
    if k < .16:
        return b"<x:xmpmeta xmlns:x='adobe:ns:meta/'><rdf:RDF" + ns + b"><rdf:Other/></rdf:RDF></x:xmpmeta>"
    if k < .2:
        return b"<y:xmpmeta xmlns:y='adobe:ns:other/'><rdf:RDF" + ns + b"><rdf:Description/></rdf:RDF></y:xmpmeta>"
    ds = b""
    for _ in range(r.choice([1, 1, 2, 3])):
        att, el = b"", b""
        for i, (u, t) in enumerate(MIXFIELDS):
            p = b"p%d" % i
            if r.random() < .35:
                att += b" xmlns:" + p + b"='" + u + b"' " + p + b":" + t + b"='" + r.choice(MIXVALUES) + b"'"
            elif r.random() < .35:
                v = r.choice(MIXVALUES)
                el += b"<" + p + b":" + t + b" xmlns:" + p + b"='" + u + b"'>" + v + (b"<z/>q" if r.random() < .1 else b"") + b"</" + p + b":" + t + b">"
                if r.random() < .1:
                    el += b"<" + p + b":" + t + b" xmlns:" + p + b"='" + u + b"'>second</" + p + b":" + t + b">"
        ds += b"<rdf:Description" + att + b">" + r.choice([b"", b"\n "]) + el + b"</rdf:Description>"
    return b"<x:xmpmeta xmlns:x='adobe:ns:meta/'>" + r.choice([b"", b" "]) + b"<rdf:RDF" + ns + b">" + ds + b"</rdf:RDF></x:xmpmeta>"


COMMENTS = [b"Kakadu-v7.10.4", b"Kakadu-v", b"-v1", b"-v", b"no version", b"a-v1-v2.3x", b"a-v1\nb-v2", b"x\ny-v3 z", b"-V1", b"Kdu-Layer-Info: log",
            b"A-v1.2\r", b"caf\xc3\xa9-v1", b"J2K-v7.\xb9", b"\n-v5", b"a -v 5"]


def mix_file(r, f, size=None):
    nc = r.choice([1, 1, 3, 4, 257])
    depths = [r.choice([7, 7, 11, 15, 0x87, 37])] * nc if r.random() < .7 else [r.choice([7, 15, 0x87]) for _ in range(nc)]
    w, h = r.choice([1, 16, 17, 640, 4000]), r.choice([1, 16, 33, 480, 70000])
    xt, yt = r.choice([(w, h), (w + 5, h), (w, h + 100)])
    levels = r.choice([0, 0, 1, 5])
    sp = spcod(levels, 4, 4, 0, r.randrange(2))
    body = SOC + siz(w, h, [(d, 1, 1) for d in depths], RSIZ[f], 0, 0, xt, yt) + (CAP15 if f == "jph" else b"")
    parts = [cod(0, 0, r.choice([1, 12, 65535]), 0, sp), qcd(0, 2, b"\x40" * (3 * levels + 1))]
    for _ in range(r.choice([0, 1, 1, 2])):
        parts.append(com(r.choice(COMMENTS), r.choice([1, 1, 1, 0])))
    if r.random() < .2:
        parts.append(coc(0, 0, spcod(3, 4, 4, 0, 0), nc >= 257))
    r.shuffle(parts)
    hdr = com(r.choice(COMMENTS)) if r.random() < .15 else b""
    if r.random() < .1:
        hdr += cod(0, 0, 7, 0, spcod(9, 4, 4, 0, r.randrange(2)))
    cs = body + b"".join(parts) + tilepart(0, 0, 1, hdr, bytes(r.randrange(40))) + EOC
    same = len(set(depths)) == 1
    subs = [b"" if same else box("bpcc", bytes(depths))]
    if nc < 10:
        x = r.random()
        if x < .15:         # not called for, and not in agreement
            subs = [box("bpcc", bytes(r.choice([0, 7, 9, 15, 0x87]) for _ in range(nc)))]
        elif x < .25:
            subs = [b""]
    cols = []
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.random()
        if k < .4:
            cols.append(b"\1\0\0" + u32(r.choice([16, 17, 18])))
        elif k < .8 or f == "jp2":
            cols.append(u8(2) + b"\0\0" + icc(r, r.choice([b"scnr", b"mntr"]), desc=r.choice([b"sRGB profile", b"", b" x ", b"a&b"]),
                                            tags=r.choice([None, None, [b"wtpt"], [], [b"wtpt", b"desc"]])))
        elif k < .9:
            cols.append(u8(5) + b"\0\0" + u16(1) + u16(13) + u16(0) + u8(128))
        else:
            cols.append(u8(3) + b"\0\0" + icc(r, b"prtr"))
    subs.append(b"".join(box("colr", c) for c in cols))
    if r.random() < .6:
        kinds = r.choice([["resc"], ["resd"], ["resc", "resd"], ["resd", "resc"]])

        def res():
            return u16(r.choice([1, 3, 300, 65535, r.randrange(1, 65536)])) + u16(r.choice([1, 3, 254, 65535]))
        subs.append(box("res ", b"".join(box(t, res() + res() + u8(r.choice([0, 1, 2, 4, 9, 127, 255, 254])) + u8(r.choice([0, 1, 2, 3, 127, 255]))) for t in kinds)))
    r.shuffle(subs)

    def meta():
        return b"".join(r.choice([box("xml ", xmp(r)), box("uuid", XMP + xmp(r)), box("xml ", b"<a/>"), box("uuid", bytes(16) + b"x"), box("free", b"")])
                        for _ in range(r.choice([0, 0, 1, 2, 3])))
    brand = f.encode() + b" "
    b = SIG + ftyp(brand, 0, [brand]) + meta() + box("jp2h", box("ihdr", ihdr(h, w, nc, depths[0] if same else 255)) + b"".join(subs)) + meta() + box("jp2c", cs)
    if r.random() < .1:
        b += box("jp2c", plain_code(f, main=com(b"Second-v9")))
    return b + meta()


def f_mix(r, scale=1, n=300):
    out = []
    for _ in range(n * scale):
        f = r.choice(BOXED)
        b = mix_file(r, f)
        if r.random() < .05:
            b = gen.mutate(r, b)
        if not gen.too_big(b):
            c = case(b, f, r.random() < .5, r.random() < .7, cap=9000)
            c["o"]["mix"] = r.choice([1, 2])
            out.append(c)
    for f in FORMATS:
        for m in (0, 1, 2):
            for b in (gen.valid(r, f), gen.mutate(r, gen.valid(r, f)), gen.valid(r, r.choice(FORMATS)), b""):
                c = case(b, f)
                c["o"]["mix"] = m
                out.append(c)
    return out


# ------------------------------------------------------------ at the upper ends of ranges: very long reports
HUGE = 300000


def f_huge_siz(r, scale=1):
    fs = [r.choice(RAW)] + ([r.choice(BOXED)] if scale > 1 else [])
    return [case(plain(f, comps=[(7, 1, 1)] * n), f, v, cap=HUGE) for f in fs for n, v in ((16384, False), (16385, False), (16383, scale > 4))]


def f_huge_uuid(r, scale=1):
    f = r.choice(BOXED)
    out = []
    for n, m in ((65535, 65535), (65535, 65534)) if scale > 1 else ((65535, 65535),):
        b = box("uinf", box("ulst", u16(n) + bytes(m * 16)) + box("url ", b"\0\0\0\0a\0"))
        out.append(case(plain(f, pre=b), f, False, cap=HUGE))
    return out


def f_huge_seg(r, scale=1):
    out = []
    for n in (65533, 65532, 65531):
        for s in ([seg(0x63, bytes(n))], [com(b"x" * (n - 2), 1)], [seg(0x58, b"\0" + b"\1" * (n - 1))], [seg(0x57, b"\0" + b"\1\1" * ((n - 1) // 2))]):
            f = r.choice(FORMATS)
            out.append(case(plain(f, hdr=b"".join(s)) if s[0][1] == 0x58 else plain(f, main=b"".join(s)), f, False, cap=HUGE))
    return out


def f_huge_poc(r, scale=1):
    out = []
    e = u8(0) + u8(0) + u16(1) + u8(1) + u8(1) + u8(0)
    for n in (65533, 65532, 65527, 65534 - 9):
        f = r.choice(FORMATS)
        out.append(case(plain(f, main=seg(0x5f, (e * 9999)[:n])), f, False, cap=HUGE))
    return out


# ------------------------------------------------------------ many of a kind
def count(r):
    return r.choice([33, 65, 101, 129, 200, 257, 300])


def f_many_boxes(r, scale=1):
    out = []
    for _ in range(2 * scale):
        for f in BOXED:
            n = count(r)
            kinds = [box("free", b""), box("xml ", b"<a/>"), box("uuid", bytes(16) + b"x"), box("uinf", box("ulst", u16(0)) + box("url ", b"\0\0\0\0a\0")),
                     box("free", b"ab", "64"), box("jp2i", b"")]
            run = b"".join(r.choice(kinds) for _ in range(n))
            late = r.choice([b"", box("jp2c", plain_code(f)), SIG, ftyp(b"jp2 "), box("jp2h", HDR), box("abcd", b"x")])
            out.append(case(plain(f, pre=run, post=late), f, r.random() < .5, cap=HUGE))
            out.append(case(plain(f, post=run + late), f, r.random() < .5, cap=HUGE))
            subs = [r.choice([box("free", b""), box("colr", b"\1\0\0" + u32(17)), box("xml ", b"<a/>")]) for _ in range(count(r))]
            subs.append(r.choice([b"", box("ihdr", ihdr(16, 16, 1, 7)), box("bpcc", b"\7"), box("cdef", u16(1) + bytes(6)), box("colr", b"\1\0\0" + u32(16))]))
            out.append(case(plain(f, subs=HDR + b"".join(subs)), f, r.random() < .5, cap=HUGE))
            res = [box(r.choice(["resc", "resd"]), b"\0\1" * 4 + b"\0\0") for _ in range(r.choice([2, 3, 40]))] + [box("free", b"")] * r.choice([0, 70])
            r.shuffle(res)
            out.append(case(plain(f, subs=HDR + box("res ", b"".join(res))), f, cap=HUGE))
            big = box(r.choice(["free", "uuid", "xml "]), bytes(r.choice([65528, 65536, 70000, 131072])), r.choice(["32", "64"]))
            out.append(case(plain(f, pre=big, post=r.choice([b"", big])), f, False, cap=HUGE))
            depth = r.choice([5, 12, 30])
            b = box("ihdr", ihdr(16, 16, 1, 7))
            for _ in range(depth):
                b = box(r.choice(["jp2h", "res ", "uinf"]), b)
            out.append(case(plain(f, pre=b), f, r.random() < .5, cap=HUGE))
    return out


def f_many_fields(r, scale=1):
    out = []
    for _ in range(2 * scale):
        for f in BOXED:
            n = count(r)
            odd = r.randrange(n)
            for body in (u16(n) + b"".join(u16(k) + u16(r.choice([0, 1, 2, 3, 65535]) if k != odd else 7) + u16(r.choice([0, 1, 65535])) for k in range(n)),
                         u16(n) + bytes(6 * (n - 1)) + u16(n) + u16(9) + u16(0), u16(n) + bytes(6 * n - 1)):
                out.append(case(in_header(f, [box("cdef", body)]), f, r.random() < .5, cap=HUGE))
            out.append(case(in_header(f, [box("cmap", b"".join(u16(k) + (b"\0\0" if k != odd else r.choice([b"\0\1", b"\2\0"])) for k in range(n)))]), f, cap=HUGE))
            out.append(case(in_header(f, [box("bpcc", bytes(7 if k != odd else r.choice([38, 0xa6, 37]) for k in range(n)))]), f, cap=HUGE))
            cols = r.choice([1, 3, 40, 130])
            ne = r.choice([2, 255, 256, 257, 1024, 1025]) if cols == 1 else r.choice([2, 9])
            ds = [r.choice([7, 7, 15, 0x87, 38]) for _ in range(cols)]
            out.append(case(in_header(f, [box("pclr", u16(ne) + u8(cols) + bytes(ds) + bytes(r.randrange(256) for _ in range(ne * sum(((d & 127) + 8) // 8 for d in ds))))]), f, cap=HUGE))
            brands = [b"jpx "] * n
            brands[odd] = r.choice([b"jp2 ", b"jph ", b"jp2_"])
            out.append(case(SIG + box("ftyp", (b"jp2 " if f == "jp2" else b"jph ") + u32(0) + b"".join(brands)) + plain(f)[32:], f, cap=HUGE))
    return out


def f_many_comps(r, scale=1):
    """Many components: which one is compared with which"""
    out = []
    for _ in range(4 * scale):
        for f in BOXED:
            n = count(r)
            ds = [r.choice([7, 15, 0x87]) for _ in range(n)]
            ss = list(ds)
            bs = list(ds)
            for xs in (ss, bs):
                if r.random() < .4:
                    k = r.choice([n - 1, n // 2, r.randrange(n)])
                    xs[k] = r.choice([xs[k] ^ 128, xs[k] + 1, 11])
            if r.random() < .3:
                bs = bs[:-1] if r.random() < .5 else bs + [7]
            h = box("ihdr", ihdr(16, 16, n, 255)) + box("bpcc", bytes(bs)) + box("colr", b"\1\0\0" + u32(16))
            if r.random() < .3:
                ss = [7] * n
                if r.random() < .6:
                    ss[r.randrange(n)] = r.choice([6, 8, 0x87])
                h = box("ihdr", ihdr(16, 16, n, 7)) + box("colr", b"\1\0\0" + u32(16))
            out.append(case(plain(f, cs=plain_code(f, comps=[(s, 1, 1) for s in ss]), subs=h), f, r.random() < .5, cap=HUGE))
    return out


def f_many_icc(r, scale=1):
    out = []
    for f in BOXED:
        for n in (33, 65, 101, 257) + ((4096, 4097, 5000) if f == "jp2" else ()):
            tags = [b"rXYZ"] * n
            tags[r.choice([-1, n // 2])] = b"A2B0"
            if r.random() < .7:
                tags[r.randrange(n // 2 + 1, n - 1)] = b"desc"
            out.append(case(in_header(f, [box("colr", u8(r.choice([2, 2, 3])) + b"\0\0" + icc(r, b"mntr", tags=tags))]), f, False, cap=HUGE))
        out.append(case(in_header(f, [box("colr", u8(2) + b"\0\0" + icc(r, b"mntr", desc=b"D" * r.choice([127, 255, 256, 300, 1000]))) for _ in range(12)]), f, cap=HUGE))
    return out


def f_many_meta(r, scale=1):
    out = []
    for _ in range(2 * scale):
        for f in BOXED:
            n = count(r)
            ids = bytes(r.randrange(256) for _ in range(16 * n))
            m = r.choice([n, n, n - 1, n + 1])
            out.append(case(plain(f, pre=box("uinf", box("ulst", u16(m) + ids) + box("url ", b"\0\0\0\0" + b"u" * r.choice([100, 255, 256, 1000]) + r.choice([b"\0", b""])))), f, cap=HUGE))
            doc = b"<r>" + b"".join(b"<i n='%d'>%d</i>" % (k, k) for k in range(n)) + r.choice([b"</r>", b"</r>", b"</R>"])
            out.append(case(plain(f, pre=box("xml ", doc), post=box("uuid", XMP + doc)), f, cap=HUGE))
            deep = r.choice([20, 60, 90])
            doc = b"".join(b"<e%d>" % k for k in range(deep)) + b"x" + b"".join(b"</e%d>" % k for k in reversed(range(deep)))
            out.append(case(plain(f, pre=box("xml ", doc)), f, cap=HUGE))
            out.append(case(plain(f, pre=box("xml ", b"<a b='" + b"v" * n * 3 + b"'>" + b"t" * n * 9 + b"</a>")), f, cap=HUGE))
    return out


def f_many_segs(r, scale=1):
    out = []
    for _ in range(2 * scale):
        for f in FORMATS:
            n = count(r)
            wide = n > 256
            late = r.choice([b"", seg(0x30, b"x"), cod(1, 7), qcd(3), com(b"late"), seg(0x58, b"\0\1")])
            runs = [b"".join(com(b"c%d" % k) for k in range(n)), b"".join(seg(r.choice([0x30, 0x31, 0x6f]), b"") for _ in range(n)),
                    b"".join(coc(k, wide=wide) for k in range(n)) + r.choice([b"", coc(n - 1, wide=wide)]),
                    b"".join(qcc(k, wide=wide) for k in range(n)) + r.choice([b"", qcc(0, wide=wide)]),
                    b"".join(rgn(k, wide=wide) for k in range(n)) + r.choice([b"", rgn(n // 2, wide=wide)]),
                    poc([(k % 33, 0, 1 + k, 33, n - 1, k % 5) for k in range(n)], wide),
                    b"".join(seg(0x57, u8(k) + b"\2\1\2") for k in range(n)), b"".join(seg(0x60, u8(k) + b"\0") for k in range(n)),
                    b"".join(seg(0x55, u8(k) + b"\0") for k in range(n)), seg(0x63, b"".join(u16(k) + u16(9) for k in range(n))),
                    seg(0x56, b"".join(u16(k) for k in range(n))), seg(0x59, b"".join(u16(k) for k in range(n)))]
            for x in r.sample(runs, 3):
                for tile in (False, True):
                    out.append(case(plain(f, n=n, **{"hdr" if tile else "main": x + late}), f, r.random() < .5, r.random() < .7, cap=HUGE))
            out.append(case(plain(f, hdr=seg(0x58, b"\0" + b"".join(rplen(r) for _ in range(n)))), f, cap=HUGE))
    return out


def f_many_tiles(r, scale=1):
    out = []
    for _ in range(2 * scale):
        for f in FORMATS:
            # many tiles
            n = r.choice([33, 64, 101, 257, 300])
            order = list(range(n))
            if r.random() < .5:
                r.shuffle(order)
            x = r.random()
            if x < .25:
                order.pop(r.randrange(n))
            elif x < .35:
                order.append(n)
            elif x < .45:
                order.append(order[-1])
            parts = [tilepart(k, 0, 1, b"", b"") for k in order]
            out.append(case(plain(f, w=n, h=1, xt=1, yt=1, tiles=b"".join(parts)), f, False, cap=HUGE))
            # many parts of a tile
            n = r.choice([33, 101, 128, 254, 255])
            last = r.choice([n, n, n + 1 if n < 255 else n, n - 1])
            parts = [tilepart(0, k, r.choice([0, last]) if k < n - 1 else last, b"", b"") for k in range(n)]
            if r.random() < .25:
                parts.pop(r.randrange(n - 1))
            out.append(case(plain(f, tiles=b"".join(parts)), f, False, cap=HUGE))
            # much data
            size = r.choice([65520, 65536, 70000])
            out.append(case(plain(f, tiles=tilepart(0, 0, 2, b"", bytes(size)) + tilepart(0, 1, 2, b"", b"\xff\x90" * r.choice([1, 9]))), f, False, cap=HUGE))
    return out
