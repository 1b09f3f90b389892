"""Construction of inputs: random, boundary and damaged files (no oracle)."""
import random
from codec import *   # noqa: F401,F403

FORMATS = ("jp2", "jph", "j2c", "jhc")


def opts(fmt="jp2", verbose=True, pm=True, nullxml=False, mix=0):
    return {"fmt": fmt, "verbose": verbose, "pm": pm, "nullxml": nullxml, "mix": mix}


def ropts(r, fmt=None):
    return opts(fmt or r.choice(FORMATS), r.random() < .6, r.random() < .7, r.random() < .4)


# ---------------------------------------------------------------- values
def edge8(r):
    return r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 16, 31, 32, 33, 37, 38, 39, 63, 64, 127, 128,
                     129, 165, 191, 192, 254, 255, r.randrange(256)])


def edge16(r):
    return r.choice([0, 1, 2, 3, 4, 255, 256, 257, 1023, 1024, 1025, 16383, 16384, 16385, 32767, 32768,
                     65534, 65535, r.randrange(65536), r.randrange(300)])


def edge32(r):
    return r.choice([0, 1, 2, 15, 16, 17, 18, 19, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 2,
                     2**32 - 1, r.randrange(2**32), r.randrange(1000)])


# ---------------------------------------------------------------- codestreams
def rsiz_for(r, fmt):
    if fmt in ("jph", "jhc"):
        return 0x4000 | r.choice([0, 0, 1, 2])
    return r.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 0x0101, 0x0203, 0x0305, 0x0412, 0x0723, 0x0956])


def rsp(r, fmt, prec):
    levels = r.choice([0, 1, 2, 3, 5])
    w = r.randrange(0, 5)
    h = r.randrange(0, 5)
    style = r.choice([0, 1, 4, 8, 32, 63]) | (r.choice([64, 192, 0]) if fmt in ("jph", "jhc") else 0)
    p = bytes(([r.choice([0, 0x77])] if levels >= 0 else []) + [r.choice([0x88, 0x99, 0x11, 0xff])] * levels) if prec else b""
    return levels, spcod(levels, w, h, style, r.randrange(2), p)


def rcod(r, fmt):
    prec = r.random() < .4
    lv, sp = rsp(r, fmt, prec)
    return lv, cod((1 if prec else 0) | r.choice([0, 2, 4, 6]), r.randrange(5), r.choice([1, 2, 12, 65535]),
                   r.randrange(2), sp)


def rquant(r, lv, sty=None):
    style = r.randrange(3) if sty is None else sty
    if style == 0:
        return style, bytes(r.randrange(256) for _ in range(3 * lv + 1))
    if style == 1:
        return style, u16(r.randrange(65536))
    return style, b"".join(u16(r.randrange(65536)) for _ in range(3 * lv + 1))


def rtext(r):
    return r.choice([b"Kakadu-v7", b"Created by OpenJPEG version 2.3", b"a\tb\nc\r", b"caf\xe9 \xa4", b"x"])


def rcap(r, fmt):
    if fmt in ("jph", "jhc"):
        parts = sorted(set([15] + r.sample(range(1, 33), r.randrange(2))))
    else:
        parts = sorted(r.sample(range(1, 33), r.randrange(3)))
    p = 0
    for k in parts:
        p |= 1 << (32 - k)
    return seg(0x50, u32(p) + b"".join(u16(r.randrange(65536)) for _ in parts))


def rpl(r):
    s = b""
    for _ in range(r.randrange(1, 5)):
        k = r.randrange(1, 4)
        s += bytes([0x80 | r.randrange(128) for _ in range(k - 1)] + [r.randrange(128)])
    return s


def codestream(r, fmt="jp2", comps=None, size=None, tiles=None, rich=True):
    """A codestream without faults. Returns (bytes, info)"""
    n = comps or r.choice([1, 1, 3, 3, 4, 257 if r.random() < .1 else 2])
    wide = n >= 257
    depth = r.choice([7, 7, 7, 15, 0, 37, 0x87])
    cl = [(depth, r.choice([1, 1, 2]), r.choice([1, 1, 2])) for _ in range(n)]
    if rich and r.random() < .25:
        cl = [(r.choice([7, 11, 15, 0x87]), 1, 1) for _ in range(n)]
    w, h = size or (r.choice([16, 17, 100, 640]), r.choice([16, 33, 480]))
    xo, yo = (r.choice([0, 0, 3]), r.choice([0, 0, 5]))
    xsiz, ysiz = w + xo, h + yo
    nx, ny = tiles or r.choice([(1, 1), (1, 1), (2, 1), (2, 2), (3, 1)])
    xt, yt = -(-xsiz // nx), -(-ysiz // ny)
    nx, ny = -(-xsiz // xt), -(-ysiz // yt)
    nt = nx * ny
    rs = rsiz_for(r, fmt)
    out = SOC + siz(xsiz, ysiz, cl, rs, xo, yo, xt, yt)
    lv, c = rcod(r, fmt)
    st, v = rquant(r, lv)
    parts = [c, qcd(st, r.randrange(8), v)]
    if rs & 0x4000 or (rich and r.random() < .1):
        parts.append(rcap(r, fmt))
    if rich:
        for k in range(min(n, 3)):
            if r.random() < .3:
                p = r.random() < .5
                l2, sp = rsp(r, fmt, p)
                parts.append(coc(k, 1 if p else 0, sp, wide))
            if r.random() < .3:
                st, v = rquant(r, r.choice([0, 1, 2]))
                parts.append(qcc(k, st, r.randrange(8), v, wide))
        if r.random() < .2:
            parts.append(rgn(0, 0, r.choice([0, 7, 37]), wide))
        if r.random() < .2:
            parts.append(poc([(0, 0, 1, 1, 1, 0), (0, 0, 2, r.choice([3, 33]), r.choice([0, min(n, 255)]), 4)][:r.randrange(1, 3)], wide))
        if r.random() < .15:
            parts.append(seg(0x63, b"".join(u16(r.randrange(65536)) for _ in range(2 * n))))
        for _ in range(r.randrange(3)):
            parts.append(com(rtext(r), 1) if r.random() < .6 else com(bytes(r.randrange(256) for _ in range(4)), 0))
        if r.random() < .2:
            parts.append(seg(0x57, u8(0) + u8(3) + rpl(r)))
        if r.random() < .1:
            parts.append(seg(0x60, u8(0) + b"abc"))
        if r.random() < .2:
            parts.append(seg(0x55, u8(0) + u8(0x40) + b"\0\0\0\x10"))
        if r.random() < .1:
            parts.append(seg(0x56, u16(r.randrange(1, 65536))))
        if r.random() < .1:
            parts.append(seg(0x59, u16(r.randrange(1, 65536)) + (u16(3) if r.random() < .5 else b"")))
        if r.random() < .5:
            r.shuffle(parts)
    out += b"".join(parts)
    # tile-parts: every tile in 1..3 parts, in an order that keeps parts of a tile in sequence
    todo = []
    for t in range(nt):
        k = r.choice([1, 1, 1, 2, 3])
        decl = r.choice(["all", "all", "first", "last", "none"])
        todo.append([(t, i, k if decl == "all" or (decl == "first" and i == 0) or (decl == "last" and i == k - 1) else 0)
                     for i in range(k)])
    order = []
    while any(todo):
        q = r.choice([x for x in todo if x])
        order.append(q.pop(0))
    for j, (t, i, tn) in enumerate(order):
        hdr = b""
        if rich:
            if i == 0 and r.random() < .2:
                hdr += rcod(r, fmt)[1]
            if i == 0 and r.random() < .2:
                hdr += coc(r.randrange(min(n, 200)), 0, spcod(1), wide)
            if i == 0 and r.random() < .2:
                hdr += qcd(*(lambda s: (s[0], 1, s[1]))(rquant(r, 1)))
            if i == 0 and r.random() < .2:
                hdr += qcc(0, 1, 1, b"\x12\x34", wide)
            if i == 0 and r.random() < .1:
                hdr += rgn(0, 0, 3, wide)
            if r.random() < .1:
                hdr += poc([(0, 0, 1, 1, 1, 0)], wide)
            if r.random() < .3:
                hdr += seg(0x58, u8(0) + rpl(r))
            if r.random() < .1:
                hdr += seg(0x61, u8(0) + b"pp")
            if r.random() < .2:
                hdr += com(rtext(r))
        data = bytes(r.choice([0, 1, 0x7f, 0x80, 0xfe]) for _ in range(r.randrange(6)))
        last = j == len(order) - 1
        out += tilepart(t, i, tn, hdr, data, psot=0 if last and r.random() < .2 else None)
    out += EOC
    return out, {"n": n, "w": w, "h": h, "comps": [c[0] for c in cl], "wide": wide}


# ---------------------------------------------------------------- boxes
def icc(r, cls=b"scnr", size=None, tags=None, desc=b"sRGB profile"):
    tags = [b"desc", b"wtpt", b"rXYZ"] if tags is None else tags
    n = len(tags)
    off = 132 + 12 * n
    d = b"desc" + u32(0) + u32(len(desc) + 1) + desc + b"\0" * 80
    tt = u32(n)
    for t in tags:
        tt += t + u32(off if t == b"desc" else off + 20) + u32(len(d) if t == b"desc" else 20)
    hd = b"KCMS" + bytes([2, 0x10, 0, 0]) + cls + b"RGB " + b"XYZ " \
        + u16(r.choice([1998, 2020])) + u16(r.randrange(1, 13)) + u16(r.randrange(1, 29)) + u16(r.randrange(24)) \
        + u16(r.randrange(60)) + u16(r.randrange(60)) + b"acsp" + r.choice([b"APPL", b"MSFT", b"SGI ", b"SUNW", b"\0\0\0\0"]) \
        + bytes([r.randrange(256), 0, 0, 0]) + b"IEC " + b"sRGB" + bytes([r.randrange(256)] + [0] * 7) \
        + u32(r.randrange(5)) + u32(0xf6d6) + u32(0x10000) + u32(0xd32d) + b"HP  " \
        + bytes(r.randrange(256) for _ in range(16)) + b"\0" * 28
    body = hd + tt + d
    return u32(len(body) + 4 if size is None else size) + body


def colr(r, fmt="jp2", meth=None):
    m = meth or (r.choice([1, 1, 1, 2]) if fmt == "jp2" else r.choice([1, 2, 3, 5]))
    if m == 1:
        return u8(1) + u8(0) + u8(0) + u32(r.choice([16, 17, 18]))
    if m in (2, 3):
        return u8(m) + u8(0) + u8(0) + icc(r, r.choice([b"scnr", b"mntr"]))
    return u8(5) + u8(0) + u8(0) + u16(1) + u16(13) + u16(r.choice([0, 1])) + u8(r.choice([0, 128]))


def resbox(r, t):
    return box(t, u16(r.choice([1, 300, 65535])) + u16(r.choice([1, 254, 7])) + u16(r.choice([1, 72, 11811]))
               + u16(r.choice([1, 254, 3])) + u8(r.choice([0, 1, 2, 4, 255, 254])) + u8(r.choice([0, 1, 2, 3, 255])))


def palette(r, n=None, cols=None):
    n = n or r.choice([1, 2, 5])
    ds = [r.choice([7, 7, 15, 0, 8, 0x87, 37]) for _ in range(cols or r.choice([1, 3]))]
    body = b"".join(bytes(r.randrange(256) for _ in range(n * (((d & 127) + 8) // 8))) for d in ds)
    return box("pclr", u16(n) + u8(len(ds)) + bytes(ds) + body), len(ds)


XMLS = [b"<a/>", b"<?xml version='1.0'?><doc a='1' b=\"x&amp;y\">t<e>in</e>tail<f/></doc>",
        b"<r xmlns='urn:x'><p:q xmlns:p='urn:y' p:z='1'>v</p:q></r>",
        b"<x:xmpmeta xmlns:x='adobe:ns:meta/'><rdf:RDF xmlns:rdf='http://www.w3.org/1999/02/22-rdf-syntax-ns#'>"
        b"<rdf:Description rdf:about='' tiff:Make='Canon' xmlns:tiff='http://ns.adobe.com/tiff/1.0/'/></rdf:RDF></x:xmpmeta>",
        b"<a>caf\xc3\xa9 \xe2\x82\xac</a>", b"<a><!-- c --><b>&lt;&#65;</b></a>", b"<a><![CDATA[<x>]]></a>"]
BADXML = [b"", b"<a>", b"<a></b>", b"plain", b"<a/>\0", b"<a/>\0\0\0", b"\0", b"<a x=1/>", b"<a>&nope;</a>", b"<a/><b/>",
          b"<a>\xff</a>", b"<a>\0</a>", b" <?xml version='1.0'?><a/>"]


def metabox(r):
    k = r.randrange(7)
    if k == 0:
        return box("xml ", r.choice(XMLS))
    if k == 1:
        return box("uuid", XMP + r.choice(XMLS))
    if k == 2:
        return box("uuid", bytes(r.randrange(256) for _ in range(16)) + b"data")
    if k == 3:
        n = r.randrange(1, 4)
        return box("uinf", box("ulst", u16(n) + bytes(r.randrange(256) for _ in range(16 * n)))
                   + box("url ", b"\0\0\0\0" + r.choice([b"http://example.org/x", b"caf\xc3\xa9"]) + b"\0"))
    if k == 4:
        return box(r.choice(["abcd", "zz z", "jp2x", "\xe9abc"]), b"whatever")
    if k == 5:
        return box("jp2i", b"<ip/>")
    return b""


def header(r, fmt, info, ipr=0):
    n = info["n"]
    same = len(set(info["comps"])) == 1
    bpc = info["comps"][0] if same else 255
    unk = 0
    subs = [box("ihdr", ihdr(info["h"], info["w"], n, bpc, 7, unk, ipr))]
    rest = []
    if not same:
        rest.append(box("bpcc", bytes(info["comps"])))
    rest.append(b"".join(box("colr", colr(r, fmt)) for _ in range(r.choice([1, 1, 2]))))
    if r.random() < .2:
        p, k = palette(r)
        rest.append(p)
        rest.append(box("cmap", b"".join(u16(0) + u8(1) + u8(j) for j in range(k))))
    if r.random() < .3:
        ch = [(j, 0, j + 1) for j in range(min(n, 3))]
        if r.random() < .5:
            ch.append((len(ch), r.choice([1, 2]), 0))
        rest.append(box("cdef", u16(len(ch)) + b"".join(u16(a) + u16(b) + u16(c) for a, b, c in ch)))
    if r.random() < .3:
        rest.append(box("res ", b"".join(resbox(r, t) for t in r.choice([["resc"], ["resd"], ["resc", "resd"]]))))
    r.shuffle(rest)
    return box("jp2h", b"".join(subs + rest))


def valid(r, fmt="jp2", rich=True, tail=True, size=None, tiles=None, comps=None):
    """A file without faults in the given format."""
    cs, info = codestream(r, fmt, rich=rich, size=size, tiles=tiles, comps=comps)
    if fmt in ("j2c", "jhc"):
        return cs
    ipr = 1 if rich and r.random() < .15 else 0
    brand = b"jp2 " if fmt == "jp2" else b"jph "
    cl = [brand] if r.random() < .7 else [b"jpx ", brand, b"JP20"]
    out = SIG + ftyp(brand, 0, cl)
    if rich and r.random() < .2:
        out += metabox(r)
    out += header(r, fmt, info, ipr)
    if ipr:
        out += box("jp2i", b"x")
    if rich and r.random() < .3:
        out += metabox(r)
    how = r.choice(["32", "32", "64"]) if rich else "32"
    post = metabox(r) if rich and tail and r.random() < .4 else b""
    if not post and rich and r.random() < .2:
        how = "0"
    return out + box("jp2c", cs, how) + post


# ---------------------------------------------------------------- damage
def mutate(r, f):
    f = bytearray(f)
    for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
        if not f:
            break
        k = r.randrange(6)
        p = r.randrange(len(f))
        if k <= 1:
            f[p] = edge8(r)
        elif k == 2:
            f[p] ^= 1 << r.randrange(8)
        elif k == 3:
            del f[p:p + r.choice([1, 2, 4, 12])]
        elif k == 4:
            f[p:p] = bytes(edge8(r) for _ in range(r.choice([1, 2, 4])))
        else:
            q = r.randrange(len(f))
            ln = r.choice([2, 4, 12, 20])
            f[p:p + ln] = f[q:q + ln]
    return bytes(f)


def truncate(r, f):
    return f[:r.randrange(len(f) + 1)]


def too_big(f):
    """Inputs that only cost time: palettes and component lists of enormous size"""
    i = f.find(b"pclr")
    while i >= 0:
        ne = int.from_bytes(f[i + 4:i + 6], "big")
        npc = f[i + 6] if i + 6 < len(f) else 0
        if ne * npc > 3000:
            return True
        i = f.find(b"pclr", i + 1)
    return False


def soup(r):
    """Bytes without much structure, with fragments of it"""
    frag = [SIG, b"ftyp", b"jp2h", b"jp2c", b"ihdr", b"colr", SOC, SOD, EOC, b"\xff\x51", b"\xff\x52", b"\xff\x90",
            b"\xff\x58", b"\xff\x57", u32(0), u32(1), u32(8), u32(16), b"\xff", b"\0\0", b"xml ", b"uuid", b"res ", b"resc",
            b"uinf", b"ulst", b"url ", b"pclr", b"cmap", b"cdef", b"bpcc", bytes(r.randrange(256) for _ in range(5))]
    return b"".join(r.choice(frag) for _ in range(r.randrange(0, 25)))
