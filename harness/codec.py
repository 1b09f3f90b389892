"""Encoders for boxes and marker segments (input construction only, no oracle)."""
import struct


def u8(v):
    return struct.pack(">B", v & 255)


def u16(v):
    return struct.pack(">H", v & 0xffff)


def u32(v):
    return struct.pack(">I", v & 0xffffffff)


def u64(v):
    return struct.pack(">Q", v & 0xffffffffffffffff)


def box(t, c, how="32", length=None):
    """how: 32, 64, 0 (to the end of the file)"""
    if isinstance(t, str):
        t = t.encode("latin-1")
    if how == "32":
        return u32(len(c) + 8 if length is None else length) + t + c
    if how == "64":
        return u32(1) + t + u64(len(c) + 16 if length is None else length) + c
    return u32(0) + t + c


def seg(code, payload, length=None):
    return b"\xff" + u8(code) + u16(len(payload) + 2 if length is None else length) + payload


SIG = box("jP  ", b"\r\n\x87\n")
XMP = bytes.fromhex("be7acfcb97a942e89c71999491e3afac")


def ftyp(brand=b"jp2 ", minv=0, cl=None):
    return box("ftyp", brand + u32(minv) + b"".join([brand] if cl is None else cl))


def ihdr(h, w, nc, bpc, c=7, unk=0, ipr=0):
    return u32(h) + u32(w) + u16(nc) + u8(bpc) + u8(c) + u8(unk) + u8(ipr)


def siz(xsiz, ysiz, comps, rsiz=0, xo=0, yo=0, xt=None, yt=None, xto=0, yto=0, lsiz=None, csiz=None):
    """comps: list of (ssiz, xr, yr)"""
    p = u16(rsiz) + u32(xsiz) + u32(ysiz) + u32(xo) + u32(yo) \
        + u32(xsiz if xt is None else xt) + u32(ysiz if yt is None else yt) + u32(xto) + u32(yto) \
        + u16(len(comps) if csiz is None else csiz) \
        + b"".join(u8(a) + u8(b) + u8(c) for a, b, c in comps)
    return seg(0x51, p, lsiz)


def spcod(levels, w=4, h=4, style=0, tr=1, prec=b""):
    return u8(levels) + u8(w) + u8(h) + u8(style) + u8(tr) + prec


def cod(scod=0, order=0, layers=1, mct=0, sp=None, length=None):
    return seg(0x52, u8(scod) + u8(order) + u16(layers) + u8(mct) + (spcod(2) if sp is None else sp), length)


def cix(i, wide):
    return u16(i) if wide else u8(i)


def coc(i, scoc=0, sp=None, wide=False, length=None):
    return seg(0x53, cix(i, wide) + u8(scoc) + (spcod(2) if sp is None else sp), length)


def qcd(style=0, guard=2, vals=b"\x40" * 7, length=None):
    return seg(0x5c, u8((guard << 5) | style) + vals, length)


def qcc(i, style=0, guard=2, vals=b"\x40" * 7, wide=False, length=None):
    return seg(0x5d, cix(i, wide) + u8((guard << 5) | style) + vals, length)


def rgn(i, style=0, shift=7, wide=False, length=None):
    return seg(0x5e, cix(i, wide) + u8(style) + u8(shift), length)


def poc(entries, wide=False, length=None):
    """entries: (rs, cs, lye, re, ce, order)"""
    return seg(0x5f, b"".join(u8(a) + cix(b, wide) + u16(c) + u8(d) + cix(e, wide) + u8(f)
                              for a, b, c, d, e, f in entries), length)


def com(text, r=1, length=None):
    return seg(0x64, u16(r) + text, length)


def sot(isot, psot, tpsot=0, tnsot=1, lsot=10):
    return seg(0x90, u16(isot) + u32(psot) + u8(tpsot) + u8(tnsot), lsot)


SOC = b"\xff\x4f"
SOD = b"\xff\x93"
EOC = b"\xff\xd9"


def tilepart(isot, tpsot=0, tnsot=1, hdr=b"", data=b"\x00" * 4, psot=None, sod=SOD):
    body = hdr + sod + data
    return sot(isot, 12 + len(body) if psot is None else psot, tpsot, tnsot) + body
