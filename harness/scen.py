"""Scenarios for runs of the command line tool (no oracle here)."""
import families
import gen
from runs import node, flags, scenario, FIXED

NAMES = [b"a.jp2", b"b.jp2", b"ab.jp2", b"a.jp2.bak", b"c.JP2", b".a.jp2", b"img", b"x.j2k", b"aa", b"a b.jp2", b"b.jp2x"]
DIRS = [b"d", b"e", b"dd", b".h", b"sub.jp2", b"a", b"[x]", b"d[1]", b"q?"]
PATTERNS = [b"*", b"*.jp2", b"a*", b"*a*", b"*.j*", b".*", b"*b.jp2", b"a*2", b"?.jp2*", b"**", b"*p*2", b"a.*", b"*.JP2"]
SMALL = [b"", b"\0", b"\xff\x4f", b"\0\0\0\x0cjP  \r\n\x87\n", b"junk junk junk", b"\0\0\0\x08free"]


def trees(r):
    """A random tree: directories up to depth 3, files, odd things"""
    dirs = [()]
    for _ in range(r.randrange(0, 6)):
        d = r.choice(dirs)
        if len(d) < 3:
            p = d + (r.choice(DIRS),)
            if p not in dirs:
                dirs.append(p)
    nodes = [node(d, "dir") for d in dirs if d]
    taken = set(dirs)
    for _ in range(r.randrange(1, 10)):
        p = r.choice(dirs) + (r.choice(NAMES),)
        if p in taken:
            continue
        taken.add(p)
        kind = r.random()
        files = [n["path"] for n in nodes if n["kind"] == "file" and n["link"] is None]
        if kind < .08:
            nodes.append(node(p, "dangling"))
        elif kind < .12:
            nodes.append(node(p, "pipe"))
        elif kind < .2 and files:
            nodes.append(node(p, "file", link=r.choice(files)))
        else:
            nodes.append(node(p, data=r.choice(SMALL)))
    return nodes, dirs


def rarg(r, nodes, dirs, cwd, recurse):
    """A random argument: existing thing, pattern, or nothing"""
    x = r.random()
    d = r.choice(dirs)
    if x < .25:
        p = r.choice(nodes)["path"] if nodes else (b"nothing",)
    elif x < .35:
        p = d + (r.choice(NAMES + [b"absent.jp2", b"q?.jp2", b"none"]),)
    elif x < .45:
        p = d
    elif x < .8:
        p = d + (r.choice(PATTERNS),)
    else:
        # wildcards on the way
        p = tuple(r.choice(PATTERNS) if r.random() < .6 else c for c in d) + (r.choice(PATTERNS + NAMES),)
    if any(b"[" in c or b"?" in c for c in p) and any(b"*" in c for c in p):
        p = tuple(b"d" if b"[" in c or b"?" in c else c for c in p)
    if r.random() < .4:
        return True, p
    if p[:len(cwd)] == cwd and r.random() < .7:
        rel = p[len(cwd):]
    else:
        rel = (b"..",) * len(cwd) + p
    if r.random() < .2:
        rel = (b".",) + rel
    if not rel:
        rel = (b".",)
    return False, rel


def discovery(r, n):
    res = []
    for k in range(n):
        nodes, dirs = trees(r)
        recurse = r.random() < .6
        cwd = r.choice([d for d in dirs if not any(b"[" in c or b"?" in c for c in d)])
        args = [rarg(r, nodes, dirs, cwd, recurse) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        if not recurse and r.random() < .1:
            # a name that looks like a pattern
            nodes.append(node((b"s*r.jp2",), data=b"x"))
            nodes.append(node((b"sr.jp2",), data=b"y"))
            args.append((True, (b"s*r.jp2",)))
        res.append(scenario(nodes, args, flags(recurse=recurse, pretty=False), cwd, style=r.randrange(1 << 20)))
    return res


def modest(b):
    """No thousands of components or identifiers announced (each has its elements in the report)"""
    for mark, at in ((b"\xff\x51", 38), (b"ulst", 4), (b"pclr", 4)):
        k = b.find(mark)
        while k >= 0:
            if int.from_bytes(b[k + at:k + at + 2], "big") > 400:
                return False
            k = b.find(mark, k + 1)
    return True


def contents(r, fmt, n):
    """Bytes of n files of all sorts"""
    fams = ["f_valid", "f_damaged", "f_soup", "f_junk", "f_framing", "f_xml", "f_uuid", "f_comcrg", "f_unknown", "f_icc"]
    res = []
    while len(res) < n:
        cs = [c for c in getattr(families, r.choice(fams))(r, 1) if len(c["bytes"]) < 1500 and modest(c["bytes"])]
        same = [c for c in cs if c["o"]["fmt"] == fmt] or cs
        res += [c["bytes"] for c in r.sample(same, min(len(same), 4))]
    r.shuffle(res)
    return res[:n]


def pool(r, per=60):
    return {f: contents(r, f, per) for f in gen.FORMATS}


BIG = 1 << 30


def many(r, n):
    """More files in one run than can be open at a time"""
    res = []
    for k in range(n):
        fmt = r.choice(gen.FORMATS)
        cs = contents(r, fmt, 6)
        nodes = [node((b"d%d" % (j % 3), b"f%03d.jp2" % j), data=cs[j % 6]) for j in range(100)]
        res.append(scenario(nodes, [(False, (b".",))], flags(fmt, False, recurse=True, pretty=False), style=r.randrange(1 << 20)))
        res[-1]["nofile"] = 40
    return res


def warned(r, n):
    """Runs that have much to warn about"""
    cs = [c["bytes"] for f in ("f_unknown", "f_framing", "f_framing_systematic", "f_soup") for c in getattr(families, f)(r, 1)
          if len(c["bytes"]) < 1500 and modest(c["bytes"]) and c["o"]["fmt"] in families.BOXED]
    return batch(r, n, p={f: cs for f in gen.FORMATS})


def batch(r, n, trouble=True, p=None):
    """Several files in one run, some of which cannot be analysed"""
    res = []
    p = p or pool(r)
    for k in range(n):
        fmt = r.choice(gen.FORMATS)
        m = r.choice([1, 2, 3, 4, 6])
        nodes = []
        for j in range(m):
            x = r.random()
            path = (b"f%02d.jp2" % j,) if r.random() < .7 else (b"d%d" % r.randrange(2), b"g%02d.jp2" % j)
            if trouble and x < .1:
                nodes.append(node(path, data=b"secret", ok="denied"))
            elif trouble and x < .15 and fmt in families.BOXED:
                # one box that fills the file
                nodes.append(node(path, data=b"\0\0\0\x0cjP  \r\n\x87\n" + (BIG - 12).to_bytes(4, "big") + b"xml ", size=BIG, ok="huge"))
            elif x < .25:
                nodes.append(node(path))
            else:
                nodes.append(node(path, data=r.choice(p[fmt] if r.random() < .8 else p["jp2"])))
        args = [(r.random() < .5, n["path"]) for n in nodes]
        r.shuffle(args)
        if r.random() < .3:
            args.append(r.choice(args))         # the same file twice
        if r.random() < .2:
            args.insert(r.randrange(len(args) + 1), (False, (b"missing.jp2",)))
        x = r.random()
        if x < .15:
            args = [(False, (b"*",))]
        recurse = r.random() < .2
        if recurse and x > .5:
            args = [(False, (b".",))]
        if any(nd["ok"] == "denied" for nd in nodes) and any(nd["ok"] == "huge" for nd in nodes):
            for nd in nodes:
                if nd["ok"] == "huge":
                    nd.update(ok="yes", data=b"", size=None)
        res.append(scenario(nodes, args, flags(fmt, r.random() < .5, r.random() < .5, r.random() < .3, r.choice([0, 0, 0, 1, 2]),
                                               recurse, r.random() < .6), style=r.randrange(1 << 20)))
    return res


TEXTS = [b"plain", b"a\rb\r\nc", b"t\tt", b"<&>\"'", b"]]>", b"\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80", b" lead and trail ", b"\n\n", b"&amp;"]
DOCS = [b"<a/>", b"<a> <b/> </a>", b"<a>x<b>y</b>z</a>", b"<a  k='v &#10; w' l='&lt;&quot;'>&#13;t&#10;</a>",
        b"<p:a xmlns:p='urn:p' p:k='1' xml:lang='en'><p:b/><c xmlns='urn:c'/></p:a>", b"<a xmlns='http://openpreservation.org/ns/jpylyzer/v2/'><b/></a>",
        b"<a><![CDATA[<x>]]&gt;&]]></a>", b"<a>\n   <b>  t  </b>\n</a>", b"<a><!-- c --><?p i?><b/>x</a>",
        "<a>\u00e9\u20ac\U0001f600<b>\u2028</b></a>".encode(), b"<a><b/>tail<b/>  </a>", b"<a>  </a>",
        b"<a xmlns:q='urn:q'><q:b q:x='1' x='2'/></a>", b"<a>\t<b>\r\n</b></a>"]


def rich(r, fmt):
    """A file whose report has texts that need care when written"""
    com = b"".join(families.seg(0x64, families.u16(1) + t) for t in r.sample(TEXTS, 2))
    cs = families.plain_code(fmt, main=com)
    if fmt in families.RAW:
        return cs
    doc = r.choice(DOCS)
    pre = families.box("xml ", doc)
    x = r.random()
    if x < .3:
        pre += families.box("uuid", families.XMP + r.choice(DOCS))
    elif x < .5:
        pre += families.box("xml ", doc + b"\0")
    elif x < .7:
        u = families.box("ulst", families.u16(1) + bytes(range(16))) + families.box("url ", b"\0\0\0\0" + r.choice(TEXTS) + b"\0")
        pre += families.box("uinf", u)
    elif x < .8:
        pre += families.box(r.choice([b"ab<c", b"\xff\xfe\xfd\xfc", b"a&b\n", b"\0\0\0\0", b"r\rst"]), b"data")
    return families.plain(fmt, cs=cs, pre=pre)


def strange_words(r, fmt):
    """Option words that ask for something else than work, or make no sense, or more than is needed"""
    fine = [["--verbose"], ["-r"], ["-pr"], ["--format", fmt], ["-f", fmt], ["--mix", "1"], ["--nullxml"], ["--nopretty"], ["--mix=2"], ["-rf" + fmt], ["-prf", fmt]]
    ws = [w for g in r.sample(fine, r.randrange(4)) for w in g]
    x = r.random()
    if x < .15:
        return ws + r.choice([["--version"], ["-v"], ["-rv"], ["--help"], ["-h"], ["-ph"]])
    if x < .6:
        bad = r.choice([["--mix", "3"], ["--mix", "0"], ["--mix=one"], ["--mix="], ["--foo"], ["-x"], ["--verbose=1"], ["-z", "-r"], ["--recurse=yes"],
                        ["--nullxmls"], ["-px"], ["--mix=12"], ["--mix", "2.0"], ["--mix", "--verbose"], ["--format", "--verbose"], ["-f", "-r"]])
        return bad + ws if r.random() < .5 else ws + bad
    return ws + [w for g in r.sample(fine, 2) for w in g]


def output(r, n):
    """One or two files with all combinations of options"""
    res = []
    p = pool(r, 40)
    for k in range(n):
        fmt = gen.FORMATS[k % 4]
        fl = flags(fmt, k & 4 > 0, k & 8 > 0, k & 16 > 0, k // 32 % 3 if r.random() < .8 else 0, False, k & 64 == 0)
        fl["pretty"] = (k // 4 + k // 64) % 2 == 0
        if r.random() < .3:
            fl["fmt"] = r.choice([fmt.upper(), fmt.capitalize(), fmt[0] + fmt[1:].upper()])
        if r.random() < .03:
            fl["fmt"] = r.choice(["jpx", "jp2 ", "", "j2k", "jpeg", "JP"])
        nodes = [node((b"a.jp2",), data=rich(r, fmt) if r.random() < .6 else r.choice(p[fmt]))]
        if r.random() < .3:
            nodes.append(node((b"b.jp2",), data=r.choice(p[fmt])))
        s = scenario(nodes, [(False, n["path"]) for n in nodes], fl, style=r.randrange(1 << 20))
        if k % 6 == 1:
            s["opts"] = strange_words(r, fmt)
            if r.random() < .2:
                s["args"] = []
        if k % 12 == 0:
            s["entry"] = r.choice(["module", "script"])
            s["env"] = r.choice([{}, {}, {"PYTHONIOENCODING": "ascii"}, {"LC_ALL": "C"}, {"PYTHONIOENCODING": "latin-1"}, {"PYTHONOPTIMIZE": "1"}])
        res.append(s)
    return res


ODD = [b"sp ace.jp2", b"tab\t.jp2", b"nl\n.jp2", b"cr\r.jp2", b"bell\x07.jp2", b"esc\x1b[0m.jp2", b"del\x7f.jp2", b"quote\"'.jp2",
       b"<tag>&amp;.jp2", b"bad\xff\xfe.jp2", "\u00e9\u4e2d\U0001f600.jp2".encode(), "zw\u200b.jp2".encode(), "nel\u0085.jp2".encode(),
       "bom\ufeff.jp2".encode(), "non\uffff\ufffe.jp2".encode(), "priv\ue000.jp2".encode(), b"half\xed\xa0\x80.jp2", b"~.jp2", b"%41.jp2", b"a;b|c.jp2",
       b"x" * 200 + b".jp2", b"trunc\xc3", b"-dash.jp2", b"\\back.jp2", b"#.jp2", b"=.jp2", b"tail ", b"..jp2", b"...", b"$HOME.jp2"]
ZONES = [0, 0, 3600, 19800, -12600, 50400, -43200, 86340, 60]


def instants(r):
    day = 86400
    sec = r.choice([0, -1, 1, 951782400, 951868799, 1e9, 2**31 - 1, 2**31, -2**31, 4102444800, 68169600 - 1, r.randrange(-2**31, 2**33),
                    r.randrange(0, 2**31), r.randrange(0, 20000) * day, r.randrange(0, 20000) * day - 1, 253402300799 - day])
    # (larger times do not have that many decimals as floating point numbers)
    us = r.choice([0, 0, 1, 500000, 999999, 10, 100000, r.randrange(10**6)]) if abs(sec) < 2**31 - 1 else 0
    return (int(sec) * 10**6 + us) * 1000


def strange(r, n):
    """Odd names, sizes and times; files that cannot be opened"""
    res = []
    for k in range(n):
        names = r.sample(ODD, 3)
        fmt = r.choice(gen.FORMATS)
        nodes = []
        for nm in names:
            d = (r.choice([b"o\xffdd", b"d\x01", "\u00fc".encode(), b"[d]"]),) if r.random() < .3 else ()
            x = r.random()
            nd = node(d + (nm,), data=r.choice(SMALL + [bytes(r.randrange(0, 60))]), mt=instants(r))
            if x < .2:
                nd.update(ok="denied")
            elif x < .25 and fmt in families.BOXED:
                nd.update(ok="huge", size=BIG, data=b"\0\0\0\x0cjP  \r\n\x87\n" + (BIG - 12).to_bytes(4, "big") + b"xml ")
            nodes.append(nd)
        # other ways to the same files
        for j in range(r.choice([0, 1, 2])):
            nodes.append(node((b"l%d.jp2" % j,), link=r.choice(nodes[:3])["path"]))
        if len({nd["ok"] for nd in nodes} & {"denied", "huge"}) == 2:
            for nd in nodes:
                if nd["ok"] == "huge":
                    nd.update(ok="yes", size=None, data=b"")
        args = [(nd["path"][0][:1] == b"-" or r.random() < .5, nd["path"]) for nd in nodes]
        recurse = False
        none = r.random() < .1
        if none:            # no file can be opened at all
            for nd in nodes:
                nd.update(ok="shut", size=None)
        elif r.random() < .2:
            args, recurse = [(False, (b".",))], True
        res.append(scenario(nodes, args, flags(fmt, r.random() < .5, mix=r.choice([0, 0, 1]), recurse=recurse,
                                               pretty=r.random() < .5), tz=r.choice(ZONES), style=r.randrange(1 << 18) * 8 + r.randrange(4)))
        if none:
            res[-1]["nofile"] = 3
    return res
