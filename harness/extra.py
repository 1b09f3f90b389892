"""Parts of checks that are not analyses of single files: runs of the tool and sessions with the library."""
import os
import threading

import check
import families
import gen
import lib
import runs
import scen


# ---------------------------------------------------------------- runs of the command line tool
def generated_trees(run, thin, full):
    """Trees and arguments from JTreeGen"""
    rc, out = lib.tlc("JTreeGen.tla", "JTreeGen.cfg", {"JTHIN": str(thin), "JSEED": str(run.seed), "JFULL": str(int(full))}, workers=8)
    if rc != 0:
        raise lib.MachineryError("JTreeGen failed: " + out[-2000:])
    run.states += lib.stats(out)[1]
    res = []
    r = run.rng("trees")
    for line in sorted(x for x in out.splitlines() if x.startswith('"GEN|')):
        f = line.strip().strip('"').split("|")
        nodes = []
        for x in f[3:]:
            if x:
                path, kind = x.rsplit(":", 1)
                p = [c.encode() for c in path.split("/")]
                nodes.append(runs.node(p, "dangling" if kind == "odd" else kind, b"" if kind != "file" else r.choice(scen.SMALL)))
        arg = tuple(c.encode() for c in f[2].split("/"))
        res.append(runs.scenario(nodes, [(r.random() < .5, arg)], runs.flags(recurse=f[1] == "TRUE", pretty=False), style=r.randrange(8)))
    return res


def discovery(run):
    s = generated_trees(run, run.scale(60, 6), run.thorough)
    runs.check(run, s, label="generated trees")
    runs.check(run, scen.discovery(run.rng("discovery"), run.scale(500, 6000)), label="random trees")


def batch(run):
    runs.check(run, scen.batch(run.rng("batch"), run.scale(500, 4000)), label="batches")
    runs.check(run, scen.many(run.rng("many"), run.scale(3, 12)), label="many files")


def warned(run):
    runs.check(run, scen.warned(run.rng("warned"), run.scale(250, 2500)), domain="warning|run/output", label="warnings")


def output(run):
    runs.check(run, scen.output(run.rng("output"), run.scale(800, 6000)), label="output")


def strange(run):
    runs.check(run, scen.strange(run.rng("strange"), run.scale(1000, 8000)), label="strange files")


# ---------------------------------------------------------------- sessions
OPTIONS = [gen.opts(*a) for a in (("jp2", True, True, False, 0), ("jp2", False, True, False, 0), ("jp2", True, False, False, 0),
                                  ("jp2", True, True, True, 0), ("jp2", True, False, False, 1), ("jp2", False, False, False, 2),
                                  ("jph", True, True, False, 0), ("jph", False, False, True, 2), ("j2c", True, True, False, 0),
                                  ("j2c", False, False, False, 1), ("jhc", True, True, False, 0), ("jhc", False, True, True, 0),
                                  ("jp2", False, False, False, 0), ("j2c", False, False, False, 0), ("jph", False, False, False, 0),
                                  ("jp2", True, False, True, 2), ("jph", True, True, False, 1), ("jp2", True, True, False, 0))]
STYLES = [""] * 12 + ["plain", "format", "format", "named", "named", "relative"]


def sessions(run):
    n, depth = run.scale(400, 2500), run.scale(12, 16)
    rc, out = lib.tlc("JSession.tla", "JSession.cfg", {"JDEPTH": str(depth)}, workers=1,
                      extra=("-simulate", "num=%d" % n, "-depth", str(depth + 2), "-seed", str(run.seed)))
    if rc != 0:
        raise lib.MachineryError("JSession failed: " + out[-2000:])
    r = run.rng("sessions")
    p = scen.pool(r, 60)
    where = os.path.join(run.where, "sessions")
    os.mkdir(where)
    todo = []
    for k, line in enumerate(sorted(x for x in out.splitlines() if x.startswith('"GEN|'))):
        steps = [(f[0], int(f[1]), int(f[2])) for f in (x.split(",") for x in line.strip().strip('"').split("|")[1:])]
        blobs = [r.choice(p[r.choice(["jp2", "jp2", "jp2", "jph", "j2c", "jhc"])]) for _ in range(8)]
        for _ in range(2):              # of the same size
            i, j = r.sample(range(8), 2)
            if blobs[i]:
                at = r.randrange(len(blobs[i]))
                blobs[j] = blobs[i][:at] + bytes([blobs[i][at] ^ 1 << r.randrange(8)]) + blobs[i][at + 1:]
        blobs[r.randrange(8)] = b""
        todo.append({"k": k, "steps": steps, "blobs": blobs, "dir": os.path.join(where, "q%d" % k)})
    lock, queue, hung = threading.Lock(), list(todo), []

    def work(m):
        w = lib.Worker(where, m)
        while True:
            with lock:
                if not queue:
                    break
                t = queue.pop()
            if len(hung) >= lib.HANGS:
                t["res"] = {"skipped": True}
                continue
            os.mkdir(t["dir"])
            path = {q: os.path.join(t["dir"], "f%d.jp2" % q) for q in (1, 2, 3)}
            req = []
            for op, a, b in t["steps"]:
                if op == "put":
                    req.append({"put": path[a], "hex": t["blobs"][b - 1].hex(), "utime": lib.MTIME, "anew": b % 3 == 0})
                elif op == "gone":
                    req.append({"gone": path[a]})
                elif op == "one":
                    req.append({"one": path[a], "o": OPTIONS[b - 1], "style": STYLES[b - 1]})
                elif op == "both":
                    req.append({"both": [path[a // 10], path[a % 10]], "o": [OPTIONS[b - 1], OPTIONS[b % 12]]})
                elif op == "spoil":
                    req.append({"spoil": 1})
                else:
                    req.append({"many": [path[a], path[b]]})
            t["res"] = w.ask({"op": "session", "steps": req, "dir": t["dir"]}, 120)
            if "hang" in t["res"]:
                hung.append(t["k"])
        w.stop()

    ts = [threading.Thread(target=work, args=(m,)) for m in range(8)]
    for x in ts:
        x.start()
    for x in ts:
        x.join()
    cases, scens = [], []
    for t in todo:
        hist = {"kind": "session", "steps": t["steps"], "blobs": [b.hex() for b in t["blobs"]], "options": OPTIONS}
        if "skipped" in t["res"]:
            continue
        if not t["res"].get("steps"):
            run.violation("session ended early: " + str({k: v for k, v in t["res"].items() if k in ("hang", "died", "code")}), hist)
            continue
        disk = {1: 0, 2: 0, 3: 0}
        for j, ((op, a, b), res) in enumerate(zip(t["steps"], t["res"]["steps"])):
            if res.get("left"):
                run.violation("session, step %d: something changed or left behind" % j, {**hist, "step": j})
            if op in ("put", "gone"):
                disk[a] = b
            elif op in ("one", "both"):
                both = [(a // 10, b - 1), (a % 10, b % 12)] if op == "both" else [(a, b - 1)]
                for (q, o), x in zip(both, res["pair"] if op == "both" else [res]):
                    cases.append({"id": len(cases), "bytes": t["blobs"][disk[q] - 1], "o": OPTIONS[o], "res": x, "hist": hist, "step": j,
                                  "path": os.path.join(t["dir"], "f%d.jp2" % q), "family": "session", "domain": ""})
                    if x.get("kept") is False:
                        run.violation("session, step %d: the result changed afterwards" % j, {**hist, "step": j})
            elif op == "many":
                s = runs.scenario([runs.node((b"f%d.jp2" % q,), data=t["blobs"][disk[q] - 1]) for q in (1, 2, 3) if disk[q]],
                                  [(True, (b"f%d.jp2" % a,)), (True, (b"f%d.jp2" % b,))])
                s.update(base=t["dir"], res=res, touched=[], hist=hist, step=j, opts=[])
                scens.append(s)
    diffs, verdicts, g, d = lib.judge([c for c in cases if "obs" in c["res"]], run.where)
    run.states, run.transitions, run.traces = run.states + d, run.transitions + g, run.traces + len(verdicts)
    for c in cases:
        bad = check.trouble(c)
        ds = diffs.get(c["id"], [])
        if bad or ds:
            what = bad or "%s: specified %s, observed %s" % ds[0]
            run.violation("session, step %d: %s" % (c["step"], what), {**c["hist"], "step": c["step"], "differences": [list(x) for x in ds]})
    diffs, g, d, reports = runs.judge(scens, where, runs.version())
    run.states, run.transitions = run.states + d, run.transitions + g
    run.traces += len(scens)
    for k, ds in diffs.items():
        s = scens[k]
        run.violation("session, step %d (batch): %s: specified %s, observed %s" % ((s["step"],) + ds[0]),
                      {**s["hist"], "step": s["step"], "differences": [list(x) for x in ds]})
    run.counts["sessions"] += len(todo)
    run.counts["sessions: single analyses"] += len(cases)
    run.counts["sessions: batches"] += len(scens)
    for t in r.sample(todo, 2):
        run.sample({"kind": "session", "steps": t["steps"]})


# ---------------------------------------------------------------- large and deep inputs
def large():
    from codec import SIG, box, ihdr, seg, tilepart, u8, u16, u32, u64
    S, code = families.plain, families.plain_code
    h = box("ihdr", ihdr(16, 16, 1, 7)) + box("colr", b"\1\0\0" + u32(16))
    files = {
        "boxes": S() + box("free", b"") * 20000, "header-boxes": S(subs=h + box("colr", b"\1\0\0" + u32(16)) * 8000),
        "comments": S(main=seg(0x64, u16(1) + b"x") * 10000), "unknown-segments": S(main=seg(0x30, b"") * 20000),
        "tile-parts": S(tiles=b"".join(tilepart(0, k % 255, 0, b"") for k in range(8000))),
        "tiles": S(w=64, h=64, xt=1, yt=1, tiles=b"".join(tilepart(k, 0, 1, b"") for k in range(4096))),
        "plt": S(hdr=seg(0x58, b"\0" + b"\1" * 60000)), "plt-long": S(hdr=seg(0x58, b"\0" + b"\x81" * 60000)),
        "plm": S(main=seg(0x57, b"\0" + b"\1\1" * 30000)), "xml": S(pre=box("xml ", b"<a>" + b"<b/>" * 50000 + b"</a>")),
        "xml-text": S(pre=box("xml ", b"<a>" + b"x" * 2000000 + b"</a>")), "junk": bytes(range(256)) * 4000, "zeros": bytes(1000000),
        "ff": b"\xff" * 1000000, "components": S("j2c", comps=[(7, 1, 1)] * 16384), "codestreams": S(post=box("jp2c", code()) * 1000),
        "64-bit-lengths": S() + (u32(1) + b"free" + u64(16)) * 20000,
        "uuids": S(pre=box("uinf", box("ulst", u16(65535) + bytes(65535 * 16)) + box("url ", b"\0\0\0\0a\0"))),
        "palette": S(subs=h + box("pclr", u16(1024) + u8(255) + b"\7" * 255 + bytes(1024 * 255)) + box("cmap", b"\0\0\1\0")),
        "brands": SIG + box("ftyp", b"jp2 " + u32(0) + b"jp2 " * 50000), "deep-boxes": S(pre=nested(100)),
        "deep-xml-200": S(pre=box("xml ", b"<a>" * 200 + b"</a>" * 200))}
    return files


def nested(n):
    from codec import box
    b = b""
    for _ in range(n):
        b = box("uinf", b)
    return b


def completion(run):
    """Many more inputs that are not judged"""
    cases = check.collect(run, check.PROPERTIES[run.pid], "observed")
    for c in cases:
        c["cap"] = 10
    lib.observe(cases, run.where)
    for c in cases:
        bad = check.trouble(c)
        if bad:
            run.violation("%s: %s" % (c["family"], bad), check.replay_of(c, [("!", "report of a completed analysis", bad)]))


def totality(run):
    """Inputs that are too large to be judged: the analysis completes, and its verdict agrees with its own tests"""
    from codec import box
    cases = []
    for name, b in large().items():
        for fmt in ("jp2", "j2c"):
            k = b.find(b"\xff\x4f")
            cases.append({"bytes": b if fmt == "jp2" or k < 0 else b[k:], "o": gen.opts(fmt), "cap": 10, "family": "large " + name})
    lib.observe(cases, run.where, timeout=60)
    for c in cases:
        bad = check.trouble(c)
        if bad:
            run.violation("%s (%s): %s" % (c["family"], c["o"]["fmt"], bad), {"kind": "large", "family": c["family"], "options": c["o"]})
    run.counts["large"] += len(cases)
    # known findings: very deep nesting
    known = check.known()
    deep = {"deep-superbox-700": families.plain(pre=nested(700)), "deep-xml-1200": families.plain(pre=box("xml ", b"<a>" * 1200 + b"</a>" * 1200))}
    for name, b in deep.items():
        s = runs.scenario([runs.node((b"deep.jp2",), data=b), runs.node((b"other.jp2",), data=b"")], [(False, (b"deep.jp2",)), (False, (b"other.jp2",))])
        where = os.path.join(run.where, name)
        os.mkdir(where)
        runs.execute([s], where)
        import base64
        doc = runs.read_output(base64.b64decode(s["res"].get("out", "")))
        ok = doc["doc"] == "xml" and len(doc["kids"]) == 3 and s["res"].get("code") == 0 \
            and all(x[1] == "True" for k in doc["kids"][1:] for y in k[2] if y[0] == "statusInfo" for x in y[2] if x[0] == "success")
        if not ok:
            if (run.pid, name) in known:
                run.findings.append("%s: %s" % (name, known[(run.pid, name)]))
            else:
                run.violation("%s: no report of a completed analysis" % name, {"kind": "run", "scenario": runs.describe(s)})


# ---------------------------------------------------------------- the schema
def documents(run):
    import schema
    cases = check.collect(run, check.PROPERTIES[run.pid], "observed")
    lib.observe(cases, run.where)
    for c in cases:
        bad = check.trouble(c)
        if bad:
            run.violation("%s: %s" % (c["family"], bad), check.replay_of(c, [("!", "report of a completed analysis", bad)]))
    schema.check(run, cases)
