"""Runs of the command line tool over trees of files: set up, recorded, judged by JRun."""
import base64
import hashlib
import json
import os
import random
import re
import shutil
import stat
import subprocess
import threading
from xml.parsers import expat

import lib

NOBODY = 65534
NS = "http://openpreservation.org/ns/jpylyzer/v2/"
XSI = "http://www.w3.org/2001/XMLSchema-instance"
FIXED = 1000000000 * 10**9          # time of last modification, in ns


def b64(b):
    return base64.b64encode(b).decode()


def cps(b):
    return [ord(c) for c in os.fsdecode(b)]


def node(path, kind="file", data=b"", mt=FIXED, ok="yes", size=None, link=None):
    """path: names (bytes) below the root of the tree"""
    return {"path": tuple(path), "kind": kind, "data": data, "mt": mt, "ok": ok, "size": size, "link": link}


def flags(fmt="jp2", verbose=False, pm=False, nullxml=False, mix=0, recurse=False, pretty=True):
    return {"fmt": fmt, "verbose": verbose, "pm": pm, "nullxml": nullxml, "mix": mix, "recurse": recurse, "pretty": pretty}


def scenario(nodes, args, fl=None, cwd=(), tz=0, style=0):
    """args: (absolute?, names) pairs; missing parent directories are added"""
    nodes = list(nodes)
    have = {n["path"] for n in nodes}
    for n in list(nodes):
        for k in range(1, len(n["path"])):
            if n["path"][:k] not in have:
                have.add(n["path"][:k])
                nodes.append(node(n["path"][:k], "dir"))
    for k in range(1, len(cwd) + 1):
        if tuple(cwd[:k]) not in have:
            have.add(tuple(cwd[:k]))
            nodes.append(node(cwd[:k], "dir"))
    return {"nodes": nodes, "args": [(a, tuple(p)) for a, p in args], "fl": fl or flags(), "cwd": tuple(cwd), "tz": tz,
            "style": style}


def build(s, base):
    os.mkdir(base)
    os.chmod(base, 0o755)
    b = os.fsencode(base)
    for n in sorted(s["nodes"], key=lambda n: len(n["path"])):
        p = os.path.join(b, *n["path"])
        if n["kind"] == "dir":
            os.mkdir(p)
            os.chmod(p, 0o755)
        elif n["kind"] == "file":
            if n["link"] is not None:
                target = os.path.join(b, *n["link"])
                os.symlink(target, p)
                continue
            with open(p, "wb") as f:
                f.write(n["data"])
                if n["size"] is not None:
                    f.truncate(n["size"])
            os.chmod(p, 0o000 if n["ok"] == "denied" else 0o644)
            os.utime(p, ns=(FIXED, n["mt"]))
            n["mt"] = os.stat(p).st_mtime_ns        # as far as the file system can hold it
        elif n["kind"] == "pipe":
            os.mkfifo(p)
        else:
            os.symlink(b"nowhere/at/all", p)


def snapshot(base):
    res = {}
    for d, ds, fs in os.walk(os.fsencode(base)):
        for x in ds + fs:
            p = os.path.join(d, x)
            st = os.lstat(p)
            h = ""
            if stat.S_ISREG(st.st_mode) and st.st_size < 1 << 20:
                with open(p, "rb") as f:
                    h = hashlib.md5(f.read()).hexdigest()
            res[os.path.relpath(p, os.fsencode(base))] = (st.st_mode, st.st_size, 0 if stat.S_ISDIR(st.st_mode) else st.st_mtime_ns,
                                                          st.st_uid, h)
    return res


def argument(base, a):
    absolute, p = a
    return os.path.join(os.fsencode(base), *p) if absolute else b"/".join(p)


def words(s):
    """The option words, in one of many ways"""
    if s.get("opts") is not None:
        return s["opts"]
    f, r = s["fl"], random.Random(s["style"])
    groups, shorts = [], []
    fmt = f["fmt"]
    tame = fmt.isalnum()
    if fmt != "jp2" or r.random() < .5:
        groups.append(r.choice([["-f", fmt], ["--format", fmt], ["--format=" + fmt]] + ([["-f" + fmt]] if tame else [])))
        if r.random() < .1:
            groups.append(["--format", fmt])
    if f["mix"]:
        groups.append(r.choice([["--mix", str(f["mix"])], ["--mix=%d" % f["mix"]]]))
    if not f["pretty"]:
        groups.append(["--nopretty"])
    if f["nullxml"]:
        groups.append(["--nullxml"])
    if f["recurse"]:
        shorts.append("r")
    if f["pm"]:
        shorts.append("p")
    if f["verbose"]:
        groups.append(["--verbose"])
    if r.random() < .5:
        r.shuffle(shorts)
        if shorts:
            groups.append(["-" + "".join(shorts)])
    else:
        groups += [["-" + x] if r.random() < .5 else [{"r": "--recurse", "p": "--packetmarkers"}[x]] for x in shorts]
    r.shuffle(groups)
    return [w for g in groups for w in g]


def argv(s, base):
    opts = [w.encode() for w in words(s)]
    args = [argument(base, a) for a in s["args"]]
    how = s["style"] % 8
    if how >= 4:
        return args + opts
    return opts + ([b"--"] if how == 3 and args else []) + args


# ---------------------------------------------------------------- reading the output
class Ill(Exception):
    pass


def read_document(data):
    """(name of the root, children); names are 'x' in the tool's own name space (and without one), {uri}x otherwise.

    Elements of the MIX extension keep their prefixed form and all their attributes."""
    p = expat.ParserCreate("UTF-8")
    p.buffer_text = True
    scopes = [{"xml": "http://www.w3.org/XML/1998/namespace"}]
    stack = []
    top = []

    def name(raw, sc, attr=False):
        pre, _, local = raw.rpartition(":")
        if pre and pre not in sc:
            raise Ill("prefix " + pre)
        uri = sc.get(pre, "") if (pre or not attr) else ""
        return local if uri in ("", NS) and not (attr and uri) else "{%s}%s" % (uri, local)

    def start(raw, attrs):
        sc = dict(scopes[-1])
        for k, v in attrs.items():
            if k == "xmlns":
                sc[""] = v
            elif k.startswith("xmlns:"):
                sc[k[6:]] = v
        scopes.append(sc)
        if raw.startswith("mix:") and "/mix/" in sc.get("mix", ""):
            e = [raw, "", [], {k: v for k, v in attrs.items()}, ""]
        else:
            e = [name(raw, sc), "", [], {name(k, sc, True): v for k, v in attrs.items()
                                         if k != "xmlns" and not k.startswith("xmlns:")}, ""]
        if stack:
            stack[-1][2].append(e)
        else:
            top.append((e, dict(scopes[-1])))
        stack.append(e)

    def end(raw):
        scopes.pop()
        stack.pop()

    def chars(t):
        e = stack[-1]
        if e[2]:
            e[2][-1][4] += t
        else:
            e[1] += t

    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, chars
    try:
        p.Parse(data, True)
    except expat.ExpatError as ex:
        raise Ill(str(ex))
    root, sc = top[0]
    return root, sc.get("")


def plain(e):
    kids = [plain(k) for k in e[2]]
    if e[3] or e[4]:
        return [lib.enc(e[0]), lib.enc(e[1]), kids, [[lib.enc(k), lib.enc(v)] for k, v in sorted(e[3].items())], lib.enc(e[4])]
    return [lib.enc(e[0]), lib.enc(e[1]), kids]


def read_output(out):
    if not out:
        return {"doc": "none", "root": "", "kids": [], "text": ""}
    try:
        root, ns = read_document(out)
        if ns != NS or root[1].strip() or any(k[4].strip() for k in root[2]):
            raise Ill("frame")
        if "{%s}schemaLocation" % XSI not in root[3]:
            raise Ill("schema location")
    except Ill as ex:
        return {"doc": "ill", "root": "", "kids": [], "text": lib.enc(out.decode("utf-8", "replace").strip()[:6000]), "why": str(ex)}
    for k in root[2]:
        k[4] = ""
    return {"doc": "xml", "root": root[0], "kids": [plain(k) for k in root[2]], "text": ""}


# ---------------------------------------------------------------- running

def execute(scens, where, timeout=60, nworkers=8):
    todo = list(range(len(scens)))
    todo.reverse()
    lock = threading.Lock()
    hung = []

    def run(n):
        w = lib.Worker(where, n)
        while True:
            with lock:
                if not todo:
                    break
                k = todo.pop()
            s = scens[k]
            if len(hung) >= lib.HANGS:
                s.update(base="", res={"skipped": True}, touched=[])
                continue
            base = os.path.join(where, "s%d" % k)
            s["base"] = base
            build(s, base)
            before = snapshot(base)
            av = argv(s, base)
            cwd = os.path.join(os.fsencode(base), *s["cwd"])
            tz = "UTC0" if not s["tz"] else "XXX%s%d:%02d" % ("-" if s["tz"] > 0 else "+", abs(s["tz"]) // 3600,
                                                              abs(s["tz"]) // 60 % 60)
            if s.get("entry"):
                r = real(s["entry"], av, cwd, tz, timeout, s.get("env", {}))
            else:
                req = {"op": "cli", "argv": [b64(a) for a in av], "cwd": b64(cwd), "tz": tz}
                if any(x["ok"] == "denied" for x in s["nodes"]):
                    req["uid"] = NOBODY
                if s.get("nofile"):
                    req["nofile"] = s["nofile"]
                if any(x["ok"] == "huge" for x in s["nodes"]):
                    req["data"] = 96 << 20
                r = w.ask(req, timeout)
                if "hang" in r:
                    r = w.ask(req, 4 * timeout)
            if "hang" in r:
                hung.append(k)
            s["res"] = r
            after = snapshot(base)
            s["touched"] = sorted(lib.enc(os.fsdecode(p)) for p in set(before) | set(after) if before.get(p) != after.get(p))
            shutil.rmtree(base, ignore_errors=True)
        w.stop()

    ts = [threading.Thread(target=run, args=(i,)) for i in range(min(nworkers, max(1, len(scens) // 4)))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


ENTRIES = {"module": ["-m", "jpylyzer"], "script": [os.path.join(lib.REPO, "cli.py")]}


def real(entry, av, cwd, tz, timeout, more=(), seed="random"):
    env = lib.child_env(TZ=tz, PYTHONHASHSEED=seed)
    env.update(more)
    try:
        p = subprocess.run([lib.PY.encode()] + [x.encode() for x in ENTRIES[entry]] + av, cwd=cwd, env=env,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=4 * timeout)
    except subprocess.TimeoutExpired:
        return {"hang": timeout}
    return {"code": p.returncode, "out": b64(p.stdout), "err": b64(p.stderr)}


def version():
    """The version the tool states about itself"""
    p = subprocess.run([lib.PY, "-m", "jpylyzer", "--version"], env=lib.child_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, cwd="/")
    return lib.enc(p.stdout.decode("utf-8", "replace").strip())


def record(k, s, blobs):
    tree = []
    for n in s["nodes"]:
        target = n
        if n["link"] is not None:
            target = [x for x in s["nodes"] if x["path"] == tuple(n["link"])][0]
        data = target["data"]
        mt = target["mt"] // 1000
        days, rest = divmod(mt, 86400 * 10**6)
        kind = {"file": "file", "dir": "dir"}.get(n["kind"], "odd")
        tree.append({"p": [cps(x) for x in n["path"]], "k": kind,
                     "blob": blobs.setdefault(data, len(blobs) + 1) if kind == "file" and target["ok"] == "yes" else 0,
                     "size": str(len(data) if target["size"] is None else target["size"]),
                     "mt": [days, rest // 10**6, rest % 10**6], "ok": {"shut": "denied"}.get(target["ok"], target["ok"])})
    base = s["base"]
    r = s["res"]
    out, err = base64.b64decode(r["out"]), base64.b64decode(r["err"])
    obs = read_output(out)
    s["output"], s["errors"] = out, err
    obs.pop("why", None)
    # (a note that the contents of intellectual property boxes are not looked at is no warning)
    told = re.sub(r"(?m)^User warning: ignoring 'intellectualPropertyBox' .*\n", "", err.decode("utf-8", "replace"))
    obs.update(code=r["code"], err=lib.enc(told) if not s.get("env") else "?", touched=s["touched"])
    return {"id": k, "tree": tree, "cwd": [cps(x) for x in s["cwd"]], "root": lib.enc(base),
            "args": [{"abs": a, "p": [cps(x) for x in p], "raw": cps(argument(base, (a, p)))} for a, p in s["args"]],
            "opts": [lib.enc(w) for w in words(s)], "tz": s["tz"], "obs": obs}


def judge(scens, where, ver, jvms=4, workers=2, timeout=800, single=False):
    """diffs: index -> [(path, expected, observed)]"""
    # (enormous reports, for thousands of components, take TLC too long; they are counted as runs but not judged)
    idx = [k for k, s in enumerate(scens) if "out" in s["res"] and len(s["res"]["out"]) < 400000]
    if not idx:
        return {}, 0, 0, 0
    jvms = max(1, min(jvms, (len(idx) + 19) // 20))
    outs = [None] * jvms
    parts = [idx[j::jvms] for j in range(jvms)]

    def run(j):
        blobs = {}
        recs = [record(k, scens[k], blobs) for k in parts[j]]
        f = os.path.join(where, "runs%d.json" % j)
        with open(f, "w") as h:
            json.dump({"version": ver, "runs": recs, "blobs": [list(b) for b in blobs] or [[0]]}, h)
        try:
            outs[j] = lib.tlc("JRun.tla", "JRun.cfg", {"JTRACE": f}, workers=workers, timeout=timeout)
        except subprocess.TimeoutExpired:
            outs[j] = (-1, "timeout")
        if not os.environ.get("JKEEP"):
            os.unlink(f)

    ts = [threading.Thread(target=run, args=(j,)) for j in range(jvms)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    diffs, seen, gen, dist, reports, failed = {}, set(), 0, 0, 0, []
    for j, (rc, out) in enumerate(outs):
        a, b = lib.stats(out)
        gen, dist = gen + a, dist + b
        for line in out.splitlines():
            if line.startswith('"REJECT|'):
                f = line.strip().strip('"').split("|", 4)
                diffs.setdefault(int(f[1]), []).append((f[2], f[3], f[4]))
            elif line.startswith('"JUDGED|'):
                f = line.strip().strip('"').split("|")
                seen.add(int(f[1]))
                reports += max(0, int(f[3]))
        missing = [k for k in parts[j] if k not in seen]
        if rc != 0 or missing:
            failed.append((rc, missing, out))

    def again(i):
        return {i: d for d in judge([scens[i]], where, ver, 1, workers, timeout, True)[0].values()}
    lib.unjudged(failed, diffs, single, again)
    return diffs, gen, dist, reports


def describe(s):
    return {"files": [["/".join(os.fsdecode(x).encode("utf-8", "backslashreplace").decode() for x in n["path"]), n["kind"], n["ok"],
                       len(n["data"])] for n in s["nodes"]],
            "args": [[a, os.fsdecode(b"/".join(p)).encode("utf-8", "backslashreplace").decode()] for a, p in s["args"]],
            "cwd": [os.fsdecode(x).encode("utf-8", "backslashreplace").decode() for x in s["cwd"]], "options": s["fl"], "tz": s["tz"],
            "entry": s.get("entry")}


def check(run, scens, domain="", label="run"):
    """Runs and judges scenarios for a check"""
    where = os.path.join(run.where, "runs-" + label)
    os.mkdir(where)
    os.chmod(run.where, 0o755)
    os.chmod(where, 0o755)
    execute(scens, where)
    diffs, gen, dist, reports = judge(scens, where, version())
    run.states += dist
    run.transitions += gen
    run.traces += sum(1 for s in scens if "output" in s)
    run.counts[label] += len(scens)
    run.counts[label + ": reports judged"] += reports
    for k, s in enumerate(scens):
        if "skipped" in s["res"]:
            continue
        if "out" not in s["res"]:
            run.violation("%s: %s" % (label, s["res"]), {"kind": "run", "scenario": describe(s)})
            continue
        if "output" not in s and s["res"]["code"] != 0:
            run.violation("%s: exit code %s" % (label, s["res"]["code"]), {"kind": "run", "scenario": describe(s)})
        ds = [d for d in diffs.get(k, []) if re.search(domain, d[0])]
        if ds:
            run.violation("%s: %s: specified %s, observed %s" % ((label,) + ds[0]),
                          {"kind": "run", "scenario": describe(s), "argv": [a.decode("utf-8", "backslashreplace") for a in argv(s, s["base"])],
                           "contents": {os.fsdecode(b"/".join(n["path"])).encode("utf-8", "backslashreplace").decode(): n["data"].hex()
                                        for n in s["nodes"] if n["kind"] == "file"},
                           "differences": [list(d) for d in ds], "stdout": s["output"].decode("utf-8", "replace")[:20000],
                           "stderr": s["errors"].decode("utf-8", "replace")[:4000]})
    for s in run.rng(label + "s").sample(scens, min(2, len(scens))):
        run.sample({"kind": label, **describe(s)})
    return diffs
