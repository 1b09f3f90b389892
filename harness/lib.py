"""Machinery shared by the checks: scratch folders, workers, TLC, evidence."""
import atexit
import json
import os
import random
import re
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("JREPO", "/repo")
PY = "/opt/venv/bin/python"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
MTIME = 1000000000
MTIME_TEXT = "2001-09-09T01:46:40"

_scratch = []


def scratch(prefix="jv"):
    base = os.environ.get("TMPDIR", "/tmp")
    d = tempfile.mkdtemp(prefix=prefix, dir=base)
    _scratch.append(d)
    return d


def _cleanup():
    for d in _scratch:
        shutil.rmtree(d, ignore_errors=True)


atexit.register(_cleanup)


def enc(s):
    return "".join(c if " " <= c <= "}" else "~%d;" % ord(c) for c in s)


def child_env(**kw):
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/nonexistent", "LANG": "C.UTF-8",
         "LC_ALL": "C.UTF-8", "TZ": "UTC", "PYTHONDONTWRITEBYTECODE": "1",
         "PYTHONPYCACHEPREFIX": "/nonexistent/pycache", "PYTHONPATH": REPO, "JREPO": REPO}
    e.update(kw)
    return e


class Worker:
    """One process running the code under test."""

    def __init__(self, where, n):
        self.dir = os.path.join(where, "w%d" % n)
        os.makedirs(self.dir, exist_ok=True)
        self.p = None

    def start(self):
        self.p = subprocess.Popen([PY, os.path.join(HERE, "worker.py")], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  cwd=self.dir, env=child_env(), start_new_session=True)

    def stop(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)       # with the runs it has started
            except OSError:
                pass
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None

    def ask(self, req, timeout):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write((json.dumps(req) + "\n").encode())
            self.p.stdin.flush()
        except OSError:
            self.stop()
            return {"died": True}
        buf = b""
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while not buf.endswith(b"\n"):
            left = end - time.time()
            if left <= 0 or not select.select([fd], [], [], left)[0]:
                self.stop()
                return {"hang": timeout}
            got = os.read(fd, 1 << 20)
            if not got:
                self.stop()
                return {"died": True}
            buf += got
        return json.loads(buf)


FILENAME = "case.jp2"
HANGS = 3


def observe(cases, where, timeout=20, nworkers=8, cap=4000):
    """Adds the answer of the code under test to each case {bytes, o}."""
    todo = list(range(len(cases)))
    todo.reverse()
    lock = threading.Lock()
    hung = []

    def run(n):
        w = Worker(where, n)
        path = os.path.join(w.dir, FILENAME)
        while True:
            with lock:
                if not todo:
                    break
                k = todo.pop()
            c = cases[k]
            if len(hung) >= HANGS:
                # enough of them: the rest would take for ever
                c["path"], c["res"] = path, {"skipped": True}
                continue
            req = {"op": "file", "path": path, "hex": c["bytes"].hex(), "utime": MTIME, "o": c["o"],
                   "cap": c.get("cap", cap)}
            c["path"] = path
            c["res"] = w.ask(req, timeout)
            if "hang" in c["res"]:
                # once more with plenty of time, so that a loaded machine is no finding
                c["res"] = w.ask(req, 4 * timeout)
                if "hang" in c["res"]:
                    hung.append(k)
        w.stop()

    ts = [threading.Thread(target=run, args=(i,)) for i in range(min(nworkers, max(1, len(cases) // 20)))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return cases


class MachineryError(Exception):
    pass


def tlc(module, cfg, env, workers=2, heap="3g", timeout=800, extra=()):
    """Runs TLC; returns its output. Raises MachineryError if TLC itself fails."""
    meta = scratch("tlcmeta")
    cmd = ["java", "-Xss96m", "-Xmx" + heap, "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1",
           "-Djava.io.tmpdir=" + meta,
           "-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg, *extra, module]
    e = dict(os.environ)
    e.update(env)
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout)
    out = p.stdout.decode("utf-8", "replace")
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, out


def stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def write(fam, length, broken, stride, seed, thin=1, workers=4, timeout=800):
    """Files written by JWriter: [{bytes, fmt, legal, broken, fam}], and the number of states"""
    rc, out = tlc("JWriter.tla", "JWriter.cfg",
                  {"JFAM": fam, "JLEN": str(length), "JBROKEN": str(broken), "JSTRIDE": str(stride),
                   "JSEED": str(seed), "JTHIN": str(thin)}, workers=workers, timeout=timeout)
    if rc != 0:
        raise MachineryError("JWriter failed: " + out[-2000:])
    res = []
    for line in out.splitlines():
        if line.startswith('"GEN|'):
            f = line.strip().strip('"').split("|")
            res.append({"fam": f[1], "fmt": f[2], "legal": f[3], "broken": int(f[4]), "bytes": bytes.fromhex(f[5])})
    res.sort(key=lambda c: (c["fmt"], c["bytes"]))
    return res, stats(out)[1]


def judge(cases, where, jvms=4, workers=2, module="JTrace.tla", cfg="JTrace.cfg", timeout=800, single=False):
    """Compares recorded analyses with the specification (JTrace).

    Returns (diffs: id -> [(path, expected, observed)], verdicts: id -> text, states, distinct)"""
    recs = []
    for c in cases:
        if "obs" not in c.get("res", {}):
            continue
        o = {k: c["o"][k] for k in ("fmt", "verbose", "pm", "nullxml")}
        o["mix"] = c["o"].get("mix", 0)
        recs.append((len(c["bytes"]), {
            "id": c["id"], "o": o, "legal": c.get("legal", ""), "bytes": list(c["bytes"]),
            "meta": {"name": enc(os.path.basename(c["path"])), "path": enc(c["path"]), "given": enc(c["path"]),
                     "size": str(len(c["bytes"])), "mtime": MTIME_TEXT},
            "obs": c["res"]["obs"]}))
    if not recs:
        return {}, {}, 0, 0
    jvms = max(1, min(jvms, (len(recs) + 39) // 40))
    recs.sort(key=lambda r: -r[0])
    chunks = [[r for _, r in recs[k::jvms]] for k in range(jvms)]
    outs = [None] * jvms

    def run(k):
        f = os.path.join(where, "trace%d.json" % k)
        with open(f, "w") as h:
            json.dump(chunks[k], h)
        try:
            outs[k] = tlc(module, cfg, {"JTRACE": f}, workers=workers, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            outs[k] = (-1, "timeout " + str(ex.output or b"")[-2000:])
        os.unlink(f)

    ts = [threading.Thread(target=run, args=(k,)) for k in range(jvms)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    diffs, verdicts, gen, dist = {}, {}, 0, 0
    failed = []
    for k, (rc, out) in enumerate(outs):
        a, b = stats(out)
        gen += a
        dist += b
        for line in out.splitlines():
            if line.startswith('"REJECT|'):
                f = line.strip().strip('"').split("|", 4)
                diffs.setdefault(int(f[1]), []).append((f[2], f[3], f[4]))
            elif line.startswith('"JUDGED|'):
                f = line.strip().strip('"').split("|")
                verdicts[int(f[1])] = f[3]
            elif line.startswith('"THEOREM|'):
                raise MachineryError("specification: legality and verdict differ for case " + line)
        missing = [r["id"] for r in chunks[k] if r["id"] not in verdicts]
        if rc != 0 or missing:
            failed.append((rc, missing, out))
    unjudged(failed, diffs, single, lambda i: judge([c for c in cases if c["id"] == i], where, 1, workers, module, cfg, timeout, True)[0])
    return diffs, verdicts, gen, dist


def unjudged(failed, diffs, single, again):
    """TLC did not get through. What it found until then counts; otherwise the culprit is looked for: an
    observation that cannot even be compared (never one that the specified behaviour produces)"""
    if not failed:
        return
    rc, missing, out = failed[0]
    if single:
        if rc > 0 and "OutOfMemory" not in out and "StackOverflow" not in out and "Error:" in out and missing:
            diffs.setdefault(missing[0], []).append(("", "an observation of the specified form", "one that cannot be compared"))
            return
    elif diffs:
        return
    elif all(r > 0 for r, _, _ in failed):
        for _, missing, _ in failed:
            for i in missing[:8]:
                diffs.update(again(i))
                if diffs:
                    return
    keep = os.path.join(os.environ.get("TMPDIR", "/tmp"), "tlc_failure.txt")
    with open(keep, "w") as h:
        h.write(out)
    raise MachineryError("TLC failed (rc %s), %d cases not judged, e.g. %s; output in %s" % (rc, len(missing), missing[:5], keep))
