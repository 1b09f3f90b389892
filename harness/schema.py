"""The published schema as data for JSchema, and documents judged against it."""
import base64
import json
import os
import re
import subprocess
import threading
from xml.etree import ElementTree as E

import gen
import lib
import runs
import scen

XS = "{http://www.w3.org/2001/XMLSchema}"


class Reader:
    """Reads the part of XML Schema that can describe such a document; anything else is an error"""

    def __init__(self, path):
        self.root = E.parse(path).getroot()
        self.types = {t.get("name"): t for t in self.root if t.tag in (XS + "complexType", XS + "simpleType")}
        self.decl = {}
        for e in self.root:
            if e.tag == XS + "element":
                self.element(e)
            elif e.tag not in (XS + "complexType", XS + "simpleType", XS + "annotation"):
                raise lib.MachineryError("schema: " + e.tag)

    def fail(self, e):
        raise lib.MachineryError("schema: cannot read %s %s" % (e.tag, e.attrib))

    def local(self, name):
        return name.split(":")[-1]

    def kids(self, e):
        return [k for k in e if isinstance(k.tag, str) and k.tag != XS + "annotation"]

    def element(self, e):
        name = e.get("name")
        ks = self.kids(e)
        if e.get("type"):
            t = self.named(e.get("type"))
        elif len(ks) == 1:
            t = self.type(ks[0])
        else:
            self.fail(e)
        if self.decl.setdefault(name, t) != t:
            raise lib.MachineryError("schema: two declarations of " + name)

    def named(self, q):
        n = self.local(q)
        if n in self.types and not q.startswith("xs:"):
            return self.type(self.types[n])
        return ["text", {"int": "integer", "long": "integer"}.get(n, n), [], []]

    def type(self, t):
        ks = self.kids(t)
        if t.tag == XS + "simpleType":
            if len(ks) != 1 or ks[0].tag != XS + "restriction":
                self.fail(t)
            base = self.named(ks[0].get("base"))
            for k in self.kids(ks[0]):
                if k.tag != XS + "enumeration":
                    self.fail(k)
            return ["text", base[1], [k.get("value") for k in self.kids(ks[0])], []]
        if t.tag != XS + "complexType" or t.get("mixed") == "true":
            self.fail(t)
        if ks and ks[0].tag in (XS + "complexContent", XS + "simpleContent"):
            x = self.kids(ks[0])[0]
            if x.tag != XS + "extension":
                self.fail(x)
            base = self.named(x.get("base"))
            parts, atts = self.content(self.kids(x))
            if base[0] == "text":
                return base[:3] + [base[3] + atts]
            return ["elements", ["seq", 1, 1, [base[1]] + parts], base[2] + atts]
        parts, atts = self.content(ks)
        return ["elements", ["seq", 1, 1, parts], atts]

    def content(self, ks):
        parts, atts = [], []
        for k in ks:
            if k.tag == XS + "attribute":
                t = self.named(k.get("type", "xs:string"))
                atts.append([k.get("name"), t[2], k.get("use") == "required"])
            else:
                parts.append(self.particle(k))
        return parts, atts

    def particle(self, e):
        lo = int(e.get("minOccurs", "1"))
        hi = e.get("maxOccurs", "1")
        hi = -1 if hi == "unbounded" else int(hi)
        if hi == 0:
            return ["seq", 0, 0, []]
        if e.tag == XS + "element":
            if e.get("ref") is None:
                self.element(e)
            return ["one", lo, hi, self.local(e.get("ref") or e.get("name"))]
        if e.tag == XS + "any":
            return ["any", lo, hi, "skip" if e.get("processContents") == "skip" else "lax"]
        if e.tag in (XS + "sequence", XS + "choice"):
            return ["seq" if e.tag == XS + "sequence" else "choice", lo, hi, [self.particle(k) for k in self.kids(e)]]
        self.fail(e)


def read(path):
    return Reader(path).decl


def judge(docs, decl, where, jvms=4, workers=2, single=False):
    """docs: (id, tree) pairs; id -> differences, states generated and found"""
    jvms = max(1, min(jvms, (len(docs) + 39) // 40))
    outs = [None] * jvms

    def run(j):
        f = os.path.join(where, "docs%d.json" % j)
        with open(f, "w") as h:
            json.dump({"schema": decl, "docs": [{"id": k, "tree": t} for k, t in docs[j::jvms]]}, h)
        try:
            outs[j] = lib.tlc("JSchema.tla", "JSchema.cfg", {"JTRACE": f}, workers=workers)
        except subprocess.TimeoutExpired:
            outs[j] = (-1, "timeout")
        os.unlink(f)

    ts = [threading.Thread(target=run, args=(j,)) for j in range(jvms)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    diffs, seen, g, d, failed = {}, set(), 0, 0, []
    for j, (rc, out) in enumerate(outs):
        a, b = lib.stats(out)
        g, d = g + a, d + b
        for line in out.splitlines():
            f = line.strip().strip('"').split("|", 4)
            if f[0] == "REJECT":
                diffs.setdefault(int(f[1]), []).append((f[2], f[3], f[4]))
            elif f[0] == "JUDGED":
                seen.add(int(f[1]))
        missing = [k for k, _ in docs[j::jvms] if k not in seen]
        if rc != 0 or missing:
            failed.append((rc, missing, out))
    lib.unjudged(failed, diffs, single, lambda i: judge([x for x in docs if x[0] == i], decl, where, 1, workers, True)[0])
    return diffs, g, d


def published(run):
    """The schema that a document of the tool names, among those in the repository"""
    s = runs.scenario([runs.node((b"a.jp2",), data=b"x")], [(False, (b"a.jp2",))])
    where = os.path.join(run.where, "first")
    os.mkdir(where)
    runs.execute([s], where)
    root, ns = runs.read_document(base64.b64decode(s["res"]["out"]))
    pairs = root[3].get("{%s}schemaLocation" % runs.XSI, "").split()
    for uri, loc in zip(pairs[::2], pairs[1::2]):
        path = os.path.join(lib.REPO, "xsd", os.path.basename(loc))
        if uri == runs.NS and os.path.exists(path):
            return path
    run.violation("the document names no schema of the repository: " + " ".join(pairs),
                  {"kind": "run", "scenario": runs.describe(s), "stdout": base64.b64decode(s["res"]["out"]).decode("utf-8", "replace")})
    return None


def check(run, cases):
    """cases: observed analyses of single files; runs of the tool are added"""
    path = published(run)
    if path is None:
        return
    decl = read(path)
    docs = [(c["id"], c["res"]["obs"]) for c in cases if "obs" in c["res"]]
    diffs, g, d = judge(docs, decl, run.where)
    run.states, run.transitions, run.traces = run.states + d, run.transitions + g, run.traces + len(docs)
    for c in cases:
        if c["id"] in diffs:
            ds = diffs[c["id"]]
            run.violation("%s: %s: %s" % (c["family"], ds[0][0], ds[0][2]),
                          {"kind": "file", "family": c["family"], "options": c["o"], "hex": c["bytes"].hex(), "differences": [list(x) for x in ds]})
    r = run.rng("documents")
    scens = scen.output(r, run.scale(96, 800)) + scen.batch(r, run.scale(60, 500)) + scen.strange(r, run.scale(40, 300))
    # (command lines that ask for something else than work are P25's concern)
    scens = [s for s in scens if s.get("opts") is None]
    where = os.path.join(run.where, "documents")
    os.mkdir(where)
    os.chmod(run.where, 0o755)
    os.chmod(where, 0o755)
    runs.execute(scens, where)
    docs, odd = [], 0
    for k, s in enumerate(scens):
        if "skipped" in s["res"]:
            continue
        out = base64.b64decode(s["res"].get("out", ""))
        if not out or len(out) > 400000:
            continue
        try:
            docs.append((k, runs.plain(runs.read_document(out)[0])))
        except runs.Ill as ex:
            run.violation("document is not well-formed: %s" % ex, {"kind": "run", "scenario": runs.describe(s), "stdout": out.decode("utf-8", "replace")[:20000]})
    diffs, g, d = judge(docs, decl, where)
    run.states, run.transitions, run.traces = run.states + d, run.transitions + g, run.traces + len(docs)
    run.counts["documents"] += len(docs)
    for k, ds in diffs.items():
        run.violation("document: %s: %s" % (ds[0][0], ds[0][2]),
                      {"kind": "run", "scenario": runs.describe(scens[k]), "differences": [list(x) for x in ds]})
    for s in r.sample(scens, 2):
        run.sample({"kind": "document", **runs.describe(s)})
