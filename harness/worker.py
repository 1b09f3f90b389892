"""Runs the code under test on request; one JSON request per line on stdin.

Started with the interpreter of /repo's environment.  Only public entry
points are used.  Requests:
  {"op": "file", "path", "o"}          report of checkOneFile as a tree
  {"op": "cli", "argv", "cwd", ..}     a run of main() in a child process
  {"op": "session", "steps": [..]}     several calls in one fresh child process
The answer is one JSON line.
"""
import base64
import gc
import json
import os
import resource
import sys
import tempfile
import threading

sys.setrecursionlimit(1000)
resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
out = os.fdopen(os.dup(1), "w", encoding="ascii")
os.dup2(2, 1)                         # nothing else may write to the answer pipe
sys.path.insert(0, os.environ.get("JREPO", "/repo"))

from jpylyzer import jpylyzer as J    # noqa: E402

sys.stderr = open(os.devnull, "w")


def enc(s):
    """Text as in JBase: printable ASCII except ~, the rest as ~<code point>;"""
    if s is None:
        return ""
    if not isinstance(s, str):
        return "~!" + type(s).__name__ + ";" + enc(repr(s))
    if s.isascii() and s.isprintable() and "~" not in s:
        return s
    return "".join(c if " " <= c <= "}" else "~%d;" % ord(c) for c in s)


def tree(e, budget):
    budget[0] -= 1
    if budget[0] < 0:
        raise OverflowError
    kids = [tree(k, budget) for k in e]
    if e.attrib or e.tail:
        return [enc(e.tag), enc(e.text), kids,
                [[enc(k), enc(v)] for k, v in sorted(e.attrib.items())], enc(e.tail)]
    return [enc(e.tag), enc(e.text), kids]


def call(path, o, style=""):
    if style == "plain":              # as in the documentation
        return J.checkOneFile(path)
    if style == "format":
        return J.checkOneFile(path, o["fmt"])
    if style == "named":
        return J.checkOneFile(mixFlag=o.get("mix", 0), nullxmlFlag=o["nullxml"], packetmarkersFlag=o["pm"], verboseFlag=o["verbose"],
                              validationFormat=o["fmt"], path=path)
    # (an empty file is warned about by the path that was given, which is not recorded)
    if style == "relative" and os.path.getsize(path):
        os.chdir(os.path.dirname(path))
        path = os.path.join(".", os.path.basename(path))
    return J.checkOneFile(path, o["fmt"], o["verbose"], o["pm"], o["nullxml"], o.get("mix", 0))


def recorded(e, cap=4000):
    ok = e.find("statusInfo/success")
    res = {"success": ok.text if ok is not None else None}
    sys.setrecursionlimit(20000)
    try:
        res["obs"] = tree(e, [cap])
    except OverflowError:
        res["big"] = sum(1 for _ in e.iter())
        v = e.find("isValid")
        res["valid"] = None if v is None else v.text
        t = e.find("tests")
        res["fails"] = t is not None and any(x.text == "False" for x in t.iter())
    finally:
        sys.setrecursionlimit(1000)
    return res


def do_file(req, given=None):
    try:
        e = call(req["path"], req["o"], req.get("style", ""))
    except BaseException as ex:       # noqa: B902
        return {"exc": type(ex).__name__ + ": " + str(ex)[:200]}
    res = recorded(e, req.get("cap", 4000))
    if given is not None:
        given.append([e, dict(res), res])
    return res


def in_child(work, stdin_null=True):
    """work() in a forked process with files for stdout and stderr: (status, stdout, stderr)"""
    fo, fe = tempfile.TemporaryFile(), tempfile.TemporaryFile()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            out.close()
            os.dup2(fo.fileno(), 1)
            os.dup2(fe.fileno(), 2)
            sys.stdout = os.fdopen(1, "w", encoding="utf-8", closefd=False)
            sys.stderr = os.fdopen(2, "w", encoding="utf-8", errors="backslashreplace", closefd=False)
            try:
                work()
                code = 0
            except SystemExit as ex:
                code = ex.code if isinstance(ex.code, int) else 0 if ex.code is None else 1
                code &= 255
            except BaseException:     # noqa: B902
                import traceback
                traceback.print_exc()
                code = 1
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(st)
    res = []
    for f in (fo, fe):
        f.seek(0)
        res.append(base64.b64encode(f.read()).decode())
        f.close()
    return {"code": code, "out": res[0], "err": res[1]}


def do_cli(req):
    def work():
        os.chdir(os.fsencode(base64.b64decode(req["cwd"])))
        if "tz" in req:
            import time
            os.environ["TZ"] = req["tz"]
            time.tzset()
        if "data" in req:
            resource.setrlimit(resource.RLIMIT_DATA, (req["data"], req["data"]))
        if "nofile" in req:
            if req["nofile"] < 10:
                # (whatever is loaded on first use is loaded before no file can be opened any more)
                def first():
                    sys.argv = ["jpylyzer"] + [os.fsdecode(base64.b64decode(a)) for a in req["argv"]]
                    apart(J.main)
                    print("\n".join(sys.modules))
                loaded = base64.b64decode(in_child(first)["out"])
                for m in loaded.decode().split():
                    try:
                        __import__(m)
                    except ImportError:
                        pass
            resource.setrlimit(resource.RLIMIT_NOFILE, (req["nofile"], req["nofile"]))
        if "uid" in req:
            os.setgroups([])
            os.setgid(req["uid"])
            os.setuid(req["uid"])
        sys.argv = ["jpylyzer"] + [os.fsdecode(base64.b64decode(a)) for a in req["argv"]]
        J.main()
    return in_child(work)


def apart(call):
    """call() with its standard output and error kept apart: (code, stdout, stderr)"""
    keep = [os.dup(1), os.dup(2)]
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(fo.fileno(), 1)
        os.dup2(fe.fileno(), 2)
        code = 0
        try:
            call()
        except SystemExit as ex:
            code = (ex.code if isinstance(ex.code, int) else 0 if ex.code is None else 1) & 255
        except BaseException:         # noqa: B902
            import traceback
            traceback.print_exc()
            code = 1
        sys.stdout.flush()
        sys.stderr.flush()
        for k in (0, 1):
            os.dup2(keep[k], k + 1)
            os.close(keep[k])
        res = {"code": code}
        for name, f in (("out", fo), ("err", fe)):
            f.seek(0)
            res[name] = base64.b64encode(f.read()).decode()
        return res


def do_session(req):
    """Steps in one process: {"put": path, "hex", "utime"}, {"gone": path}, {"one": path, "o"} -> checkOneFile,
    {"both": paths, "o"} -> two of them in threads, {"many": paths} -> checkFiles, {"spoil"}: the last result taken apart"""
    fd, name = tempfile.mkstemp()
    os.close(fd)

    def left():
        """What an analysis could leave behind: files in the directory, open files, working directory"""
        gc.collect()
        files = {}
        for d in (req["dir"], tempfile.gettempdir()):
            for x in sorted(os.listdir(d)):
                p = os.path.join(d, x)
                st = os.lstat(p)
                files[p] = (st.st_mode, st.st_size, st.st_mtime_ns, st.st_ino, open(p, "rb").read() if d == req["dir"] else 0)
        return files, sorted(os.listdir("/proc/self/fd")), os.getcwd(), sys.getrecursionlimit()

    def work():
        res, given, cap = [], [], req.get("cap", 4000)
        scratch = tempfile.mkdtemp(dir=req["dir"] + "/..")
        os.environ["TMPDIR"] = tempfile.tempdir = scratch
        for s in req["steps"]:
            if s.get("style") == "relative":
                os.chdir(os.path.dirname(s["one"]))
            before = left()
            if "put" in s:
                over = s["put"] + ".new" if s.get("anew") else s["put"]
                with open(over, "wb") as f:
                    f.write(bytes.fromhex(s["hex"]))
                if over != s["put"]:
                    os.replace(over, s["put"])
                os.utime(s["put"], (s["utime"], s["utime"]))
                res.append({})
            elif "gone" in s:
                os.unlink(s["gone"])
                res.append({})
            elif "many" in s:
                res.append(apart(lambda s=s: J.checkFiles(False, s["many"])))
            elif "both" in s:
                pair = [None, None]
                sys.setswitchinterval(1e-5)

                def half(j, s=s, pair=pair):
                    try:
                        pair[j] = call(s["both"][j], s["o"][j])
                    except BaseException as ex:       # noqa: B902
                        pair[j] = {"exc": type(ex).__name__ + ": " + str(ex)[:200]}
                ts = [threading.Thread(target=half, args=(j,)) for j in (0, 1)]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
                sys.setswitchinterval(0.005)
                rs = []
                for e in pair:
                    rs.append(e if isinstance(e, dict) else recorded(e, cap))
                    if not isinstance(e, dict):
                        given.append([e, dict(rs[-1]), rs[-1]])
                res.append({"pair": rs})
            elif "spoil" in s:
                if given:
                    e = given.pop()[0]
                    for x in list(e.iter()):
                        x.clear()
                        x.text = "spoilt"
                res.append({})
            else:
                res.append(do_file({"path": s["one"], "o": s["o"], "style": s.get("style", ""), "cap": cap}, given))
            if "put" not in s and "gone" not in s and left() != before:
                res[-1]["left"] = True
        os.rmdir(scratch) if not os.listdir(scratch) else None
        for e, then, r in given:
            r["kept"] = recorded(e, cap) == then
        with open(name, "w") as f:
            json.dump(res, f)
    r = in_child(work)
    try:
        with open(name) as f:
            r["steps"] = json.load(f)
    except ValueError:
        r["steps"] = None
    os.unlink(name)
    return r


def main():
    for line in sys.stdin:
        req = json.loads(line)
        if "hex" in req:
            with open(req["path"], "wb") as f:
                f.write(bytes.fromhex(req["hex"]))
        if "utime" in req:
            os.utime(req["path"], (req["utime"], req["utime"]))
        res = {"file": do_file, "cli": do_cli, "session": do_session}[req["op"]](req)
        out.write(json.dumps(res) + "\n")
        out.flush()


main()
