"""Checks that the specification parses and that the tools are there; nothing has to be built."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib  # noqa: E402

os.makedirs(os.path.join(lib.VERIF, "evidence"), exist_ok=True)
for m in sorted(os.listdir(lib.SPEC)):
    if m.endswith(".tla"):
        p = subprocess.run(["java", "-cp", lib.TLA_CP, "tla2sany.SANY", m], cwd=lib.SPEC, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if p.returncode != 0 or b"*** Errors" in p.stdout:
            sys.stdout.buffer.write(p.stdout)
            sys.exit(1)
subprocess.run([lib.PY, "-c", "import sys; sys.path.insert(0, %r); import jpylyzer.jpylyzer" % lib.REPO], check=True,
               env=lib.child_env())
print("ok")
