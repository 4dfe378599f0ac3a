#!/bin/bash
# replay.sh <property> <contract>: compile the contracts of a property natively against /repo's current tree
# and run one of them on the input recorded in evidence/replay/<property>_<contract>.txt
set -e
here=$(cd "$(dirname "$0")" && pwd); root=$(dirname "$here")
exec python3-vt - "$1" "$2" <<PY
import sys, os, tempfile, subprocess, glob
sys.path.insert(0, "$here")
import run
pid, proof = sys.argv[1], sys.argv[2]
with tempfile.TemporaryDirectory() as w:
    run.opts_header(w)
    n = run.build_native(sorted(glob.glob("$root/contracts/%s_*.cpp" % pid)), w)
    p = subprocess.run([n, 'run', proof, "$root/evidence/replay/%s_%s.txt" % (pid, proof)])
    sys.exit(p.returncode)
PY
