#!/usr/bin/env python3
"""replay.py <replays/X.json>: runs the recorded case again, output to the terminal."""
import json, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild, check
d = json.load(open(sys.argv[1]))
j = d["job"]
b = vbuild.build_harness(j["harness"], j.get("variant", "asan"), tuple(j.get("extra", ())))
env = dict(os.environ); env.update(check.SAN_ENV); env["LANG"] = "C"
for k, v in j.get("env", {}).items():
    env[k] = env[k] + ":" + v if k in check.SAN_ENV else v
with tempfile.TemporaryDirectory() as t:
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    cmd = check.job_cmd(j, b, d["seed"], d["case"], n, None, None, t)
    print("signature:", d.get("signature")); print(" ".join(cmd))
    sys.exit(subprocess.call(cmd, env=env, cwd=t))
