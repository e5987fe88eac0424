# mk.py ID...: makes /verif/seeded/ID from seeds.py, validates it in /repo, runs the check
import sys, os, subprocess, json, shutil, time
sys.path.insert(0, "/verif/tools/seed"); sys.dont_write_bytecode = True
from seeds import SEEDS
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
os.chdir("/repo")
assert sh("git status --porcelain").stdout == "", "dirty"
for sid in sys.argv[1:]:
    s = SEEDS[sid]
    d = "/verif/seeded/" + sid
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in s["edits"]:
            t = open(f).read()
            assert t.count(old) == 1, (sid, f, t.count(old), old)
            open(f, "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git diff").stdout)
        if "py" in s:
            shutil.copy("/verif/tools/seed/gwdemo.py", d + "/gwdemo.py")
            open(d + "/demo.py", "w").write("from gwdemo import *\n\n" + s["py"].strip("\n") + "\n")
            open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 python3 "$(dirname "$0")/demo.py"\n')
        else:
            ext = "cpp" if s.get("cpp") else "c"
            open(d + "/demo." + ext, "w").write(s["c"].strip("\n") + "\n")
            cc = s.get("cc", 'gcc -g -fsanitize=address -w -I/repo/MQTTSNPacket/src -o $T/demo "$D/demo.c" /repo/MQTTSNPacket/src/*.c')
            open(d + "/demo.sh", "w").write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 2\ntrap \'rm -rf -- "$T"\' EXIT\n' + cc.replace("/repo/", "$PWD/") + ' || exit 2\n' + s.get("run", 'ASAN_OPTIONS=detect_leaks=0 timeout 60 "$T/demo"') + '\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what"]), open(d + "/meta.json", "w"), indent=1)
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: print(sid, "BUILD FAILED", b.stdout[-1500:]); continue
        sh("bash /opt/vp/test.sh /tmp/o.json")
        fails = json.load(open("/tmp/o.json"))["failed"]
        r = sh("bash " + d + "/demo.sh", timeout=300)
        c = sh("cd /verif && VERIF_SEED=1 ./run.sh %s quick" % s["property"])
        v = [l for l in c.stdout.splitlines() if "VIOLATION" in l]
    finally:
        sh("git checkout -- .")
    b = sh("bash /opt/vp/build.sh")
    r0 = sh("bash " + d + "/demo.sh", timeout=300)
    print(sid, "| tests failed:", fails, "| demo patched:", r.returncode, (r.stdout + r.stderr)[-160:].strip().replace("\n", " / "), "| demo clean:", r0.returncode, (r0.stdout+r0.stderr)[-200:] if r0.returncode else "", "| check", s["property"], "rc", c.returncode, v[:1], c.stdout[-200:] if c.returncode not in (0,1) else "", flush=True)
