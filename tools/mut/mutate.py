#!/usr/bin/env python3
# mutate.py OUT SLOTS N SEED [FILE...]: plants N random small changes, one at a time, into scratch copies of
# /repo and runs the quick checks against each until one reports it.  Survivors are listed in OUT.
# Needs /tmp/mut to be free; the copies are removed with it by hand.
import sys, os, re, random, subprocess, shutil, threading, queue, time
OUT, SLOTS, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
ROOT = "/tmp/mut"
G = "MQTTSNGateway/src/"
FILES = sys.argv[5:] or [G + f for f in """MQTTGWConnectionHandler.cpp MQTTGWPacket.cpp MQTTGWPublishHandler.cpp MQTTGWSubscribeHandler.cpp MQTTSNGWAdapter.cpp MQTTSNGWAdapterManager.cpp
MQTTSNGWBrokerRecvTask.cpp MQTTSNGWBrokerSendTask.cpp MQTTSNGWClient.cpp MQTTSNGWClientList.cpp MQTTSNGWClientRecvTask.cpp MQTTSNGWClientSendTask.cpp MQTTSNGWConnectionHandler.cpp
MQTTSNGWEncapsulatedPacket.cpp MQTTSNGWForwarder.cpp MQTTSNGWPacket.cpp MQTTSNGWPacketHandleTask.cpp MQTTSNGWPublishHandler.cpp MQTTSNGWQoSm1Proxy.cpp
MQTTSNGWSubscribeHandler.cpp MQTTSNGWTopic.cpp MQTTSNGateway.cpp linux/udp/SensorNetwork.cpp linux/Network.cpp linux/Timer.cpp""".split()]
ORDER = os.environ.get("ORDER", "G04 G06 G01 G03 G05 G07 G02 G08 G12 G09 G10 G13 G14 G15 T02 G16 G17 G11").split()
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def code_lines(text):
    out, depth, com = [], 0, False
    for i, l in enumerate(text.split("\n")):
        s = l.strip()
        if com:
            com = "*/" not in s
            continue
        if s.startswith("/*"):
            com = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "*")) or "WRITELOG" in s or "log(" in s or "D_NW" in s or "currentDateTime" in s or "ERRMSG" in s or "_HEADER" in s: continue
        if l[0] not in " \t" : continue
        out.append(i)
    return out
def muts(l):
    r = []
    def sub(pat, rep):
        for m in re.finditer(pat, l): r.append(l[:m.start()] + m.expand(rep) + l[m.end():])
    for a, b in [("==", "!="), ("!=", "=="), (r"(?<![-<])<(?![=<a-zA-Z])", "<="), ("<=", "<"), (r"(?<![->])>(?![=>])", ">="), (">=", ">"), ("&&", "||"), (r"\|\|", "&&"),
                 (r"(?<![+\w\"])\+(?![+=])", "-"), (r" - ", " + "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b([2-9])\b", r"(\1+1)"), (r"\+\+", "--"), (r"\bnullptr\b(?=\s*\))", "(void*)1")]:
        if a == r"\bnullptr\b(?=\s*\))": continue
        sub(a, b)
    m = re.match(r"^(\s*)(if|while) \((.*)\)(\s*\{?)$", l)
    if m: r += ["%s%s (!(%s))%s" % m.groups()] + (["%s%s (true)%s" % (m.group(1), m.group(2), m.group(4)), "%s%s (false)%s" % (m.group(1), m.group(2), m.group(4))] if m.group(2) == "if" else [])
    if re.match(r"^\s+[\w>\-\[\]\.\(\)\*]+.*;\s*$", l) and not re.match(r"^\s+(return\b.*|break|case|default|delete|[A-Z]\w+\s*\*?\s+\w+(\s*=.*|\(.*)?;|(const |unsigned |static )?(int|bool|char|uint\w+|size_t|string|auto|std::\S+)\b.*);?\s*$", l): r.append(re.match(r"^\s*", l).group() + ";")
    if re.match(r"^\s+break;$", l): r.append(";")
    return [x for x in r if x != l]
if not os.path.exists(ROOT + "/base"):
    os.makedirs(ROOT); sh("cp -a /repo %s/base" % ROOT)
random.seed(SEED)
allm = []
for f in FILES:
    t = open(ROOT + "/base/" + f).read(); ls = t.split("\n")
    for i in code_lines(t):
        for m in muts(ls[i]): allm.append((f, i, m))
random.shuffle(allm)
print(len(allm), "mutants, taking", N, flush=True)
allm = allm[:N]
NET = dict(xbee="X01", loralink="X02", udp="X03", udp6="X04", rfcomm="X05")
def plan(f):        # programs to be built and (program, check) to be run for a change of this file
    m = re.search(r"linux/(\w+)/", f)
    if m:
        r = [("net_" + m.group(1), NET[m.group(1)])]
        if m.group(1) != "udp": return ["net_" + m.group(1)], r
        return ["net_udp", "gw"], r + [("gw", c) for c in ORDER]
    return ["gw"], [("gw", c) for c in ORDER]
def setup(i):
    d = "%s/%d" % (ROOT, i)
    os.makedirs(d, exist_ok=True)
    sh("cp -a /tmp/mut/base %s/repo; cp -a /verif/lib /verif/checks /verif/known_findings.txt %s/" % (d, d))
    os.makedirs(d + "/evidence", exist_ok=True); os.makedirs(d + "/build/replay", exist_ok=True)
def make(d, bins): return sh("cd %s && make -s -j4 -f lib/build.mk REPO=%s/repo BUILD=%s/b SAN= %s" % (d, d, d, " ".join(d + "/b/" + b for b in bins)))
if not os.path.exists(ROOT + "/0"):
    setup(0); r = make(ROOT + "/0", ["gw"]); print(r.stderr[-300:])
    shutil.rmtree(ROOT + "/0/b.tmp", ignore_errors=True)
for i in range(1, SLOTS):
    if not os.path.exists("%s/%d" % (ROOT, i)):
        setup(i); sh("cp -a %s/0/b %s/%d/b" % (ROOT, ROOT, i))
    # object paths are within the slot's own tree; make only looks at times
q = queue.Queue()
for m in allm: q.put(m)
lock = threading.Lock(); stat = {}
def work(i):
    d = "%s/%d" % (ROOT, i)
    while True:
        try: f, ln, new = q.get_nowait()
        except queue.Empty: return
        p = d + "/repo/" + f
        t = open(ROOT + "/base/" + f).read(); ls = t.split("\n"); old = ls[ln]; ls[ln] = new
        open(p, "w").write("\n".join(ls))
        bins, todo = plan(f)
        r = make(d, bins); res = None
        if r.returncode: res = "nocompile"
        else:
            env = dict(os.environ, VERIF_ROOT=d, REPO=d + "/repo", W=str(max(2, 16 // SLOTS)), VERIF_LIMIT="150", VERIF_SEED="1")
            for b, c in todo:
                try: r = sh("%s/b/%s %s quick" % (d, b, c), env=env, timeout=200, cwd=d)
                except subprocess.TimeoutExpired: res = "timeout " + c; sh("pkill -f '^%s/b/'" % d); break
                if "VIOLATION property" in r.stdout: res = "killed " + c; break
                if r.returncode: res = "rc%d %s" % (r.returncode, c); break
        if res is None:
            # the repository's own tests? left to whoever looks at it
            res = "SURVIVED"
        with lock:
            stat[res.split()[0]] = stat.get(res.split()[0], 0) + 1
            with open(OUT, "a") as o: o.write("%s\t%s:%d\t%s\t=>\t%s\n" % (res, f, ln + 1, old.strip(), new.strip()))
        open(p, "w").write(t)
ts = [threading.Thread(target=work, args=(i,)) for i in range(SLOTS)]
[t.start() for t in ts]; [t.join() for t in ts]
print(stat)
