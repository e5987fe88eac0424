# A small driver: runs the built gateway in a scratch directory with a broker of its own on loopback.
import os, select, shutil, socket, struct, subprocess, sys, tempfile, time

REPO = os.getcwd()
GW = os.path.join(REPO, "MQTTSNGateway/bin/MQTT-SNGateway")

def freeport(kind):
    s = socket.socket(socket.AF_INET, kind)
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p

def sn(t, body=b""):
    n = len(body) + 2
    if n < 256:
        return bytes([n, t]) + body
    return b"\x01" + struct.pack(">H", n + 2) + bytes([t]) + body

def connect(cid, clean=True, will=False, keep=600):
    return sn(0x04, bytes([(4 if clean else 0) | (8 if will else 0), 1]) + struct.pack(">H", keep) + cid)
def willtopic(t, qos=0, retain=0): return sn(0x07, bytes([qos << 5 | retain << 4]) + t)
def willmsg(m): return sn(0x09, m)
def register(mid, name): return sn(0x0a, struct.pack(">HH", 0, mid) + name)
def regack(tid, mid, rc): return sn(0x0b, struct.pack(">HHB", tid, mid, rc))
def publish(qos, tt, tid, mid, data, retain=0, dup=0):
    t = tid if isinstance(tid, bytes) else struct.pack(">H", tid)
    return sn(0x0c, bytes([dup << 7 | (qos & 3) << 5 | retain << 4 | tt]) + t + struct.pack(">H", mid) + data)
def puback(tid, mid, rc): return sn(0x0d, struct.pack(">HHB", tid, mid, rc))
def ack(t, mid): return sn(t, struct.pack(">H", mid))
def subscribe(qos, mid, tt, topic):
    t = topic if isinstance(topic, bytes) else struct.pack(">H", topic)
    return sn(0x12, bytes([qos << 5 | tt]) + struct.pack(">H", mid) + t)
def unsubscribe(mid, tt, topic):
    t = topic if isinstance(topic, bytes) else struct.pack(">H", topic)
    return sn(0x14, bytes([tt]) + struct.pack(">H", mid) + t)
def pingreq(cid=b""): return sn(0x16, cid)
def disconnect(d=None): return sn(0x18, b"" if d is None else struct.pack(">H", d))
def encap(node, p, radius=1): return bytes([3 + len(node), 0xfe, radius]) + node + p

def mqs(b): return struct.pack(">H", len(b)) + b
def mq(first, body=b""):
    n, r = len(body), b""
    while True:
        d = n % 128
        n //= 128
        r += bytes([d | (0x80 if n else 0)])
        if not n:
            break
    return bytes([first]) + r + body
def mconnack(rc=0, sp=0): return mq(0x20, bytes([sp, rc]))
def mpublish(qos, topic, mid, data, retain=0, dup=0):
    return mq(0x30 | dup << 3 | qos << 1 | retain, mqs(topic) + (struct.pack(">H", mid) if qos else b"") + data)
def mack(t, mid): return mq(t << 4 | (2 if t == 6 else 0), struct.pack(">H", mid))
def msuback(mid, rc): return mq(0x90, struct.pack(">HB", mid, rc))

class Client:
    def __init__(self, gw, port=0):
        self.gw = gw
        self.s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        self.s.bind(("127.0.0.1", port))
    def send(self, p): self.s.sendto(p, ("127.0.0.1", self.gw.port))
    def recv(self, t=2.0):
        r, _, _ = select.select([self.s], [], [], t)
        return self.s.recvfrom(4096)[0] if r else None
    def drain(self, t=0.6):
        out = []
        while True:
            p = self.recv(t)
            if p is None:
                return out
            out.append(p)

class Conn:
    def __init__(self, s):
        self.s, self.buf, self.eof = s, b"", False
    def send(self, b): self.s.sendall(b)
    def close(self): self.s.close()
    def packet(self, t=2.0):
        end = time.time() + t
        while True:
            p = self._take()
            if p:
                return p
            left = end - time.time()
            if left <= 0 or self.eof:
                return None
            r, _, _ = select.select([self.s], [], [], left)
            if r:
                try:
                    d = self.s.recv(65536)
                except ConnectionError:
                    d = b""
                if not d:
                    self.eof = True
                self.buf += d
    def _take(self):
        b = self.buf
        if len(b) < 2:
            return None
        n, m, i = 0, 1, 1
        while True:
            if i >= len(b):
                return None
            n += (b[i] & 127) * m
            m *= 128
            i += 1
            if not b[i - 1] & 128:
                break
        if len(b) < i + n:
            return None
        self.buf = b[i + n:]
        return b[:i + n]
    def drain(self, t=0.6):
        out = []
        while True:
            p = self.packet(t)
            if p is None:
                return out
            out.append(p)

# Where there is no route for multicast the gateway could not start; it needs none here.
SHIM = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <netinet/in.h>
int setsockopt(int fd, int level, int name, const void* val, socklen_t len)
{
	int (*real)(int, int, int, const void*, socklen_t) = dlsym(RTLD_NEXT, "setsockopt");
	int rc = real(fd, level, name, val, len);
	return level == IPPROTO_IP && name == IP_ADD_MEMBERSHIP ? 0 : rc;
}
"""

class Gateway:
    def __init__(self, conf="", files={}):
        self.dir = tempfile.mkdtemp(prefix="gwdemo.")
        self.port, self.mport = freeport(socket.SOCK_DGRAM), freeport(socket.SOCK_DGRAM)
        self.ls = socket.socket()
        self.ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.ls.bind(("127.0.0.1", 0))
        self.ls.listen(16)
        self.bport = self.ls.getsockname()[1]
        for n, t in files.items():
            with open(os.path.join(self.dir, n), "w") as f:
                f.write(t)
        base = dict(GatewayID="1", GatewayName="g", MaxNumberOfClients="30", KeepAlive="60", BrokerName="127.0.0.1",
                    BrokerPortNo=self.bport, BrokerSecurePortNo=self.bport, AggregatingGateway="NO", Forwarder="NO", PredefinedTopic="NO",
                    ClientAuthentication="NO", ClientsList=self.dir + "/clients.conf", PredefinedTopicList=self.dir + "/predef.conf",
                    GatewayPortNo=self.port, MulticastPortNo=self.mport, MulticastIP="225.1.1.1", MulticastTTL="1", ShearedMemory="NO")
        base["QoS-1"] = "NO"
        for l in conf.split():
            k, v = l.split("=")
            base[k] = v
        with open(self.dir + "/gateway.conf", "w") as f:
            for k, v in base.items():
                f.write("%s=%s\n" % (k, v))
        with open(self.dir + "/shim.c", "w") as f:
            f.write(SHIM)
        subprocess.check_call(["gcc", "-w", "-shared", "-fPIC", "-o", self.dir + "/shim.so", self.dir + "/shim.c", "-ldl"])
        env = dict(os.environ, LD_PRELOAD=self.dir + "/shim.so")
        for k in range(20):         # the keys of the shared memory come from inode numbers and may be in use
            self.log = open(self.dir + "/log", "wb")
            self.p = subprocess.Popen([GW, "-f", self.dir + "/gateway.conf"], cwd=self.dir, stdout=self.log, stderr=self.log, env=env, stdin=subprocess.DEVNULL)
            for _ in range(100):
                time.sleep(0.05)
                if "starts running" in self.logtext() or self.p.poll() is not None:
                    break
            time.sleep(0.5)
            if self.p.poll() is None or "shared memory" not in self.logtext():
                break
            self.end()
            for i in range(k + 1):
                open(self.dir + "/x%d.%d" % (k, i), "w").close()
            for n in os.listdir(self.dir):
                if n.endswith(".key"):
                    os.unlink(self.dir + "/" + n)
    def end(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        with open("/proc/sysvipc/shm") as f:        # the shared memory of its log
            for l in f.read().splitlines()[1:]:
                w = l.split()
                if int(w[4]) == self.p.pid:
                    subprocess.call(["ipcrm", "-m", w[1]])
    def alive(self): return self.p.poll() is None
    def logtext(self):
        with open(self.dir + "/log", "rb") as f:
            return f.read().decode("latin1")
    def accept(self, t=3.0):
        r, _, _ = select.select([self.ls], [], [], t)
        if not r:
            return None
        return Conn(self.ls.accept()[0])
    def client(self): return Client(self)
    # a client which is connected, with its broker connection
    def session(self, cid, clean=True, port=0, wrap=lambda p: p):
        c = Client(self, port)
        c.send(wrap(connect(cid, clean)))
        b = self.accept()
        assert b, "no broker connection"
        assert b.packet(), "no CONNECT"
        b.send(mconnack(0))
        r = c.recv()
        assert r and r.endswith(b"\x03\x05\x00"), "CONNACK: %r" % r
        return c, b
    def stop(self):
        self.end()
        self.log.close()
        self.ls.close()
        shutil.rmtree(self.dir, ignore_errors=True)

def run(test, conf="", files={}, ends=False):
    g = Gateway(conf, files)
    try:
        test(g)
        assert ends or g.alive(), "the gateway died"
        print("ok")
        rc = 0
    except AssertionError as e:
        print("FAILED:", e)
        rc = 1
    finally:
        g.stop()
    sys.exit(rc)
