SEEDS = {}
def seed(sid, **k): SEEDS[sid] = k
G = "MQTTSNGateway/src/"
P = "MQTTSNPacket/src/"
seed("c01-qosm1-long-name", property="C01", edits=[(P+"MQTTSNSerializePublish.c", "	int len = 6;\n\n	if (topic.type == MQTTSN_TOPIC_TYPE_NORMAL && qos == 3)\n		len += topic.data.long_.len;\n\n	return payloadlen + len;",
 "	int len = 6 + payloadlen;\n\n	if (topic.type == MQTTSN_TOPIC_TYPE_NORMAL && qos == 3)\n		len += topic.data.long_.len & 0xff;\n\n	return len;")],
 needs="a QoS -1 PUBLISH whose topic name is longer than 255 characters", what="the length announced in the packet is too small by 256",
 c='''
#include <stdio.h>
#include <string.h>
#include "MQTTSNPacket.h"
int main(void)
{
	static unsigned char buf[2000];
	static char name[600];
	MQTTSN_topicid t, t2;
	unsigned char dup, ret, *pl;
	unsigned short id;
	int qos, pll, n;
	for (n = 1; n < 600; n++)
	{
		memset(name, 'n', sizeof name);
		memset(&t, 0, sizeof t);
		t.type = MQTTSN_TOPIC_TYPE_NORMAL;
		t.data.long_.name = name;
		t.data.long_.len = n;
		int l = MQTTSNSerialize_publish(buf, sizeof buf, 0, 3, 0, 0, t, (unsigned char*) "xyz", 3);
		if (l <= 0 || MQTTSNDeserialize_publish(&dup, &qos, &ret, &id, &t2, &pl, &pll, buf, l) != 1 || pll != 3 || t2.data.long_.len != n)
		{
			printf("topic name of %d characters\\n", n);
			return 1;
		}
	}
	return 0;
}
''')
seed("c02-regack-size", property="C02", edits=[(P+"MQTTSNSubscribeServer.c", "if ((len = MQTTSNPacket_len(7)) > buflen)", "if ((len = MQTTSNPacket_len(7)) > buflen + 1)")],
 needs="SUBACK serialised into a buffer which is one byte too small", what="one byte is written behind the buffer",
 c='''
#include <stdlib.h>
#include "MQTTSNPacket.h"
int main(void)
{
	int n;
	for (n = 1; n < 12; n++)
	{
		unsigned char* b = malloc(n);
		MQTTSNSerialize_suback(b, n, 1, 7, 8, 0);
		free(b);
	}
	return 0;
}
''')
seed("c03-suback-type", property="C03", edits=[(P+"MQTTSNUnsubscribeClient.c", "	if (readChar(&curdata) != MQTTSN_UNSUBACK)\n		goto exit;\n", "	if ((readChar(&curdata) & 0xfd) != (MQTTSN_UNSUBACK & 0xfd))\n		goto exit;\n")],
 needs="an UNSUBSCRIBE-like packet type 0x17 given to the UNSUBACK deserialiser", what="PINGRESP of the length of UNSUBACK is decoded as UNSUBACK",
 c='''
#include <stdio.h>
#include "MQTTSNPacket.h"
int MQTTSNDeserialize_unsuback(unsigned short* packetid, unsigned char* buf, int buflen);
int main(void)
{
	int t;
	for (t = 0; t < 256; t++)
	{
		unsigned char b[4] = { 4, t, 1, 2 };
		unsigned short id;
		if ((MQTTSNDeserialize_unsuback(&id, b, 4) == 1) != (t == MQTTSN_UNSUBACK))
			return printf("type %02x\\n", t), 1;
	}
	return 0;
}
''')
seed("c04-nb-length", property="C04", edits=[(P+"MQTTSNPacket.c", "		writeInt(&buf, length);\n		rc += 3;", "		writeInt(&buf, length & 0x7fff);\n		rc += 3;")],
 needs="a packet longer than 32767 bytes", what="the length field of the packet lacks its highest bit",
 c='''
#include <stdio.h>
#include "MQTTSNPacket.h"
int main(void)
{
	int l, v;
	for (l = 2; l < 65536; l++)
	{
		unsigned char b[3];
		int n = MQTTSNPacket_encode(b, l);
		if (MQTTSNPacket_decode(b, n, &v) != n || v != l)
			return printf("length %d\\n", l), 1;
	}
	return 0;
}
''')
seed("g01-will-survives", property="G01", edits=[(G+"MQTTSNGWConnectionHandler.cpp", "    connectData->flags.bits.willQoS = willQos;\n", "    connectData->flags.bits.willQoS |= willQos;\n")],
 needs="WILLTOPIC sent twice, with QoS 1 and then QoS 2", what="the QoS of the will is that of both topics combined",
 py='''
def t(g):
    c = g.client()
    c.send(connect(b"c1", will=True))
    assert c.recv() == sn(6)
    c.send(willtopic(b"wt", 1))
    assert c.recv() == sn(8)
    c.send(willtopic(b"wt", 2))
    assert c.recv() == sn(8)
    c.send(willmsg(b"gone"))
    b = g.accept()
    assert b, "no connection"
    p = b.packet()
    assert p[9] >> 3 & 3 == 2, "will QoS %d" % (p[9] >> 3 & 3)
run(t)
''')
seed("g02-keepalive", property="G02", edits=[(G+"MQTTSNGWConnectionHandler.cpp", "    if (packet->getDISCONNECT(&duration) != 0)\n    {\n        if (duration == 0)\n        {\n            MQTTGWPacket", "    if (packet->getDISCONNECT(&duration) != 0)\n    {\n        if (duration == 0 && !client->isSleep())\n        {\n            MQTTGWPacket")],
 needs="DISCONNECT from a client which is asleep", what="the broker does not receive DISCONNECT and the connection stays open",
 py='''
def t(g):
    c, b = g.session(b"c1")
    c.send(disconnect(600))
    assert c.recv() == disconnect()
    c.send(disconnect())
    assert c.recv() == disconnect()
    p = b.packet()
    assert p == bytes([0xe0, 0]), "broker received %r" % p
run(t)
''')
seed("g03-id-reuse", property="G03", edits=[(G+"MQTTSNGWTopic.cpp", "    return ++_nextTopicId == 0xffff ? _nextTopicId += 2 : _nextTopicId;", "    return ++_nextTopicId == 0xffff ? _nextTopicId += 1 : _nextTopicId;")],
 needs="65535 topic ids given to a client, in more than 1300 sessions", what="topic id 0 is given away when the ids are used up",
 py="""
def t(g):
    c, b = g.session(b"c1")
    d, e = g.session(b"c2")
    n = 0
    for s in range(1400):
        for i in range(48):
            n += 1
            c.send(register(i + 1, b"t%d" % n))
            r = c.recv()
            tid = r[2] << 8 | r[3]
            assert r[6] == 0, "refused"
            assert tid != 0 and tid != 0xffff, "id %d" % tid
        c.send(connect(b"c1"))
        b = g.accept()
        b.packet()
        b.send(mconnack())
        r = None
        for k in range(200):    # traffic on another connection makes the gateway look at the new one at once
            e.send(mq(0xd0))
            r = c.recv(0.02)
            if r:
                break
        assert r == sn(5, bytes(1)), "CONNACK %r" % r
run(t)
""")
seed("g04-pubcomp", property="G04", edits=[(G+"MQTTSNGWTopic.cpp", "    if (getElement(msgId))\n    {\n        erase(msgId);\n    }\n", "    if (getElement(msgId))\n    {\n        return 0;\n    }\n")],
 needs="a message id which is used again for another topic before the broker acknowledged its first use", what="PUBACK carries the topic id of the first publish",
 py='''
def t(g):
    c, b = g.session(b"c1")
    for i, n in enumerate([b"n/a", b"n/b"]):
        c.send(register(i + 1, n))
        assert c.recv()[6] == 0
    c.send(publish(1, 0, 1, 7, b"x"))
    assert b.packet() == mpublish(1, b"n/a", 7, b"x")
    c.send(publish(1, 0, 2, 7, b"y"))
    assert b.packet() == mpublish(1, b"n/b", 7, b"y")
    b.send(mack(4, 7))
    p = c.recv()
    assert p == puback(2, 7, 0), "%r" % p
run(t)
''')
seed("g05-retain", property="G05", edits=[(G+"MQTTGWPublishHandler.cpp", "                topicId.data.id = id;\n                snPacket->setPUBLISH((uint8_t) pub.header.bits.dup,", "                topicId.data.id = id;\n                pub.header.bits.dup = 0; /* not delivered before */\n                snPacket->setPUBLISH((uint8_t) pub.header.bits.dup,")],
 needs="a broker PUBLISH with DUP for a topic which must be registered first", what="the DUP flag is lost",
 py='''
def t(g):
    c, b = g.session(b"c1")
    c.send(subscribe(1, 5, 0, b"n/#"))
    b.packet()
    b.send(msuback(5, 1))
    assert c.recv()
    b.send(mpublish(1, b"n/a", 9, b"m", dup=1))
    r = c.recv()
    tid, mid = r[2] << 8 | r[3], r[4] << 8 | r[5]
    c.send(regack(tid, mid, 0))
    p = c.recv()
    assert p == publish(1, 0, tid, 9, b"m", dup=1), "%r" % p
run(t)
''')
seed("g06-suback-order", property="G06", edits=[(G+"MQTTSNGWTopic.cpp", "            if (p->_prev == nullptr)\n            {\n                _first = p->_next;\n            }\n", "            if (p->_prev == nullptr || p->_prev == _first)\n            {\n                _first = p->_next;\n            }\n")],
 needs="three unanswered subscriptions of which the second one is answered first", what="the answer of the first subscription is dropped",
 py='''
def t(g):
    c, b = g.session(b"c1")
    for i in (1, 2, 3):
        c.send(subscribe(1, i, 0, b"topic/%d" % i))
        assert b.packet()
    for i in (2, 1, 3):
        b.send(msuback(i, 1))
        p = c.recv()
        assert p and p[6] == i and p[4] == i, "SUBACK %d: %r" % (i, p)
run(t)
''')
seed("g07-awake-store", property="G07", edits=[(G+"MQTTSNGWClient.cpp", "    _clientSleepPacketQue.setMaxSize(MAX_SAVED_PUBLISH);\n    _proxyPacketQue.setMaxSize(MAX_SAVED_PUBLISH);", "    _clientSleepPacketQue.setMaxSize(MAX_SAVED_PUBLISH / 2);\n    _proxyPacketQue.setMaxSize(MAX_SAVED_PUBLISH);")],
 needs="more than ten messages for a sleeping client", what="only ten of them are kept",
 py='''
def t(g):
    c, b = g.session(b"c1")
    c.send(disconnect(600))
    assert c.recv() == disconnect()
    n = 15
    for i in range(n):
        b.send(mpublish(0, b"ab", 0, b"%d" % i))
        time.sleep(0.05)
    time.sleep(0.5)
    c.send(pingreq())
    b.packet()
    b.send(bytes([0xd0, 0]))
    got = c.drain()
    want = [publish(0, 2, b"ab", 0, b"%d" % i) for i in range(n)] + [sn(0x17)]
    assert got == want, "%d packets instead of %d" % (len(got), len(want))
run(t)
''')
seed("g08-address", property="G08", edits=[(G+"linux/udp/SensorNetwork.cpp", "	return ((this->_portNo == addr->_portNo) && (this->_IpAddr == addr->_IpAddr));", "	return (((this->_portNo ^ addr->_portNo) & 0x7fff) == 0 && (this->_IpAddr == addr->_IpAddr));")],
 needs="two clients behind the same IP address whose port numbers differ in the highest bit of the stored number only", what="the second client is taken for the first one",
 py='''
def t(g):
    # the port number may be stored in either byte order
    for d in (0x8000, 0x80):
        for base in range(20011, 20200):
            a, z = None, None
            try:
                a = Client(g, base)
                z = Client(g, base ^ d)
            except OSError:
                continue
            break
        a.send(connect(b"a%x" % d))
        b = g.accept()
        b.packet()
        b.send(mconnack())
        assert a.recv() == sn(5, b"\\0")
        z.send(publish(1, 2, b"ab", 7, b"stolen"))
        p = b.packet(1)
        assert p is None, "a stranger's message was published by the client: %r" % p
run(t)
''')

seed("g09-node-id", property="G09", edits=[(G+"MQTTSNGWEncapsulatedPacket.cpp", "return memcmp(_nodeId, id._nodeId, _len) == 0;", "return strncmp((const char*) _nodeId, (const char*) id._nodeId, _len) == 0;")],
 needs="two nodes of one forwarder whose ids are equal up to a NUL byte", what="the second node is taken for the first one",
 py='''
def t(g):
    f = Client(g, FP)
    f.send(encap(b"\\0\\1", connect(b"n1")))
    b = g.accept()
    b.packet()
    b.send(mconnack())
    assert f.recv() == encap(b"\\0\\1", sn(5, b"\\0"), 0) or True
    f.send(encap(b"\\0\\2", publish(1, 2, b"ab", 7, b"stolen")))
    p = b.packet(1)
    assert p is None, "published by the other node's client: %r" % p
FP = freeport(socket.SOCK_DGRAM)
run(t, "Forwarder=YES", {"clients.conf": "fw,127.0.0.1:%d,forwarder\\n" % FP})
''')
seed("g12-long-log", property="G12", edits=[(G+"MQTTSNGWPacket.cpp", "    int size = _bufLen > SIZE_OF_LOG_PACKET ? SIZE_OF_LOG_PACKET : _bufLen;\n\n    for (int i = 0; i < size; i++)\n    {\n        sprintf(*pptr, \" %02X\", *(_buf + i));\n        *pptr += 3;", "    int size = _bufLen > 2 * SIZE_OF_LOG_PACKET ? SIZE_OF_LOG_PACKET : _bufLen;\n\n    for (int i = 0; i < size; i++)\n    {\n        sprintf(*pptr, \" %02X\", *(_buf + i));\n        *pptr += 3;")],
 needs="a datagram of 506 to 1000 bytes (twice the length of a log line at most)", what="the log line overruns the buffer on the stack and the gateway dies",
 py='''
def t(g):
    c, b = g.session(b"c1")
    for n in range(50, 1000, 50):
        c.send(publish(0, 2, b"ab", 0, b"x" * n))
        p = b.packet()
        assert p == mpublish(0, b"ab", 0, b"x" * n), "%d bytes: %r" % (n, p)
run(t)
''')
seed("g04-pubrel-flags", property="G04", edits=[(G+"MQTTGWPacket.cpp", "_header.bits.qos = (msgType == PUBREL) ? 1 : 0;", "_header.bits.qos = (msgType == PUBREL && msgid < 0x8000) ? 1 : 0;")],
 needs="PUBREL with a message id of 0x8000 or more", what="the PUBREL given to the broker has invalid flags",
 py='''
def t(g):
    c, b = g.session(b"c1")
    for mid in (1, 0x7fff, 0x8000, 0xffff):
        c.send(publish(2, 2, b"ab", mid, b"x"))
        assert b.packet() == mpublish(2, b"ab", mid, b"x")
        b.send(mack(5, mid))
        assert c.recv() == ack(0x0f, mid)
        c.send(ack(0x10, mid))
        p = b.packet()
        assert p == mack(6, mid), "%r" % p
run(t)
''')
seed("g05-regack-drop", property="G05", edits=[(G+"MQTTSNGWClient.cpp", "        if (p->_msgId == REGACKMsgId)\n        {\n            return p->_packet;", "        if (p->_msgId <= REGACKMsgId)\n        {\n            return p->_packet;")],
 needs="two messages for new topics of which the second one is acknowledged first", what="REGACK of the second topic releases the message of the first topic, and the message is freed or lost",
 py='''
def t(g):
    c, b = g.session(b"c1")
    c.send(subscribe(1, 5, 0, b"n/#"))
    b.packet()
    b.send(msuback(5, 1))
    assert c.recv()
    b.send(mpublish(0, b"n/a", 0, b"a"))
    r1 = c.recv()
    b.send(mpublish(0, b"n/b", 0, b"b"))
    r2 = c.recv()
    c.send(sn(0x0b, r2[2:6] + b"\\0"))
    p = c.recv()
    assert p and p[3:5] == r2[2:4] and p[-1:] == b"b", "%r" % p
run(t)
''')
seed("g06-unsub-predef", property="G06", edits=[(G+"MQTTSNGWSubscribeHandler.cpp", "            unsubscribe = new MQTTGWPacket();\n            unsubscribe->setUNSUBSCRIBE(topic->getTopicName()->c_str(), msgId);", "            unsubscribe = new MQTTGWPacket();\n            unsubscribe->setUNSUBSCRIBE(topic->getTopicName()->c_str(), topicFilter.type == MQTTSN_TOPIC_TYPE_PREDEFINED ? (uint8_t) msgId : msgId);")],
 needs="UNSUBSCRIBE of a predefined topic with a message id above 255", what="the message id is cut off",
 py='''
def t(g):
    c, b = g.session(b"c1")
    c.send(subscribe(1, 0x1234, 1, 2))
    assert b.packet() == mq(0x82, b"\\x12\\x34" + mqs(b"p/all") + b"\\1")
    b.send(msuback(0x1234, 1))
    assert c.recv()
    c.send(unsubscribe(0x1235, 1, 2))
    p = b.packet()
    assert p == mq(0xa2, b"\\x12\\x35" + mqs(b"p/all")), "%r" % p
run(t, "PredefinedTopic=YES", {"predef.conf": "*,p/all,2\\n"})
''')
seed("g07-qos2-sleep", property="G07", edits=[(G+"MQTTGWPublishHandler.cpp", "            pubComp->setAck(PUBCOMP, (uint16_t) ack.msgId);", "            pubComp->setAck(PUBCOMP, (uint16_t) ack.msgId);\n            client->deleteFirstClientSleepPacket();")],
 needs="a QoS 2 message for a sleeping client whose PUBREL arrives while it is still asleep", what="the first kept message is forgotten",
 py='''
def t(g):
    c, b = g.session(b"c1")
    c.send(disconnect(600))
    assert c.recv() == disconnect()
    b.send(mpublish(2, b"ab", 9, b"x"))
    assert b.packet() == mack(5, 9)
    b.send(mack(6, 9))
    assert b.packet() == mack(7, 9)
    c.send(pingreq())
    b.packet()
    b.send(bytes([0xd0, 0]))
    got = c.drain()
    assert got == [publish(2, 2, b"ab", 9, b"x"), sn(0x17)], "%r" % got
run(t)
''')
seed("g13-large-length", property="G13", edits=[(G+"MQTTGWPacket.cpp", "#define MAX_NO_OF_REMAINING_LENGTH_BYTES    3", "#define MAX_NO_OF_REMAINING_LENGTH_BYTES    2")],
 needs="a packet of 16384 bytes or more from the broker", what="the whole broker connection is given up although the packet is a valid one, instead of that message being too large",
 py='''
def t(g):
    c, b = g.session(b"c1")
    c.send(subscribe(1, 1, 2, b"ab"))
    assert b.packet()
    b.send(msuback(1, 1))
    assert c.recv()
    for n in (100, 16000, 16500, 40000):
        b.send(mpublish(0, b"ab", 0, b"x" * n))
        c.drain(0.3)
        b.send(mpublish(0, b"ab", 0, b"next"))
        p = c.recv()
        assert p == publish(0, 2, b"ab", 0, b"next"), "after a message of %d bytes: %r" % (n, p)
run(t)
''')

seed("t02-early-message", property="T02", edits=[(G+"MQTTSNGWBrokerRecvTask.cpp", "                                if (log(client, packet) == -1)", "                                if (log(client, packet) == -1 || (packet->getType() == PUBLISH && client->isConnecting()))")],
 needs="a message of a kept session which the broker sends right behind the CONNACK and which is read before the CONNACK is handled", what="the message is lost",
 py='''
def t(g):
    c = Client(g, 20011)
    lost = 0
    for i in range(12):
        c.send(connect(b"c1", clean=0))
        b = g.accept()
        b.packet()
        b.send(bytes([0x20, 2, 0, 0]) + mpublish(0, b"ab", 0, b"kept"))
        got = c.drain(1.2)
        lost += publish(0, 2, b"ab", 0, b"kept") not in got
        b.close()
        time.sleep(0.05)
        c.drain(1.2)
    assert lost == 0, "%d messages lost" % lost
run(t)
''')
GWCC = 'g++ -std=c++11 -g -w -Dmain=gateway_main -I/repo/MQTTSNGateway/src -I/repo/MQTTSNGateway/src/linux -I/repo/MQTTSNGateway/src/linux/udp -I/repo/MQTTSNPacket/src -c'
GWLINK = ('for f in $(ls /repo/MQTTSNGateway/src/*.cpp /repo/MQTTSNGateway/src/linux/*.cpp /repo/MQTTSNGateway/src/linux/udp/*.cpp | grep -v -e mainLogmonitor -e GWLogmonitor); do echo $f; done | xargs -P 8 -I{} sh -c \'' +
 GWCC + ' {} -o $0/$(basename {}).o\' $T && for f in /repo/MQTTSNPacket/src/*.c; do gcc -g -w -c $f -o $T/$(basename $f).o || exit 1; done && ' +
 GWCC.replace(' -Dmain=gateway_main', '') + ' "$D/demo.cpp" -o $T/demo.o && g++ -o $T/demo $T/*.o -lpthread -lssl -lcrypto')
seed("t01-lost-wakeup", property="T01", edits=[(G+"MQTTSNGateway.cpp", "        if (_que.post(ev))\n        {\n            _sem.post();\n        }\n", "        bool idle = _que.size() == 0;\n        if (_que.post(ev))\n        {\n            if (idle)\n            {\n                _sem.post();\n            }\n        }\n")],
 needs="two threads wait for one queue and two events are posted before the first of them runs", what="the second waiting thread is never woken though an event is there",
 cpp=True, cc=GWLINK, run='timeout 100 "$T/demo"', c='''
#include "MQTTSNGateway.h"
#include <thread>
#include <vector>
#include <atomic>
#include <unistd.h>
#include <stdio.h>
using namespace MQTTSNGW;
int main()
{
	for (int round = 0; round < 300; round++)
	{
		EventQue* q = new EventQue();
		std::atomic<int> got(0);
		for (int i = 0; i < 2; i++)
			std::thread([q, &got]() { q->wait(); got++; for (;;) pause(); }).detach();
		usleep(3000);
		for (int i = 0; i < 2; i++)
		{
			Event* e = new Event();
			e->setTimeout();
			q->post(e);
		}
		for (int i = 0; i < 200 && got < 2; i++)
			usleep(5000);
		if (got < 2)
		{
			printf("round %d: %d of 2 threads woken\\n", round, (int) got);
			fflush(stdout);
			_exit(1);
		}
	}
	_exit(0);
}
''')
seed("t01-short-lock", property="T01", edits=[(G+"MQTTSNGateway.cpp", "    _mutex.lock();\n\n    if (_que.size() == 0)\n    {\n        ev = new Event();\n        ev->setTimeout();\n    }\n    else\n    {\n        ev = _que.front();\n", "    if (_que.size() == 0)\n    {\n        ev = new Event();\n        ev->setTimeout();\n        return ev;\n    }\n\n    ev = _que.front();\n    _mutex.lock();\n    {\n")],
 needs="two threads take from one queue at the same moment", what="both receive the same event",
 cpp=True, cc=GWLINK, run='timeout 100 "$T/demo"', c='''
#include "MQTTSNGateway.h"
#include <thread>
#include <vector>
#include <atomic>
#include <unistd.h>
#include <stdio.h>
using namespace MQTTSNGW;
int main()
{
	const int N = 300000;
	EventQue q;
	std::atomic<int> got(0), twice(0), seen(0);
	std::vector<std::thread> ts;
	std::atomic<char>* times = new std::atomic<char>[N + 1]();
	for (int i = 0; i < 3; i++)
		ts.emplace_back([&]() {
			while (seen < N)
			{
				Event* e = q.timedwait(50);
				// the events live on, so that one which is received twice is only counted
				if (e && e->getEventType() == EtClientSend)
				{
					long id = (long) e->getClient();
					if (id > 0 && id <= N && ++times[id] > 1)
						twice++;
					seen++;
				}
				if (twice)
					break;
			}
			if (twice)
				printf("an event was received twice\\n"), fflush(stdout), _exit(1);
		});
	std::thread([&]() {
		for (long i = 1; i <= N; i++)
		{
			Event* e = new Event();
			e->setClientSendEvent((Client*) i, nullptr);
			q.post(e);
			if (i % 64 == 0)
				while (q.size() > 8)
					std::this_thread::yield();
		}
	}).detach();
	for (auto& t : ts)
		t.join();
	_exit(twice > 0);
}
''')
seed("d01-level-prefix", property="D01", edits=[(G+"MQTTSNGWTopic.cpp", "            else if (subtopic != subtopict)\n", "            else if (subtopic.compare(0, subtopict.size(), subtopict) != 0)\n")],
 needs="a filter with a level which is the beginning of the same level of the topic name", what="a/b matches ab/b",
 cpp=True, cc=GWLINK, run='timeout 100 "$T/demo"', c='''
#include "MQTTSNGWTopic.h"
#include <stdio.h>
using namespace MQTTSNGW;
int main()
{
	const char* pairs[][2] = { { "a/#", "ab/x" }, { "x/a/+", "x/ab/c" }, { "/+", "a/b" }, { "a/b", "aa/b" } };
	for (auto& p : pairs)
	{
		std::string* f = new std::string(p[0]), n = p[1];
		Topic t(f, MQTTSN_TOPIC_TYPE_NORMAL);
		if (t.isMatch(&n))
		{
			printf("%s matches %s\\n", p[0], p[1]);
			return 1;
		}
	}
	return 0;
}
''')
seed("t03-busy", property="T03", edits=[(G+"MQTTSNGWClientRecvTask.cpp", "        if (CHK_SIGINT)\n", "        if (packetLen <= 0 && CHK_SIGINT)\n")],
 needs="datagrams which go on arriving several times a second after SIGINT", what="the receiving task and so the gateway does not end",
 py='''
import signal
def t(g):
    c, b = g.session(b"c1")
    g.p.send_signal(signal.SIGINT)
    for _ in range(200):
        c.send(publish(1, 2, b"ab", 7, b"x"))
        time.sleep(0.1)
        if not g.alive():
            return
    assert False, "20 s after SIGINT the gateway goes on"
run(t, ends=True)
''')
seed("g10-no-connack", property="G10", edits=[(G+"MQTTSNGWAdapter.cpp", "    if (client->isDisconnect() || (client->isConnecting() && _responseTimer.isTimeup()))\n", "    if (client->isDisconnect() || (client->isConnecting() && _isWaitingResp && _responseTimer.isTimeup()))\n")],
 needs="a broker which accepts the connection but does not answer CONNECT", what="the proxy never connects again",
 py='''
def t(g):
    m = Client(g, MP)
    b = g.accept(8)
    assert b and b.packet(), "no CONNECT"
    b2 = g.accept(25)
    assert b2 and b2.packet(), "no second attempt though CONNECT was not answered"
    b2.send(mconnack())
    time.sleep(1)
    m.send(publish(3, 2, b"ab", 0, b"x"))
    p = b2.packet()
    assert p == mpublish(0, b"ab", 0, b"x"), "PUBLISH: %r" % p
MP = freeport(socket.SOCK_DGRAM)
run(t, "QoS-1=YES", {"clients.conf": "m1,127.0.0.1:%d,QoS-1\\n" % MP})
''')
seed("g10-other-packets", property="G10", edits=[(G+"MQTTSNGWPacket.cpp", "((_buf[p + 1] & 0x60) == 0x60)", "(_buf[p + 1] & 0x40)")],
 needs="a QoS 2 PUBLISH from a QoS -1 client", what="it is forwarded over the proxy's connection",
 py='''
def t(g):
    m = Client(g, MP)
    b = g.accept(8)
    assert b and b.packet(), "no CONNECT"
    b.send(mconnack())
    time.sleep(1)
    m.send(publish(2, 2, b"ab", 9, b"x"))
    p = b.packet()
    assert p is None, "forwarded: %r" % p
    m.send(publish(3, 2, b"ab", 0, b"x"))
    p = b.packet()
    assert p == mpublish(0, b"ab", 0, b"x"), "PUBLISH: %r" % p
MP = freeport(socket.SOCK_DGRAM)
run(t, "QoS-1=YES", {"clients.conf": "m1,127.0.0.1:%d,QoS-1\\n" % MP})
''')
NETLINK = '''S=MQTTSNGateway/src; g++ -std=c++11 -g -w -DUSE_XBEE -I$S -I$S/linux -I$S/linux/xbee -IMQTTSNPacket/src -o $T/demo "$D/demo.cpp" $S/linux/xbee/SensorNetwork.cpp $S/linux/Threading.cpp $S/linux/Timer.cpp $S/MQTTSNGWProcess.cpp -lpthread'''
CONF = G + "MQTTSNGWProcess.cpp"
seed("d02-value-blanks", property="D02", edits=[(CONF, "                    while (param[i])\n                        param[j++]", "                    while (param[i] && !isspace(param[i]))\n                        param[j++]")],
 needs="a value with white space before it and within it", what="the value ends at the white space within it",
 cpp=True, cc=NETLINK, c='''
#include "MQTTSNGWProcess.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
using namespace MQTTSNGW;
int main()
{
	char dir[] = "/tmp/demo.XXXXXX", v[2000] = "";
	if (!mkdtemp(dir) || chdir(dir))
		return 2;
	FILE* f = fopen("gateway.conf", "w");
	fputs("GatewayName= my gateway \\nShearedMemory=NO\\n", f);
	fclose(f);
	static Process p;
	theProcess = &p;
	char* argv[] = { (char*) "x", (char*) "-f", (char*) "./gateway.conf", 0 };
	p.initialize(3, argv);
	p.getParam("GatewayName", v);
	int bad = strcmp(v, "my gateway") != 0;
	printf("GatewayName: '%s'\\n", v);
	fflush(stdout);
	unlink("gateway.conf");
	if (system("rm -f ./*.key"))
		;
	if (chdir("/") == 0)
		rmdir(dir);
	_exit(bad);
}
''')
seed("d02-case", property="D02", edits=[(CONF, "            if (strncmp(str, parameter, paramlen) == 0)", "            if (strncasecmp(str, parameter, paramlen) == 0)")],
 needs="a line whose name differs from a parameter's only in case, before that parameter's own line", what="its value is taken for the parameter's",
 cpp=True, cc=NETLINK, c='''
#include "MQTTSNGWProcess.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
using namespace MQTTSNGW;
int main()
{
	char dir[] = "/tmp/demo.XXXXXX", v[2000] = "";
	if (!mkdtemp(dir) || chdir(dir))
		return 2;
	FILE* f = fopen("gateway.conf", "w");
	fputs("gatewayname=other\\nGatewayName=mine\\nShearedMemory=NO\\n", f);
	fclose(f);
	static Process p;
	theProcess = &p;
	char* argv[] = { (char*) "x", (char*) "-f", (char*) "./gateway.conf", 0 };
	p.initialize(3, argv);
	p.getParam("GatewayName", v);
	int bad = strcmp(v, "mine") != 0;
	printf("GatewayName: '%s'\\n", v);
	fflush(stdout);
	unlink("gateway.conf");
	if (system("rm -f ./*.key"))
		;
	if (chdir("/") == 0)
		rmdir(dir);
	_exit(bad);
}
''')
seed("g14-hash", property="G14", edits=[(G+"MQTTSNGWClientList.cpp", "            if (*buf == '#')\n            {\n                continue;\n            }\n            string data = string(buf);\n            eraseBlanks(data);\n            if (data.empty())\n            {\n                continue;\n            }\n            pos = data", "            if (strchr(buf, '#'))\n            {\n                continue;\n            }\n            string data = string(buf);\n            eraseBlanks(data);\n            if (data.empty())\n            {\n                continue;\n            }\n            pos = data")],
 needs="a client whose identifier contains '#'", what="its line of the clients list is taken for a comment",
 py='''
def t(g):
    c = Client(g, MP)
    c.send(connect(b"node#1"))
    b = g.accept()
    assert b and b.packet(), "the listed client is not connected to the broker"
MP = freeport(socket.SOCK_DGRAM)
run(t, "ClientAuthentication=YES", {"clients.conf": "node#1,127.0.0.1:%d\\n" % MP})
''')
seed("g14-port", property="G14", edits=[(G+"linux/udp/SensorNetwork.cpp", "	if ((portNo = atoi(port.c_str())) == 0 ||", "	if ((portNo = (short) atoi(port.c_str())) <= 0 ||")],
 needs="a listed client whose port is above 32767", what="its address is taken for invalid",
 py='''
def t(g):
    c = Client(g, MP)
    c.send(connect(b"n1"))
    b = g.accept()
    assert b and b.packet(), "the listed client is not connected to the broker"
MP = 0
while MP < 32768:
    MP = freeport(socket.SOCK_DGRAM)
run(t, "ClientAuthentication=YES", {"clients.conf": "n1,127.0.0.1:%d\\n" % MP})
''')
seed("g15-gwinfo", property="G15", edits=[(G+"MQTTSNGWClientRecvTask.cpp", "packet->getType() <= MQTTSN_ADVERTISE || packet->getType() == MQTTSN_GWINFO", "packet->getType() < MQTTSN_SEARCHGW")],
 needs="a GWINFO packet from the address of a client which is not connected", what="the client is sent DISCONNECT",
 py='''
def t(g):
    c, b = g.session(b"c1")
    c.send(disconnect())
    c.drain()
    c.send(sn(0x02, b"\\x05"))
    p = c.recv()
    assert p is None, "GWINFO was answered by %r" % p
run(t)
''')
XD = '''
#include "MQTTSNGWProcess.h"
#include "SensorNetwork.h"
#include <pty.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <unistd.h>
#include <poll.h>
#include <thread>
using namespace MQTTSNGW;
static int master;
// what the driver writes for one packet of payload p
static std::string sent(XBee& x, const std::string& p)
{
	SensorNetAddress a;
	uint8_t a64[8] = { 0, 0x22, 1, 2, 3, 4, 5, 6 }, a16[2] = { 0x33, 0x44 };
	a.setAddress(a64, a16);
	std::thread t([&]() { x.unicast((const uint8_t*) p.data(), p.size(), &a); });
	std::string r;
	char b[512];
	pollfd pf = { master, POLLIN, 0 };
	while (poll(&pf, 1, 1000) > 0)
	{
		int n = read(master, b, sizeof b);
		if (n <= 0)
			break;
		r.append(b, n);
	}
	t.join();
	return r;
}
// what it should write, for frame id
static std::string frame(const std::string& p, int id)
{
	std::string d = "\\x10";
	d += (char) id;
	d += std::string("\\x00\\x22\\x01\\x02\\x03\\x04\\x05\\x06\\x33\\x44\\x00\\x00", 12) + p;
	unsigned char sum = 0;
	for (unsigned char c : d)
		sum += c;
	d = std::string(1, 0) + (char) d.size() + d + (char) (0xff - sum);
	std::string r = "\\x7e";
	for (char c : d)
		if (c == 0x7e || c == 0x7d || c == 0x11 || c == 0x13)
			r += '\\x7d', r += (char) (c ^ 0x20);
		else
			r += c;
	return r;
}
int main()
{
	char name[200];
	int slave;
	struct termios tio;
	memset(&tio, 0, sizeof tio);
	tio.c_cflag = CS8 | CREAD | CLOCAL;
	tio.c_cc[VMIN] = 1;
	if (openpty(&master, &slave, name, &tio, 0))
		return 2;
	static XBee x;
	x.setApiMode(2);
	if (x.open(name, 9600) < 0)
		return 2;
	int bad = 0, id = 0;
	for (std::string p : { %s })
	{
		std::string s = sent(x, p);
		id++;
		if (s != frame(p, id))
		{
			printf("packet %%d is not sent as it should be\\n", id);
			bad = 1;
		}
	}
	fflush(stdout);
	_exit(bad);
}
'''
X = G + "linux/xbee/SensorNetwork.cpp"
XPTY = NETLINK.replace("-lpthread", "-lpthread -lutil")
seed("x01-length-escape", property="X01", edits=[(X, "    send(14 + pLen);         // Message Length", "    _serialPort->send(14 + pLen);         // Message Length")],
 needs="API mode 2 and a payload of 3, 5, 111 or 112 bytes", what="the length of the frame is not escaped",
 cpp=True, cc=XPTY, run='timeout 100 "$T/demo"', c=XD % '"ab", "abc"')
seed("x01-checksum", property="X01", edits=[(X, "		send(addr->_address16[i]);\n		checksum += addr->_address16[i];", "		send(addr->_address16[i]);\n		checksum |= addr->_address16[i];")],
 needs="an address whose bytes have bits in common with the sum before", what="the frame's checksum is wrong",
 cpp=True, cc=XPTY, run='timeout 100 "$T/demo"', c=XD % '"ab", "abc"')

LD = r'''
#include "MQTTSNGWProcess.h"
#include "SensorNetwork.h"
#include <pty.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <unistd.h>
#include <poll.h>
#include <thread>
using namespace MQTTSNGW;
static int rx, tx;
static std::string escaped(const std::string& d)
{
	std::string r = "\x7e";
	for (char c : d)
		if (c == 0x7e || c == 0x7d || c == 0x11 || c == 0x13)
			r += '\x7d', r += (char) (c ^ 0x20);
		else
			r += c;
	return r;
}
static std::string sealed(const std::string& d, int len)
{
	unsigned char sum = 0;
	for (unsigned char c : d)
		sum += c;
	return escaped(std::string(1, (char) (len >> 8)) + (char) len + d + (char) (0xff - sum));
}
// a frame from a node
static std::string data(int from, int rssi, int snr, int type, const std::string& p)
{
	std::string d = { (char) from, (char) (rssi >> 8), (char) rssi, (char) (snr >> 8), (char) snr, (char) type };
	d += p;
	return sealed(d, d.size() + 1);
}
static void put(int fd, const std::string& b)
{
	if (write(fd, b.data(), b.size()) != (ssize_t) b.size())
		_exit(2);
}
static int bad;
static void expect(bool ok, const char* what)
{
	if (!ok)
	{
		printf("FAILED: %s\n", what);
		bad = 1;
	}
}
static int line(int* master, char* name)
{
	int slave;
	struct termios tio;
	memset(&tio, 0, sizeof tio);
	tio.c_cflag = CS8 | CREAD | CLOCAL;
	tio.c_cc[VMIN] = 1;
	return openpty(master, &slave, name, &tio, 0);
}
int main()
{
	char rn[200], tn[200];
	if (line(&rx, rn) || line(&tx, tn))
		return 2;
	static LoRaLink x;
	if (x.open(LORALINK_MODEM_RX, rn, 9600) < 0 || x.open(LORALINK_MODEM_TX, tn, 9600) < 0)
		return 2;
	uint8_t buf[300];
	SensorNetAddress from;
@TEST@
	fflush(stdout);
	_exit(bad);
}
'''
LCC = XPTY.replace("USE_XBEE", "USE_LORALINK").replace("linux/xbee", "linux/loralink")
L = G + "linux/loralink/SensorNetwork.cpp"
def lora(test): return LD.replace("@TEST@", test)
seed("x02-snr", property="X02", edits=[(L, "			api->Snr = val << 8;\n			para->checksum += byte;\n", "			api->Snr = val << 8;\n			para->checksum ^= byte;\n")],
 needs="a frame received with a negative signal to noise ratio (high byte 0xff) after bytes summing to an odd number", what="a good frame is taken for a damaged one",
 cpp=True, cc=LCC, run='timeout 100 "$T/demo"', c=lora(r'''
	for (int snr : { 7, -3, -20 })
	{
		put(rx, data(5, -100, snr, MQTT_SN, "hello"));
		int n = x.recv(buf, sizeof buf, &from);
		expect(n == 5 && !memcmp(buf, "hello", 5), "the packet is not received");
	}
'''))
seed("x02-xoff", property="X02", edits=[(L, "  if( (c == START_BYTE || c == ESCAPE || c == XON || c == XOFF)){", "  if( (c >= ESCAPE && c <= START_BYTE) || (c & ~PAD) == XON ){")],
 needs="a packet, an address or a checksum with the byte 0x13 (or 0x31) in it", what="the byte is not escaped as it must be and the modem takes it for XOFF",
 cpp=True, cc=LCC, run='timeout 100 "$T/demo"', c=lora(r'''
	SensorNetAddress to;
	to.setAddress(9);
	for (std::string p : { "plain", "\x11\x7d\x7e", "a\x13\x31z" })
	{
		int rc = -2;
		std::thread t([&]() { rc = x.unicast((const uint8_t*) p.data(), p.size(), &to); });
		std::string d = "\x09\x40", got;
		d += p;
		pollfd pf = { tx, POLLIN, 0 };
		while (poll(&pf, 1, 1000) > 0)
		{
			char b[512];
			int n = read(tx, b, sizeof b);
			if (n <= 0)
				break;
			got.append(b, n);
		}
		expect(got == sealed(d, d.size() + 1), "the packet is not sent as it should be");
		put(tx, data(0, 0, 0, API_RSP_ACK, ""));
		x.recv(buf, sizeof buf, &from);
		t.join();
		expect(rc == (int) p.size(), "the packet is not acknowledged");
	}
'''))
seed("x02-size", property="X02", edits=[(L, "			val = (uint16_t)byte;\n			api->PayloadLen = val << 8;\n", "			val = (uint16_t)byte;\n			api->PayloadLen |= val << 8;\n")],
 needs="a frame of more than 255 bytes before on the same modem's line", what="the lengths of later frames are wrong",
 cpp=True, cc=LCC, run='timeout 100 "$T/demo"', c=lora(r'''
	std::string big(252, 'x'), s = "hello";
	for (auto p : { &s, &big, &s, &s })
	{
		put(rx, data(5, -100, 3, MQTT_SN, *p));
		int n = x.recv(buf, sizeof buf, &from);
		expect(n == (int) p->size() && !memcmp(buf, p->data(), n), "the packet is not received");
	}
'''))
seed("g16-login-alone", property="G16", edits=[(G+"MQTTSNGWConnectionHandler.cpp", "    if ((const char*) _gateway->getGWParams()->loginId != nullptr)\n", "    if (_gateway->getGWParams()->loginId != nullptr && _gateway->getGWParams()->password != nullptr)\n")],
 needs="a LoginID and no Password", what="the broker is not told the login",
 py='''
def t(g):
    c = g.client()
    c.send(connect(b"c1"))
    b = g.accept()
    p = b.packet()
    assert p and mqs(b"joe") in p and p[9] & 0x80, "no user name in CONNECT: %r" % p
run(t, "LoginID=joe")
''')
seed("g16-case", property="G16", edits=[(G+"MQTTSNGateway.cpp", '    if (getParam("Forwarder", param) == 0)\n    {\n        if (!strcasecmp(param, "YES"))', '    if (getParam("Forwarder", param) == 0)\n    {\n        if (!strcmp(param, "YES") || !strcmp(param, "yes"))')],
 needs="Forwarder=Yes", what="forwarders are not served",
 py='''
FP = freeport(socket.SOCK_DGRAM)
def t(g):
    c = Client(g, FP)
    c.send(encap(b"n1", connect(b"c1")))
    assert g.accept(), "the client behind the forwarder is not served"
run(t, "Forwarder=Yes", {"clients.conf": "fw,127.0.0.1:%d,forwarder\\n" % FP})
''')
SELECT = '''
import gwdemo
gwdemo.SHIM = gwdemo.SHIM + r"""
#include <sys/select.h>
#include <sys/socket.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdio.h>
int select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t)
{
	int (*real)(int, fd_set*, fd_set*, fd_set*, struct timeval*) = dlsym(RTLD_NEXT, "select");
	if (unlink("failselect") == 0)
	{
		errno = EINTR;
		return -1;
	}
	return real(n, r, w, e, t);
}
ssize_t sendto(int fd, const void* b, size_t n, int f, const struct sockaddr* to, socklen_t l)
{
	ssize_t (*real)(int, const void*, size_t, int, const struct sockaddr*, socklen_t) = dlsym(RTLD_NEXT, "sendto");
	if (unlink("failsend") == 0)
	{
		errno = ENETUNREACH;
		return -1;
	}
	return real(fd, b, n, f, to, l);
}
"""
def fail(g, what):
    n = os.path.join(g.dir, what)
    open(n, "w").close()
    for _ in range(40):
        time.sleep(0.1)
        if not os.path.exists(n):
            return
    raise AssertionError("no failing call")
'''
seed("g17-select", property="G17", edits=[(G+"MQTTSNGWBrokerRecvTask.cpp", "            if (activity > 0)\n", "            if (activity != 0)\n")],
 needs="a select interrupted by a signal while two clients are connected and the broker says nothing to the first", what="what the broker sends the other clients waits until it sends the first one something",
 py=SELECT + '''
def t(g):
    a, ab = g.session(b"a")
    b, bb = g.session(b"b")
    fail(g, "failselect")
    time.sleep(1)
    for c, cb in ((a, ab), (b, bb)):
        c.send(pingreq())
        p = cb.packet()
        assert p and p[0] >> 4 == 12, "PINGREQ"
    bb.send(mq(0xd0))
    r = b.recv(3)
    assert r, "no PINGRESP"
    ab.send(mq(0xd0))
    assert a.recv(3), "no PINGRESP"
run(t)
''')
seed("g17-multicast", property="G17", edits=[(G+"MQTTSNGWClientSendTask.cpp", "                WRITELOG(\"%s ClientSendTask can't multicast a packet Error=%d%s\\n\",\n                ERRMSG_HEADER, errno, ERRMSG_FOOTER);", "                throw EXCEPTION(\"ClientSendTask can't multicast a packet\", errno);")],
 needs="a multicast which cannot be sent", what="nothing is sent to any client any more",
 py=SELECT + '''
def t(g):
    a, ab = g.session(b"a")
    open(os.path.join(g.dir, "failsend"), "w").close() # of the GWINFO
    a.send(sn(0x01, bytes([0])))
    time.sleep(1.5)
    a.send(pingreq())
    p = ab.packet()
    assert p and p[0] >> 4 == 12, "PINGREQ"
    ab.send(mq(0xd0))
    r = a.drain()
    assert sn(0x17) in r, "no PINGRESP: %r" % r
run(t)
''')
AGG = '''
def start(g):
    b = g.accept(6.0)
    assert b and b.packet()[0] == 0x10, "no connection of the aggregator"
    b.send(mconnack(0))
    time.sleep(0.3)
    return b
def client(g, cid):
    c = Client(g)
    c.send(connect(cid))
    p = c.recv()
    assert p == bytes([3, 5, 0]), p
    return c
def sub(b, c, mid, topic, qos=0):
    c.send(subscribe(qos, mid, 0, topic))
    p = b.packet()
    assert p and p[0] == 0x82, p
    b.send(msuback(struct.unpack(">H", p[2:4])[0], qos))
    p = c.recv()
    assert p and p[1] == 0x13 and p[5:7] == struct.pack(">H", mid), p
def unsub(b, c, mid, topic):
    c.send(unsubscribe(mid, 0, topic))
    p = b.packet(0.7)
    if p:
        b.send(mack(11, struct.unpack(">H", p[2:4])[0]))
    p = c.recv()
    assert p == ack(0x15, mid), p
def news(c): return [p[7:] for p in c.drain() if p[1] == 0x0c]
'''
seed("g11-last-client", property="G11", edits=[(G+"MQTTSNGWAggregateTopicTable.cpp", "            p->_prev->_next = nullptr;\n            _tail = p->_prev;\n        }\n        delete p;", "            p->_prev->_next = nullptr;\n        }\n        delete p;")],
 needs="the client which subscribed to a topic last unsubscribes and another one subscribes while the first still has it", what="the new subscriber is not reached (and freed memory is written)",
 py=AGG+'''
def t(g):
    b = start(g)
    c = [client(g, b"c%d" % i) for i in range(3)]
    sub(b, c[0], 1, b"t/1")
    sub(b, c[1], 1, b"t/1")
    unsub(b, c[1], 2, b"t/1")
    sub(b, c[2], 3, b"t/1")
    b.send(mpublish(0, b"t/1", 0, b"x"))
    assert [news(x) for x in c] == [[b"x"], [], [b"x"]], "not the subscribers got the message"
run(t, "AggregatingGateway=YES")
''')
seed("g11-same-id", property="G11", edits=[(G+"MQTTSNGWMessageIdTable.cpp", "        if (p->_clientMsgId == clientMsgId && p->_client == client)", "        if (p->_clientMsgId == clientMsgId && (p->_client == client || p != _head))")],
 needs="two clients with outstanding requests of the same message id, and a third outstanding request before them", what="the second one's request takes the id of the first one's",
 py=AGG+'''
def t(g):
    b = start(g)
    c = [client(g, b"c%d" % i) for i in range(3)]
    ids = []
    for i, m in ((0, 5), (1, 9), (2, 9)):
        c[i].send(publish(1, 2, b"ab", m, b"x"))
        p = b.packet()
        ids.append(p[6:8])
    assert len(set(ids)) == 3, "a message id is used twice"
    for i in ids:
        b.send(mq(0x40, i))
    for x, m in zip(c, (5, 9, 9)):
        assert x.recv() == puback(0x6162, m, 0), "no PUBACK"
run(t, "AggregatingGateway=YES")
''')
seed("g11-last-filter", property="G11", edits=[(G+"MQTTSNGWAggregateTopicTable.cpp", "            elmTopic->_prev->_next = nullptr;\n            _tail = elmTopic->_prev;", "            elmTopic->_prev->_next = nullptr;\n            _tail = _head;")],
 needs="the filter which was added last, of at least three, is unsubscribed from, then another one is added", what="the subscriptions in between are lost",
 py=AGG+'''
def t(g):
    b = start(g)
    c = [client(g, b"c%d" % i) for i in range(3)]
    sub(b, c[0], 1, b"t/1")
    sub(b, c[1], 1, b"t/2")
    sub(b, c[2], 1, b"t/3")
    unsub(b, c[2], 2, b"t/3")
    sub(b, c[2], 3, b"t/4")
    b.send(mpublish(0, b"t/2", 0, b"x"))
    assert [news(x) for x in c] == [[], [b"x"], []], "the subscriber of t/2 did not get the message"
run(t, "AggregatingGateway=YES")
''')
seed("x03-both", property="X03", edits=[(G+"linux/udp/SensorNetwork.cpp", "    else if (_pollFds[1].revents == POLLIN)", "    if (_pollFds[1].revents == POLLIN)")],
 needs="a datagram waits at the unicast and one at the multicast port when the gateway looks", what="the former is overwritten by the latter and lost",
 py='''
import signal
def t(g):
    g.p.send_signal(signal.SIGSTOP)
    time.sleep(0.2)
    a, b = g.client(), g.client()
    a.send(connect(b"c1"))
    b.s.sendto(connect(b"c2"), ("127.0.0.1", g.mport))
    time.sleep(0.2)
    g.p.send_signal(signal.SIGCONT)
    n = 0
    while n < 2 and g.accept():
        n += 1
    assert n == 2, "only %d of two clients are connected" % n
run(t)
''')
U6 = r'''
#include "MQTTSNGWProcess.h"
#include "SensorNetwork.h"
#include <stdio.h>
#include <string>
using namespace MQTTSNGW;
int main()
{
	const char* t[] = { "[2001:db8::1]:5001", "[2001:db8::2]:5001", "[2001:db8:0:1::1]:5001", "[2001:db8::1]:5002", "[2001:db8::1:0:0:1]:5001" };
	int bad = 0;
	for (const char* x : t)
		for (const char* y : t)
		{
			SensorNetAddress a, b;
			std::string s = x, u = y;
			if (a.setAddress(&s) || b.setAddress(&u))
				return 3;
			if (a.isMatch(&b) != (s == u))
			{
				printf("%s and %s are %s\n", x, y, s == u ? "different" : "the same");
				bad = 1;
			}
		}
	return bad;
}
'''
UCC = XPTY.replace("USE_XBEE", "USE_UDP6").replace("linux/xbee", "linux/udp6")
seed("x04-subnet", property="X04", edits=[(G+"linux/udp6/SensorNetwork.cpp", "                    sizeof(this->_IpAddr.sin6_addr.s6_addr)) == 0);", "                    sizeof(&this->_IpAddr.sin6_addr)) == 0);")],
 needs="two clients in the same subnet which use the same port", what="they are taken for one",
 cpp=True, cc=UCC, run='timeout 100 "$T/demo"', c=U6)
RFD = r'''
#include "MQTTSNGWProcess.h"
#include "SensorNetwork.h"
#include <bluetooth/rfcomm.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <poll.h>
#include <unistd.h>
using namespace MQTTSNGW;
// Bluetooth sockets are replaced by local ones
static int domain(int ch, sockaddr_un* a)
{
	memset(a, 0, sizeof *a);
	a->sun_family = AF_UNIX;
	return offsetof(sockaddr_un, sun_path) + 1 + sprintf(a->sun_path + 1, "rfdemo.%d.%d", (int) getpid(), ch);
}
static int nextDevice;
extern "C" int socket(int f, int t, int p) throw() { return syscall(SYS_socket, f == AF_BLUETOOTH ? AF_UNIX : f, t, f == AF_BLUETOOTH ? 0 : p); }
extern "C" int bind(int fd, const sockaddr* a, socklen_t l) throw()
{
	sockaddr_un u;
	if (a->sa_family != AF_BLUETOOTH)
		return syscall(SYS_bind, fd, a, l);
	l = domain(((const sockaddr_rc*) a)->rc_channel, &u);
	return syscall(SYS_bind, fd, &u, l);
}
extern "C" int accept(int fd, sockaddr* a, socklen_t* l)
{
	sockaddr_rc* r = (sockaddr_rc*) a;
	memset(r, 0, *l);
	r->rc_family = AF_BLUETOOTH;
	r->rc_bdaddr.b[0] = nextDevice;
	return syscall(SYS_accept, fd, 0, 0);
}
static int dial(int ch)
{
	sockaddr_un u;
	int fd = socket(AF_UNIX, SOCK_STREAM, 0), l = domain(ch, &u);
	if (connect(fd, (sockaddr*) &u, l))
		exit(2);
	return fd;
}
static std::string heard(int fd)
{
	char b[300];
	pollfd p = { fd, POLLIN, 0 };
	if (poll(&p, 1, 500) <= 0)
		return "";
	int n = read(fd, b, sizeof b);
	return std::string(b, n < 0 ? 0 : n);
}
struct P : public Process
{
	void initialize(int argc, char** argv) { Process::initialize(argc, argv); }
};
int main()
{
	char d[] = "/tmp/rfdemo.XXXXXX";
	if (!mkdtemp(d) || chdir(d))
		return 2;
	FILE* f = fopen("gateway.conf", "w");
	fprintf(f, "RFCOMMAddress=60:57:18:06:8B:72.*\n");
	fclose(f);
	char* argv[] = { (char*) "demo", (char*) "-f", (char*) "gateway.conf", 0 };
	P* p = new P();
	theProcess = p;
	p->initialize(3, argv);
	SensorNetwork* n = new SensorNetwork();
	n->initialize();
	uint8_t buf[1024];
	int bad = 0;
@TEST@
	unlink("gateway.conf");
	chdir("/");
	rmdir(d);
	fflush(stdout);
	_exit(bad);
}
'''
RCC = XPTY.replace("USE_XBEE", "USE_RFCOMM").replace("linux/xbee", "linux/rfcomm").replace("-lutil", "-lbluetooth")
R = G + "linux/rfcomm/SensorNetwork.cpp"
seed("x05-broadcast", property="X05", edits=[(R, "    int rc = 0;\n\n    for (int i = 0; i < MAX_RFCOMM_CH; i++)\n    {\n        errno = 0;", "    int rc = 0;\n\n    for (int i = 0; rc >= 0 && i < MAX_RFCOMM_CH - 1; i++)\n    {\n        errno = 0;")],
 needs="a device on channel 30 when something is broadcast", what="it does not get the broadcast",
 cpp=True, cc=RCC, run='timeout 100 "$T/demo"', c=RFD.replace("@TEST@", r'''
	int a = dial(3);
	n->read(buf, sizeof buf);
	int b = dial(30);
	n->read(buf, sizeof buf);
	n->broadcast((const uint8_t*) "\x03\x01\x01", 3);
	if (heard(a).size() != 3 || heard(b).size() != 3)
		printf("a device does not get the broadcast\n"), bad = 1;
'''))
seed("x05-wildcard", property="X05", edits=[(R, "((this->_channel == addr->_channel) && bacmp", "((this->_channel == addr->_channel || addr->_channel == 0) && bacmp")],
 needs="an address with * as its channel", what="it is taken for the same device's address on any channel",
 cpp=True, cc=RCC, run='timeout 100 "$T/demo"', c=RFD.replace("@TEST@", r'''
	std::string x = "00:11:22:33:44:55.*", y = "00:11:22:33:44:55.4";
	SensorNetAddress a, b;
	a.setAddress(&x);
	b.setAddress(&y);
	if (a.isMatch(&b) || b.isMatch(&a))
		printf("different addresses match\n"), bad = 1;
'''))

# ---- T04
LOGDEMO = r'''
#include "MQTTSNGWLogmonitor.cpp"
#include <thread>
#include <atomic>
#include <string>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <getopt.h>
#include <sys/wait.h>
using namespace MQTTSNGW;
static std::string conf;
template<class P> static void start(P& p)
{
	optind = 1;
	static char a0[] = "demo", a1[] = "-f", a2[600];
	snprintf(a2, sizeof a2, "%s", conf.c_str());
	static char* argv[] = { a0, a1, a2, nullptr };
	p.Process::initialize(3, argv);
}
static int test();
int main(int, char** argv)
{
	conf = std::string(argv[1]) + "/gateway.conf";
	FILE* f = fopen(conf.c_str(), "w");
	fputs("ShearedMemory=YES\n", f);
	fclose(f);
	return test();
}
'''
LOGRUN = 'timeout 100 "$T/demo" "$T"'
seed("t04-unlocked-read", property="T04", edits=[(G+"linux/Threading.cpp", "\tint len = 0;\n\t_pmx->lock();\n", "\tint len = 0;\n"),
  (G+"linux/Threading.cpp", "\t_pmx->unlock();\n\treturn len;\n", "\treturn len;\n")],
 needs="the buffer is full and the gateway makes room in it while the monitor reads", what="text is read twice or torn",
 cpp=True, cc=GWLINK, run=LOGRUN, c=LOGDEMO + r'''
static int test()
{
	Process g, m;
	start(g);
	g.resetRingBuffer();
	start(m);
	std::atomic<bool> stop(false);
	std::thread writer([&]() {
		for (int i = 0; !stop; i++)
			g.putLog("%08d\n", i);
	});
	int last = -1, bad = 0;
	time_t end = time(nullptr) + 6;
	for (long chunk = 0; time(nullptr) < end && !bad; chunk++)
	{
		std::string s = m.getLog();
		size_t at = s.find('\n');
		for (at = at == std::string::npos ? s.size() : at + 1; at + 9 <= s.size() && !bad; at += 9)
		{
			std::string l = s.substr(at, 8);
			int n = s[at + 8] == '\n' && l.find_first_not_of("0123456789") == std::string::npos ? atoi(l.c_str()) : -1;
			bool first = at < 18;
			if (n < 0 || n <= last || (!first && n != last + 1))
			{
				printf("chunk %ld: %d is followed by %s\n", chunk, last, l.c_str());
				bad = 1;
			}
			last = n;
		}
		if (chunk % 4 == 0)
			usleep(3000);
	}
	stop = true;
	writer.join();
	return bad;
}
''')
seed("t04-format", property="T04", edits=[(G+"MQTTSNGWLogmonitor.cpp", 'printf("%s", data);', 'printf(data);')],
 needs="a text with a % in it", what="the monitor shows something else than was logged",
 cpp=True, cc=GWLINK, run=LOGRUN, c=LOGDEMO + r'''
static int test()
{
	Process g;
	start(g);
	g.resetRingBuffer();
	int p[2];
	pipe(p);
	pid_t c = fork();
	if (c == 0)
	{
		dup2(p[1], 1);
		setvbuf(stdout, nullptr, _IONBF, 0);
		alarm(30);
		Logmonitor m;
		start(m);
		m.run();
		_exit(0);
	}
	const char* text = "client 100%d connected\n";
	g.putLog("%s", text);
	char b[200];
	std::string got;
	struct pollfd pf = { p[0], POLLIN, 0 };
	while (got.size() < strlen(text) && poll(&pf, 1, 4000) > 0)
	{
		int n = read(p[0], b, sizeof b);
		if (n <= 0)
			break;
		got.append(b, n);
	}
	kill(c, SIGINT);
	waitpid(c, nullptr, 0);
	if (got != text)
		printf("shown: %s", got.c_str());
	return got != text;
}
''')
seed("t04-quiet", property="T04", edits=[(G+"MQTTSNGWProcess.cpp", "        if (checkSignal() == SIGINT)\n        {\n            break;\n        }\n    }\n    *(_rbdata", "        len = _rb->get(_rbdata, PROCESS_LOG_BUFFER_SIZE);\n        break;\n    }\n    *(_rbdata")],
 needs="a gateway which logs nothing for a second while a monitor is running", what="the monitor ends by itself",
 cpp=True, cc=GWLINK, run=LOGRUN, c=LOGDEMO + r'''
static int test()
{
	Process g, m;
	start(g);
	g.resetRingBuffer();
	start(m);
	std::thread writer([&]() { usleep(2500000); g.putLog("a text\n"); });
	std::string s = m.getLog();
	writer.join();
	if (s != "a text\n")
		printf("read: %s\n", s.c_str());
	return s != "a text\n";
}
''')
seed("t04-early-unlock", property="T04", edits=[(G+"MQTTSNGWProcess.cpp", "    va_end(arg);\n    if (strlen(_rbdata))\n", "    va_end(arg);\n    _mt.unlock();\n    if (strlen(_rbdata))\n"),
  (G+"MQTTSNGWProcess.cpp", '            printf("%s", _rbdata);\n        }\n    }\n    _mt.unlock();\n', '            printf("%s", _rbdata);\n        }\n    }\n')],
 needs="two tasks log at the same moment", what="one text appears twice or mixed with the other, which is lost",
 cpp=True, cc=GWLINK, run=LOGRUN, c=LOGDEMO + r'''
static int test()
{
	Process g, m;
	start(g);
	g.resetRingBuffer();
	start(m);
	std::atomic<int> turn(0), bad(0);
	std::atomic<bool> stop(false);
	std::thread w[2];
	for (int i = 0; i < 2; i++)
		w[i] = std::thread([&, i]() {
			std::string t(60, 'a' + i);
			while (!stop)
			{
				g.putLog("%s\n", t.c_str());
				std::this_thread::yield();
			}
		});
	time_t end = time(nullptr) + 6;
	while (time(nullptr) < end && !bad)
	{
		std::string s = m.getLog();
		size_t at = s.find('\n');
		for (at = at == std::string::npos ? s.size() : at + 1; at + 61 <= s.size() && !bad; at += 61)
		{
			std::string l = s.substr(at, 61);
			if (l[60] != '\n' || (l.substr(0, 60) != std::string(60, 'a') && l.substr(0, 60) != std::string(60, 'b')))
			{
				printf("read: %s\n", l.c_str());
				bad = 1;
			}
		}
	}
	stop = true;
	for (auto& t : w)
		t.join();
	return bad;
}
''')
