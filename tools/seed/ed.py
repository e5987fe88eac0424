p="/tmp/seed/seeds.py"; s=open(p).read()
i=s.index('seed("g09-node-id"'); s=s[:i]
s=s.replace('''(G+"linux/udp/SensorNetwork.cpp", "    return (this->_portNo == addr->_portNo) && (this->_IpAddr == addr->_IpAddr);", "    return ((this->_portNo ^ addr->_portNo) & 0x7fff) == 0 && (this->_IpAddr == addr->_IpAddr);")''','''(G+"linux/udp/SensorNetwork.cpp", "	return ((this->_portNo == addr->_portNo) && (this->_IpAddr == addr->_IpAddr));", "	return (((this->_portNo ^ addr->_portNo) & 0x7fff) == 0 && (this->_IpAddr == addr->_IpAddr));")''')
s+='''
seed("g09-node-id", property="G09", edits=[(G+"MQTTSNGWEncapsulatedPacket.cpp", "return memcmp(_nodeId, id._nodeId, _len) == 0;", "return strncmp((const char*) _nodeId, (const char*) id._nodeId, _len) == 0;")],
 needs="two nodes of one forwarder whose ids are equal up to a NUL byte", what="the second node is taken for the first one",
 py=\'\'\'
def t(g):
    f = Client(g, FP)
    f.send(encap(b"\\\\0\\\\1", connect(b"n1")))
    b = g.accept()
    b.packet()
    b.send(mconnack())
    assert f.recv() == encap(b"\\\\0\\\\1", sn(5, b"\\\\0"), 0) or True
    f.send(encap(b"\\\\0\\\\2", publish(1, 2, b"ab", 7, b"stolen")))
    p = b.packet(1)
    assert p is None, "published by the other node's client: %r" % p
FP = freeport(socket.SOCK_DGRAM)
run(t, "Forwarder=YES", {"clients.conf": "fw,127.0.0.1:%d,forwarder\\\\n" % FP})
\'\'\')
seed("g12-long-log", property="G12", edits=[(G+"MQTTSNGWPacket.cpp", "    int size = _bufLen > SIZE_OF_LOG_PACKET ? SIZE_OF_LOG_PACKET : _bufLen;\\n\\n    for (int i = 0; i < size; i++)\\n    {\\n        sprintf(*pptr, \\" %02X\\", *(_buf + i));\\n        *pptr += 3;", "    int size = _bufLen > 2 * SIZE_OF_LOG_PACKET ? SIZE_OF_LOG_PACKET : _bufLen;\\n\\n    for (int i = 0; i < size; i++)\\n    {\\n        sprintf(*pptr, \\" %02X\\", *(_buf + i));\\n        *pptr += 3;")],
 needs="a datagram of 506 to 1000 bytes (twice the length of a log line at most)", what="the log line overruns the buffer on the stack and the gateway dies",
 py=\'\'\'
def t(g):
    c, b = g.session(b"c1")
    for n in range(50, 1000, 50):
        c.send(publish(0, 2, b"ab", 0, b"x" * n))
        p = b.packet()
        assert p == mpublish(0, b"ab", 0, b"x" * n), "%d bytes: %r" % (n, p)
run(t)
\'\'\')
seed("g04-pubrel-flags", property="G04", edits=[(G+"MQTTGWPacket.cpp", "    if (msgType == PUBREL)\\n    {\\n        _header.bits.qos = 1;\\n    }", "    if (msgType == PUBREL && msgId < 0x8000)\\n    {\\n        _header.bits.qos = 1;\\n    }")],
 needs="PUBREL with a message id of 0x8000 or more", what="the PUBREL given to the broker has invalid flags",
 py=\'\'\'
def t(g):
    c, b = g.session(b"c1")
    for mid in (1, 0x7fff, 0x8000, 0xffff):
        c.send(publish(2, 2, b"ab", mid, b"x"))
        assert b.packet() == mpublish(2, b"ab", mid, b"x")
        b.send(mack(5, mid))
        assert c.recv() == ack(0x0f, mid)
        c.send(ack(0x10, mid))
        p = b.packet()
        assert p == mack(6, mid), "%r" % p
run(t)
\'\'\')
seed("g05-regack-drop", property="G05", edits=[(G+"MQTTSNGWClient.cpp", "        if (p->_msgId == REGACKMsgId)\\n        {\\n            return p->_packet;", "        if (p->_msgId <= REGACKMsgId)\\n        {\\n            return p->_packet;")],
 needs="two messages for new topics of which the second one is acknowledged first", what="REGACK of the second topic releases the message of the first topic, and the message is freed or lost",
 py=\'\'\'
def t(g):
    c, b = g.session(b"c1")
    c.send(subscribe(1, 5, 0, b"n/#"))
    b.packet()
    b.send(msuback(5, 1))
    assert c.recv()
    b.send(mpublish(0, b"n/a", 0, b"a"))
    r1 = c.recv()
    b.send(mpublish(0, b"n/b", 0, b"b"))
    r2 = c.recv()
    c.send(sn(0x0b, r2[2:6] + b"\\\\0"))
    p = c.recv()
    assert p and p[3:5] == r2[2:4] and p[-1:] == b"b", "%r" % p
run(t)
\'\'\')
seed("g06-unsub-predef", property="G06", edits=[(G+"MQTTSNGWSubscribeHandler.cpp", "            unsubscribe = new MQTTGWPacket();\\n            unsubscribe->setUNSUBSCRIBE(topic->getTopicName()->c_str(), msgId);", "            unsubscribe = new MQTTGWPacket();\\n            unsubscribe->setUNSUBSCRIBE(topic->getTopicName()->c_str(), topicFilter.type == MQTTSN_TOPIC_TYPE_PREDEFINED ? (uint8_t) msgId : msgId);")],
 needs="UNSUBSCRIBE of a predefined topic with a message id above 255", what="the message id is cut off",
 py=\'\'\'
def t(g):
    c, b = g.session(b"c1")
    c.send(subscribe(1, 0x1234, 1, 2))
    assert b.packet() == mq(0x82, b"\\\\x12\\\\x34" + mqs(b"p/all") + b"\\\\1")
    b.send(msuback(0x1234, 1))
    assert c.recv()
    c.send(unsubscribe(0x1235, 1, 2))
    p = b.packet()
    assert p == mq(0xa2, b"\\\\x12\\\\x35" + mqs(b"p/all")), "%r" % p
run(t, "PredefinedTopic=YES", {"predef.conf": "*,p/all,2\\\\n"})
\'\'\')
seed("g07-qos2-sleep", property="G07", edits=[(G+"MQTTGWPublishHandler.cpp", "            pubComp->setAck(PUBCOMP, (uint16_t) ack.msgId);", "            pubComp->setAck(PUBCOMP, (uint16_t) ack.msgId);\\n            client->deleteFirstClientSleepPacket();")],
 needs="a QoS 2 message for a sleeping client whose PUBREL arrives while it is still asleep", what="the first kept message is forgotten",
 py=\'\'\'
def t(g):
    c, b = g.session(b"c1")
    c.send(disconnect(600))
    assert c.recv() == disconnect()
    b.send(mpublish(2, b"ab", 9, b"x"))
    assert b.packet() == mack(5, 9)
    b.send(mack(6, 9))
    assert b.packet() == mack(7, 9)
    c.send(pingreq())
    b.packet()
    b.send(bytes([0xd0, 0]))
    got = c.drain()
    assert got == [publish(2, 2, b"ab", 9, b"x"), sn(0x17)], "%r" % got
run(t)
\'\'\')
'''
open(p,"w").write(s)
