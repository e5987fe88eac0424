#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/properties.py > properties.jsonl)."""
import json,sys
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
PK="MQTTSNPacket/src/"; GW="MQTTSNGateway/src/"; LX=GW+"linux/"; GT="MQTTSNGateway/GatewayTester/src/"

p("C01","MQTT-SN packets survive a serialise/deserialise round trip in the wire format",
  "For every MQTT-SN message type and every value of its fields, the serialiser writes exactly the bytes the MQTT-SN 1.2 wire format prescribes and the matching deserialiser returns the same field values. This includes payloads and strings on both sides of the one-byte/three-byte length header boundary, every flag combination and all topic kinds.",
  ["inputs"],"all message types x flag bits x boundary ids/durations x string and payload lengths around 0..4, 240..270, 500, 65520",
  "test1.c round-trips one hand-picked value set per message type; it never crosses the length-header boundary and compares the library only with itself.",
  [PK+"MQTTSNPacket.c",PK+"MQTTSNConnectClient.c",PK+"MQTTSNConnectServer.c",PK+"MQTTSNSerializePublish.c",PK+"MQTTSNDeserializePublish.c",PK+"MQTTSNSubscribeClient.c",PK+"MQTTSNSubscribeServer.c",PK+"MQTTSNUnsubscribeClient.c",PK+"MQTTSNUnsubscribeServer.c",PK+"MQTTSNSearchClient.c",PK+"MQTTSNSearchServer.c"],
  [("length header encode/decode","MQTTSNPacket.c MQTTSNPacket_encode/MQTTSNPacket_decode"),("per-message serialisers","MQTTSNSerialize_*"),("per-message deserialisers","MQTTSNDeserialize_*")],
  ["bytes in the caller's buffer","return value","output parameters"])
p("C02","Serialisers never write past the caller's buffer and report the true length",
  "For every packet the length field can express, a serialiser given a buffer of any size either returns the number of bytes of the packet it wrote, all inside the buffer and equal to the packet's own length field, or returns a value that is not positive. It never writes outside the buffer it was given.",
  ["inputs"],"every serialiser x every buffer size from 0 to the packet size + 2 x contents on both sides of the length-header boundary",
  "The tests always pass a buffer that is far larger than the packet.",
  [PK+"MQTTSNPacket.c",PK+"MQTTSNSerializePublish.c",PK+"MQTTSNConnectClient.c",PK+"MQTTSNConnectServer.c"],
  [("size check before writing","each MQTTSNSerialize_* compares MQTTSNPacket_len() with buflen")],["return value","bytes around the buffer"])
p("C03","Deserialisers accept arbitrary bytes without reading outside the packet",
  "Given any byte string of any length, a deserialiser reads only those bytes, and either reports failure or returns strings and payloads that lie entirely inside them. A packet that is cut short, whose length field announces more bytes than were supplied or fewer than its fixed fields need, or whose type is a different one, is never reported as successfully decoded.",
  ["inputs"],"all byte strings up to 4 bytes over a structural alphabet, and every truncation, extension and single-byte corruption of a corpus of valid packets, for every deserialiser",
  "The tests feed only well formed packets produced by the library itself.",
  [PK+"MQTTSNPacket.c",PK+"MQTTSNConnectServer.c",PK+"MQTTSNConnectClient.c",PK+"MQTTSNDeserializePublish.c",PK+"MQTTSNSubscribeServer.c",PK+"MQTTSNSubscribeClient.c",PK+"MQTTSNUnsubscribeServer.c",PK+"MQTTSNUnsubscribeClient.c",PK+"MQTTSNSearchClient.c",PK+"MQTTSNSearchServer.c"],
  [("length validation","MQTTSNPacket_decode and the checks at the head of every MQTTSNDeserialize_*")],["return value","returned pointers","memory accesses (exact-size buffers under AddressSanitizer)"])
p("C04","Packet framing finds exactly the packets that are complete",
  "Reading a packet from a datagram returns the type of the packet if and only if the length the packet announces, in its one-byte or three-byte form, is the length of the data; anything else is reported as a read error without reading outside the data. The helpers which compute, write and read the length of a packet agree for every length from 2 to 65535.",
  ["inputs"],"every packet length up to 65535, all values of the first two bytes x datagram lengths x buffer sizes",
  "The tests never read a packet back through the framing functions and use small lengths only.",
  [PK+"MQTTSNPacket.c"],[("framing","MQTTSNPacket_read/MQTTSNPacket_read_nb"),("length field","MQTTSNPacket_len/MQTTSNPacket_encode/MQTTSNPacket_decode")],["return value","memory accesses"])
p("G01","Client connection handshake is relayed faithfully to the broker",
  "For every CONNECT of a client which is not asleep the gateway sends the broker exactly one MQTT CONNECT that carries the client's id, keep alive, clean-session flag and will (topic, message, QoS, retain), and when a will is announced it does so only after the will topic and the will message have been collected in that order. The broker's CONNACK is answered to that client with the matching return code, and the client counts as connected only after an accepted one.",
  ["histories","inputs"],"all sequences of connect, will-topic, will-message, other client packets and broker replies up to the depth bound, over flag combinations",
  "No test drives a gateway: the gateway tests cover only queue, timer and topic-table classes.",
  [GW+"MQTTSNGWConnectionHandler.cpp",GW+"MQTTGWConnectionHandler.cpp",GW+"MQTTSNGWClient.cpp",GW+"MQTTGWPacket.cpp"],
  [("handshake","MQTTSNConnectionHandler::handleConnect/handleWilltopic/handleWillmsg"),("CONNACK relay","MQTTGWConnectionHandler::handleConnack")],["datagrams to clients","bytes on the broker connection"])
p("G02","Only connected clients are served and sessions end when they should",
  "Nothing is forwarded to the broker for a sender for which no connection has been requested, or whose session has ended by DISCONNECT, by a refused CONNECT or by loss of the broker connection; unless it answers a will request of its own CONNECT, a known client in that state is told so with a DISCONNECT when it sends anything but CONNECT, and a stranger is ignored. When a session ends because the client asked, the broker receives an MQTT DISCONNECT and its connection is closed; a broken broker connection is closed and never used again.",
  ["histories","fault_sequences"],"all sequences of client packets, broker packets, broker connection faults and clock ticks up to the depth bound",
  "No test drives a gateway through a session, and none lets time pass or the broker fail.",
  [GW+"MQTTSNGWClient.cpp",GW+"MQTTSNGWPacketHandleTask.cpp",GW+"MQTTSNGWBrokerRecvTask.cpp",GW+"MQTTSNGWBrokerSendTask.cpp",GW+"MQTTSNGWConnectionHandler.cpp"],
  [("status machine","Client::updateStatus"),("keep-alive check","PacketHandleTask::run / Client::checkTimeover")],["datagrams to clients","bytes and closes on the broker connection"])
p("G03","Topic ids identify exactly one topic per client for the whole session",
  "Every topic id the gateway gives a client in REGACK, SUBACK or REGISTER is non-zero and stands for one topic name of that client until its session is reset: registering or subscribing the same name again yields the same id, different names get different ids, and a later publish with that id reaches exactly that topic name. A name the gateway itself must introduce to the client is registered before it is used.",
  ["histories"],"all sequences of register, subscribe, publish and broker publish operations over several topic names and clients up to the depth bound, including table overflow",
  "TestTopics exercises the topic table class with one fixed sequence and never through the protocol.",
  [GW+"MQTTSNGWTopic.cpp",GW+"MQTTSNGWPublishHandler.cpp",GW+"MQTTGWPublishHandler.cpp",GW+"MQTTSNGWSubscribeHandler.cpp"],
  [("id allocation","Topics::add / Topics::getNextTopicId"),("gateway-initiated REGISTER","MQTTGWPublishHandler::handlePublish")],["REGACK/SUBACK/REGISTER datagrams","topic names in broker PUBLISH packets"])
p("G04","Client publications reach the broker intact and acknowledgements come back",
  "Every PUBLISH from a connected client with a known topic is forwarded to that client's broker connection exactly once per received packet, with the topic name its id stands for and unchanged payload, QoS, retain, DUP and message id. Each broker PUBACK, PUBREC, PUBREL or PUBCOMP reaches the client that owns the connection with the same message id (and topic id for PUBACK), and client PUBREL, PUBREC, PUBCOMP and PUBACK reach the broker likewise; an unknown topic id is refused with a PUBACK and never forwarded.",
  ["histories","inputs"],"all interleavings of publishes and acknowledgements over QoS 0-2, normal/predefined/short topics and payload lengths up to the depth bound",
  "No test sends a PUBLISH through the gateway.",
  [GW+"MQTTSNGWPublishHandler.cpp",GW+"MQTTGWPublishHandler.cpp",GW+"MQTTGWPacket.cpp",GW+"MQTTSNGWPacket.cpp"],
  [("publish translation","MQTTSNPublishHandler::handlePublish"),("ack translation","MQTTGWPublishHandler::handlePuback/handleAck")],["broker bytes","client datagrams"])
p("G05","Broker publications reach an active client intact",
  "Every PUBLISH the broker sends on a client's connection is delivered to that active client exactly once per received packet, with unchanged payload, QoS, retain, DUP and message id and with a topic id (or short topic name) that stands for the published topic. If the topic is new to the client the gateway first registers it and delivers the message only after the client has acknowledged, and drops it if the client refuses.",
  ["histories","inputs"],"all interleavings of broker publishes, REGACKs and client packets over QoS 0-2, known, new, short and predefined topics and payload lengths up to the depth bound",
  "No test sends a broker PUBLISH through the gateway.",
  [GW+"MQTTGWPublishHandler.cpp",GW+"MQTTSNGWPublishHandler.cpp",GW+"MQTTSNGWClient.cpp"],
  [("publish translation","MQTTGWPublishHandler::handlePublish"),("pending REGACK list","WaitREGACKPacketList, MQTTSNPublishHandler::handleRegAck")],["client datagrams"])
p("G06","Subscriptions and unsubscriptions are relayed and correlated",
  "Every SUBSCRIBE or UNSUBSCRIBE of a connected client is relayed to the broker with the topic filter it names (by name, short name or predefined id), the requested QoS and the same message id. The broker's SUBACK or UNSUBACK is answered to the requesting client with that message id, the granted QoS or rejection and the topic id of that very subscription, in whatever order several answers arrive; an unknown predefined id is refused without involving the broker.",
  ["histories","inputs"],"all interleavings of up to three outstanding subscribe/unsubscribe operations and their broker answers, in any order, over all topic kinds",
  "No test subscribes through the gateway; TestTopicIdMap checks the pending table with one fixed sequence.",
  [GW+"MQTTSNGWSubscribeHandler.cpp",GW+"MQTTGWSubscribeHandler.cpp",GW+"MQTTSNGWTopic.cpp"],
  [("pending subscribe table","TopicIdMap"),("relay","MQTTSNSubscribeHandler, MQTTGWSubscribeHandler")],["broker bytes","client datagrams"])
p("G07","Sleeping clients miss nothing and are left alone while asleep",
  "While a client is asleep the gateway sends it no application message; broker messages for it are acknowledged and kept in order, as many as there is room for. When it wakes with PINGREQ or reconnects every kept message is delivered exactly once, in arrival order, and a wake-up by PINGREQ is concluded with one PINGRESP after the last of them.",
  ["histories","fault_sequences"],"all sequences of sleep, wake, broker publish, acknowledgement and reconnect operations up to the depth bound",
  "No test puts a client to sleep.",
  [GW+"MQTTGWPublishHandler.cpp",GW+"MQTTSNGWConnectionHandler.cpp",GW+"MQTTSNGWClient.cpp",GW+"MQTTSNGWPacketHandleTask.cpp"],
  [("message store","Client::setClientSleepPacket"),("wake-up","MQTTSNConnectionHandler::handlePingreq / sendStoredPublish")],["client datagrams"])
p("G08","Clients are isolated from one another",
  "Whatever any other client or unknown sender does, a packet from one network address only ever acts on the session of the client at that address: what a client publishes, subscribes or registers goes to its own broker connection, and what its broker connection delivers goes to its own address. A new client is never given another client's session because their identifiers merely resemble each other.",
  ["histories","inputs"],"all interleavings of operations of up to three clients with related identifiers (prefixes, equal, empty) and addresses up to the depth bound",
  "No test has two clients.",
  [GW+"MQTTSNGWClientList.cpp",GW+"MQTTSNGWClientRecvTask.cpp",GW+"MQTTSNGWBrokerRecvTask.cpp"],
  [("client lookup","ClientList::getClient"),("dispatch","ClientRecvTask::run")],["broker connections","client datagrams"])
p("G09","Traffic through a forwarder behaves like direct traffic",
  "A client whose packets arrive inside forwarder encapsulation gets the same service as a directly connected client: the gateway acts on the inner packet, and everything it sends that client is encapsulated with the same wireless node id and goes to that forwarder's address. Encapsulated packets from a sender that is not a configured forwarder are ignored.",
  ["histories","inputs"],"every sequence of the direct-traffic alphabet up to the depth bound replayed through one or two forwarders with node ids of all lengths",
  "No test uses a forwarder.",
  [GW+"MQTTSNGWEncapsulatedPacket.cpp",GW+"MQTTSNGWForwarder.cpp",GW+"MQTTSNGWClientRecvTask.cpp",GW+"MQTTSNGWClientSendTask.cpp"],
  [("decapsulation","MQTTSNGWEncapsulatedPacket::desirialize"),("encapsulation","ClientSendTask::run")],["client datagrams"])
p("G10","QoS -1 publications need no connection and reach the broker once",
  "With the QoS -1 proxy enabled, a QoS -1 PUBLISH from a configured client is forwarded exactly once, as an at-most-once publish with the topic its predefined id (the client's own or a common one) or short name denotes and the same payload, over the proxy's own broker connection; without such a connection it is discarded, and it is never forwarded over another one. The gateway opens that connection within seconds, keeps it alive and replaces it when it is lost or refused or the broker no longer answers, however much traffic there is. Other packets from such clients are never forwarded, and other clients are served as usual.",
  ["histories","fault_sequences"],"all sequences of QoS -1 publishes, broker answers, broker failures and time steps up to the depth bound; every payload length, predefined id and kind of short name",
  "No test uses QoS -1.",
  [GW+"MQTTSNGWQoSm1Proxy.cpp",GW+"MQTTSNGWAdapter.cpp",GW+"MQTTSNGWPublishHandler.cpp",GW+"MQTTSNGWClientRecvTask.cpp",GW+"MQTTSNGWPacketHandleTask.cpp"],
  [("proxy","QoSm1Proxy, Adapter::send, Proxy::checkConnection"),("conversion","BrokerSendTask::run")],["broker bytes"])
p("G11","Aggregation shares one broker connection without mixing clients up",
  "With the aggregating gateway enabled, all clients share one broker connection. Each SUBSCRIBE, UNSUBSCRIBE and PUBLISH of a connected client (QoS 0 to 2, PUBREL included) is relayed on it unchanged but for its message id, which is not in use by any other outstanding request and stays the same when the client repeats the request; the broker's answer comes back to the client that asked, and to nobody else, with that client's own message id, whatever order answers come in. A broker publication is acknowledged to the broker once and goes once to every client that has asked for a matching subscription and is connected, or is kept for it while it sleeps, and to no other client; one client's UNSUBSCRIBE or new session does not take a subscription away from another, and after the shared connection has been replaced requests are served as before.",
  ["histories"],"all sequences of 11-23 kinds of requests of two or three clients and broker answers to the depth bound, after prefixes which set up subscriptions, topics and sleeping clients; every message id in turn",
  "No test uses the aggregating gateway.",
  [GW+"MQTTSNGWAggregater.cpp",GW+"MQTTSNGWMessageIdTable.cpp",GW+"MQTTSNAggregateConnectionHandler.cpp",GW+"MQTTSNGWAggregateTopicTable.cpp"],
  [("message id mapping","MessageIdTable"),("fan-out","AggregateTopicTable")],["broker bytes","client datagrams"])
p("G12","No datagram can crash the gateway or disturb other clients",
  "Any sequence of datagrams, however malformed, from any sender leaves the gateway running and memory-safe: a malformed datagram is discarded and every other client is served exactly as if it had never arrived.",
  ["inputs","histories"],"every truncation, length-field lie and single-byte corruption of every client packet type, in every session state",
  "The gateway is never fed a packet by any test.",
  [GW+"MQTTSNGWClientRecvTask.cpp",GW+"MQTTSNGWPacket.cpp",GW+"MQTTSNGWEncapsulatedPacket.cpp",GW+"MQTTSNGWPacketHandleTask.cpp"],
  [("receive path","MQTTSNPacket::recv, ClientRecvTask::run")],["process survival (AddressSanitizer)","client datagrams","broker bytes"])
p("G13","The broker byte stream is parsed the same however TCP splits it",
  "However the bytes from the broker are split into reads, the gateway acts on the same sequence of MQTT packets as if each had arrived whole. Malformed or truncated broker data never corrupts memory: at worst that broker connection is dropped and its client told, and other clients are unaffected.",
  ["inputs","fault_sequences"],"every split of multi-packet broker streams into at most k reads, and every truncation and single-byte corruption of each broker packet type",
  "No test connects a broker.",
  [GW+"MQTTGWPacket.cpp",GW+"MQTTSNGWBrokerRecvTask.cpp",LX+"Network.cpp"],
  [("packet reader","MQTTGWPacket::recv / getAll"),("dispatch","BrokerRecvTask::run")],["client datagrams","process survival"])
p("T01","Event queues lose, duplicate or reorder nothing under any interleaving",
  "For every interleaving of posting and waiting threads, each event posted to a queue with room is received exactly once, in posting order, and a thread waiting while an event is available is always woken. A full queue rejects the event without corrupting the others.",
  ["schedules"],"all interleavings (up to a preemption bound) of 2-3 producing, waiting and timed-waiting threads with up to 4 events each, queues of all sizes up to 3, at locks and semaphores and at every access to shared data",
  "TestTask posts from one thread and checks the outcome of whatever single schedule happened.",
  [GW+"MQTTSNGateway.cpp",GW+"MQTTSNGWProcess.h",LX+"Threading.cpp"],
  [("event queue","EventQue::post/wait/timedwait"),("locks","Mutex, Semaphore")],["events returned to consumers"])
p("T02","Gateway results do not depend on how its threads interleave",
  "When packets from clients and from the broker, answers and closed connections meet in the gateway, every client and every broker connection is sent what handling them one after another, in some order that keeps each sender's own, would send it, whatever the interleaving of the gateway's threads; only a packet whose session ends at the same moment may be lost with it. No interleaving deadlocks or ends the gateway, and afterwards every session is served as usual.",
  ["schedules"],"all interleavings at locks, queues and I/O with at most k preemptions or early time-outs, and the same with fewer of them where also every access to data which the threads share is such a place, of 36 exchanges in which connects, wills, publishes, messages, sleeping and waking, subscriptions, disconnects and lost connections of one or two clients meet",
  "The tests run single-threaded or under one uncontrolled schedule, and none runs the gateway's tasks.",
  [GW+"MQTTSNGWClientRecvTask.cpp",GW+"MQTTSNGWPacketHandleTask.cpp",GW+"MQTTSNGWBrokerSendTask.cpp",GW+"MQTTSNGWBrokerRecvTask.cpp",GW+"MQTTSNGWClientSendTask.cpp",GW+"MQTTSNGWClientList.cpp",LX+"Network.cpp"],
  [("task hand-over","EventQue"),("client list lock","ClientList::_mutex"),("connection owner","Client::closeConnection, TCPStack::recv")],["client datagrams","broker bytes","deadlock"])
p("T03","The gateway ends when it is told to, whatever it is doing",
  "After SIGINT all threads of the gateway come to their end and the process exits by itself within seconds, without a crash, whatever the gateway was doing, starting or waiting for, however full its queues were, and however its threads interleave.",
  ["schedules","fault_sequences"],"SIGINT at every scheduling point of 19 situations, all schedules with at most k further preemptions or early time-outs (in some also at every access to shared data), then the destructors of the whole program",
  "TestTask and TestProcess stop idle threads under one uncontrolled schedule.",
  [GW+"MQTTSNGWProcess.cpp",GW+"MQTTSNGateway.cpp",GW+"MQTTSNGWPacketHandleTask.cpp",GW+"MQTTSNGWClientRecvTask.cpp",GW+"MQTTSNGWBrokerRecvTask.cpp",LX+"Threading.cpp"],
  [("stop","MultiTaskProcess::run, Gateway::run, EtStop events"),("destructors","Gateway::~Gateway, ClientList::~ClientList")],["thread and process end"])
p("T04","The log monitor shows what the gateway logs",
  "With ShearedMemory=YES the log monitor shows every text which the gateway's threads log, as it is, exactly once, whole and, for each thread, in the order logged, until it is ended by SIGINT; only the oldest text is lost, and only when more than 16000 bytes are waiting to be read. Log monitors may start and end (by SIGINT) and gateways may start and end at any time and in any order: no thread of the gateway is ended, blocked for good or made to write outside the shared memory by it, a monitor finds the log of the gateway whose configuration file it is given from whatever directory it is started, and when all of them have ended no shared memory is left behind.",
  ["schedules","histories"],"all sequences of texts of five lengths and of reads from places all around the end of the buffer; all sequences of gateways and monitors starting, ending, logging and waiting; all schedules with at most k preemptions, also at every access to shared data, of one to three logging threads and a monitor which reads (also from a full buffer), starts or ends",
  "No test starts a log monitor, wraps the log or has two processes share it.",
  [GW+"MQTTSNGWProcess.cpp",LX+"Threading.cpp",GW+"MQTTSNGWLogmonitor.cpp"],
  [("log","Process::putLog / getLog / resetRingBuffer, Logmonitor::run"),("shared memory","RingBuffer"),("lock and semaphore of two processes","Mutex(const char*), NamedSemaphore")],["text read by the monitor","memory accesses","shared memory segments","process survival"])
p("D01","Topic filters match exactly the topic names MQTT says they match",
  "A topic filter with or without the + and # wildcards matches a topic name if and only if the MQTT matching rules say so, for every pair of well formed filter and name.",
  ["inputs"],"all filters and names up to six characters over the alphabet a b / + # (names without wildcards)",
  "TestTopics checks a handful of filter/name pairs.",
  [GW+"MQTTSNGWTopic.cpp"],[("matcher","Topic::isMatch")],["match verdict","deliveries to clients"])
p("D02","Configuration parameters are what the configuration file says",
  "The value of a configuration parameter is the text behind the first line that consists of its name, immediately followed by '=', and a value, without the white space around the value; a parameter without such a line is reported as missing. Comment lines, empty lines and lines without '=' have no effect, nor does it matter whether the last line ends with a newline. Lines which are too long for the gateway never damage its memory or change other parameters.",
  ["inputs"],"all configuration files of up to three (thorough: four) lines over an alphabet of lines, with and without a final newline, and one line of every length around the buffer sizes",
  "TestProcess reads one well formed file.",
  [GW+"MQTTSNGWProcess.cpp"],[("line reader","Process::getParam")],["value returned by Process::getParam","memory accesses"])
p("G14","The clients list and the list of predefined topics mean what they say",
  "Each line of the predefined topic list gives exactly the named client (or, for *, every client) the named topic under the given id, and each line of the clients list names one client, QoS -1 client or forwarder with its address; white space, comment lines, empty lines, the kind of line end, malformed lines and options other than those given have no effect on any other line. With client authentication, clients which are not listed, or come from another address than the listed one, are not served.",
  ["inputs","histories"],"all files of up to three (thorough: four) lines over an alphabet of 11 to 13 lines, each followed by probes of every topic id by every client and of every id from every address and forwarder",
  "No test reads a list file into a gateway.",
  [GW+"MQTTSNGWClientList.cpp",GW+"MQTTSNGWAdapterManager.cpp",GW+"MQTTSNGateway.cpp",GW+"MQTTSNGWForwarder.cpp"],
  [("clients list","ClientList::setClientList"),("predefined topics","ClientList::readPredefinedList / createPredefinedTopic"),("authentication","ClientRecvTask::run")],["datagrams to clients","bytes on the broker connections"])
p("G15","Clients can discover the gateway at any time",
  "Every SEARCHGW is answered by exactly one GWINFO with the gateway's id, sent to the multicast group, whatever else is happening. The gateway multicasts ADVERTISE with its id and the advertised interval about every interval (at most 2.7 seconds late, and never early), however much or little traffic there is. ADVERTISE and GWINFO of other gateways, and malformed SEARCHGW packets, have no effect.",
  ["histories","inputs"],"all sequences of searches, advertisements of others and ordinary traffic up to the depth bound; all gateway ids; intervals of 1 to 65535 seconds under six kinds of traffic",
  "No test runs a gateway.",
  [GW+"MQTTSNGWPacketHandleTask.cpp",GW+"MQTTSNGWClientRecvTask.cpp",GW+"MQTTSNGWClientSendTask.cpp",GW+"MQTTSNGWPacket.cpp"],
  [("advertising","PacketHandleTask::run, _advertiseTimer"),("search","MQTTSNAggregateConnectionHandler / MQTTSNConnectionHandler::handleSearchgw")],["multicast datagrams"])
p("X01","An XBee network delivers packets whole, unaltered and to the right node",
  "With an XBee as sensor network, every receive frame with a right checksum hands its payload, up to the longest a frame of 255 bytes can hold, and its sender's 64 and 16 bit addresses to the gateway exactly once, however the bytes are split on the serial line; damaged, truncated, foreign and malformed frames and noise are never taken for packets, never damage memory, and after a pause the next frame is received. Each packet sent becomes exactly one well formed transmit request with a non-zero frame id other than the one before, and sending succeeds if and only if the module reports the delivery of that very frame within about five seconds; a packet which no frame can hold is refused. Both API modes (with and without escapes) behave alike.",
  ["inputs","fault_sequences","schedules"],"all sequences of two (thorough: three) of 30 kinds of bytes on the line, every cut of every kind in two or three parts, every byte value at every place of a frame, every payload length, all sequences of the module's ten kinds of answer to three packets; all schedules of a sending and the receiving thread with at most k preemptions",
  "No test contains the XBee driver.",
  [LX+"xbee/SensorNetwork.cpp"],[("receiving","XBee::recv / readApiFrame"),("sending","XBee::send"),("serial line","SerialPort")],["bytes on the serial line","packets and addresses given to the gateway","results of unicast and broadcast"])
p("X02","A LoRaLink network delivers packets whole, unaltered and to the right node",
  "With LoRaLink as sensor network, every data frame with a right checksum hands its payload of 1 to 256 bytes and its sender's address to the gateway exactly once, however the bytes are split on the receiving modem's line and whatever the transmitting modem says meanwhile; damaged, truncated, foreign and malformed frames and noise are never taken for packets, never damage memory, and after a pause the next frame is received. Each packet sent becomes exactly one well formed transmit frame, and sending succeeds if and only if the modem acknowledges it; an answer which comes too late has no effect on later packets, and a packet which no frame can hold is refused. Only the numbers 1 to 254 are addresses of nodes.",
  ["inputs","fault_sequences","schedules"],"all sequences of two (thorough: three) kinds of bytes on the lines, every cut of every kind in two or three parts, every byte value at every place of a frame, every payload length, all sequences of the modem's kinds of answer to three (four) packets; all schedules of a sending and the receiving thread with at most k preemptions",
  "No test contains the LoRaLink driver.",
  [LX+"loralink/SensorNetwork.cpp",LX+"loralink/SensorNetwork.h"],[("receiving","LoRaLink::recv / readApiFrame"),("sending","LoRaLink::send / transmit"),("serial line","SerialPort")],["bytes on the serial lines","packets and addresses given to the gateway","results of unicast and broadcast"])
for v,six in (("X03",""),("X04","6")):
  p(v,"A UDP%s network delivers datagrams whole, unaltered and to the right node" % (" over IPv6" if six else ""),
  "With UDP%s as sensor network, every datagram of 1 to 1024 bytes which arrives at the unicast or the multicast port is handed to the gateway exactly once, unaltered, in the order of its port, with its sender's address; longer ones never damage memory. A unicast is one datagram with exactly the given bytes from the unicast port to exactly the host and port of the address%s, a broadcast one to the configured group and port with the configured number of hops, and one which the system refuses is reported as failed. Two addresses match if and only if host and port are equal, whether they were received or given as text, and only well formed texts with a valid port are addresses. Interrupted or failed calls lose nothing which can still be read, waiting takes no processor time, and a network which could not be opened completely is reported instead of used." % (six, " (and its scope)" if six else ""),
  ["inputs","fault_sequences"],"all sequences of three (thorough: four) of 18 steps: datagrams from six senders to both ports, several at once, empty ones, failing calls, answers and broadcasts; every length from 1 to 1024; groups x hops; the failure of every socket, bind and setsockopt while opening; %d texts of addresses, all pairs of addresses, and senders differing in one bit" % (165 if six else 99),
  "No test opens a socket.",
  [LX+"udp%s/SensorNetwork.cpp"%six,LX+"udp%s/SensorNetwork.h"%six],[("receiving","UDPPort%s::recv / recvfrom"%six),("sending","UDPPort%s::unicast / broadcast"%six),("opening","UDPPort%s::open, SensorNetwork::initialize"%six),("addresses","SensorNetAddress::setAddress / isMatch")],["sockets and their options","datagrams","packets and addresses given to the gateway","results of unicast, broadcast and opening"])
p("X05","A Bluetooth RFCOMM network delivers packets whole, unaltered and to the right device",
  "With RFCOMM as sensor network, every packet of up to 1024 bytes which a device sends on the channel it has connected to is handed to the gateway exactly once, unaltered, in the device's order and with the address and channel of that very device, however its bytes are split or run together on the connection and whatever other devices do at the same time. A packet for a device goes to the connection of that device on that channel and nowhere else, and is reported as failed if that device is not connected; a broadcast goes once to every connected device. When a device hangs up or is lost its connection is closed and the next one is served on the channel, without anything left over from the one before, and nothing ends the gateway. Only device addresses with the channels 1 to 30 (or * for none) are addresses, and two match if and only if both parts are equal. Channels which cannot be opened are not used, and the gateway is told when there is none.",
  ["inputs","fault_sequences","event_orders"],"all sequences of three (thorough: four) of 20 (23) steps, with and without devices already connected: connections to three channels, packets alone, on all channels at once, run together or in parts, hang-ups, resets, answers to all devices of the past, broadcasts; every packet length and cut; all strings of three (four) of nine bytes; failing socket and bind on each channel; texts and all pairs of addresses",
  "No test contains the RFCOMM driver.",
  [LX+"rfcomm/SensorNetwork.cpp",LX+"rfcomm/SensorNetwork.h"],[("receiving","SensorNetwork::read, RfcommPort::recv / getPacket / accept"),("sending","SensorNetwork::unicast / broadcast"),("opening","RfcommPort::open"),("addresses","SensorNetAddress::setAddress / isMatch")],["bytes on the connections","connections closed","packets and addresses given to the gateway","results of unicast and opening"])
p("G16","Every documented parameter of the gateway has its documented effect",
  "A gateway connects to exactly the configured broker host and port, listens on exactly the configured unicast and multicast ports and group, sends all datagrams from its unicast port and multicasts with the configured TTL, tells the broker exactly the configured login, password and MQTT version, names its QoS -1 proxy after its configured name, and uses the clients and topic lists it is told to use, and no others. QoS-1, Forwarder, PredefinedTopic and ClientAuthentication are on if and only if the value is YES in any case, independently of one another. It serves MaxNumberOfClients clients, an adapter being two, and no more, and loses nothing of the ten packets each of up to eight of them may send at once. Missing parameters have their defaults; without a valid GatewayID (1 to 255), a name, ports, a multicast group or TTL, or a list it needs, or with fewer clients than its adapters need, the gateway refuses to start without crashing. The configuration is the file given with -f, or gateway.conf.",
  ["inputs","configurations"],"all 256 combinations of four values of the four switches and 128 with other words, hosts x ports, logins x passwords x versions, ports x groups x TTLs, invalid ids, names, paths of the lists and the configuration, client limits from 1 to 13108",
  "No test starts a gateway with a configuration.",
  [GW+"MQTTSNGateway.cpp",GW+"MQTTSNGWProcess.cpp",GW+"MQTTSNGWClientList.cpp",GW+"MQTTSNGWAdapter.cpp",GW+"MQTTSNGWQoSm1Proxy.cpp",GW+"MQTTSNGWForwarder.cpp",LX+"udp/SensorNetwork.cpp",LX+"Network.cpp"],
  [("parameters","Gateway::initialize"),("sockets","SensorNetwork::initialize, UDPPort::open"),("broker","BrokerSendTask::run, TCPStack::connect"),("limit","ClientsPool::allocate / getClient")],["sockets and their options","datagrams","bytes on the broker connections","whether the gateway starts"])
p("G17","Failing system calls do not disturb the gateway",
  "When sending or receiving a datagram, reading a broker connection, or waiting for either fails or is interrupted once, at any point of any conversation, the gateway behaves just as if nothing had happened, or as if that one datagram had been lost in the network: no other packet, session, client or connection is affected, and nothing crashes or stops.",
  ["fault_sequences","histories"],"all sequences of up to 20 kinds of steps of one or two clients, awake, asleep or behind a forwarder, up to the depth bound, with a failure of sendto, poll, select, recvfrom or recv at every place (thorough: two)",
  "The tests run no gateway and inject no faults.",
  [GW+"MQTTSNGWClientSendTask.cpp",GW+"MQTTSNGWClientRecvTask.cpp",GW+"MQTTSNGWBrokerRecvTask.cpp",GW+"MQTTGWPacket.cpp",LX+"udp/SensorNetwork.cpp",LX+"Network.cpp"],
  [("datagrams","UDPPort::unicast / recv"),("broker connections","BrokerRecvTask::run, TCPStack::recv")],["datagrams to clients","bytes on the broker connections"])
json_lines=[json.dumps(x) for x in P]
print("\n".join(json_lines))
