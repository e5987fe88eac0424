#!/usr/bin/env python3
# Writes MANIFEST.json: claimed checks from CHECKS, every other property as not applicable.
import json
CHECKS = {}
def chk(pid, technique, level, note):
    CHECKS[pid] = dict(property=pid, quick_cmd=f"./run.sh {pid} quick", thorough_cmd=f"./run.sh {pid} thorough",
                       evidence_file=f"evidence/{pid}.json", technique=technique, level=level, level_note=note)
ENUM = "bounded exhaustive enumeration of inputs executed on the real code against a reference model"
chk("C01", ENUM, "exploration", "all values of every field one at a time, all flag combinations, lengths 0..600 and the largest; AddressSanitizer on exact-size buffers")
chk("C02", ENUM, "exploration", "every buffer size up to the packet size + 2 for the boundary alphabet; AddressSanitizer on exact-size buffers")
chk("C03", ENUM, "exploration", "all strings up to 2 bytes, structured strings up to 18 bytes, every truncation/extension/length change of the boundary alphabet")
chk("C04", ENUM, "exploration", "all 65532 body lengths, all first two bytes x datagram lengths")
MC = "explicit-state model checking of the running gateway: all packet sequences up to a depth, new states further, each transition executed on the real program and compared with a reference model"
chk("G01", MC, "model_checking", "all sequences of 19 kinds of packets/faults to depth 3 (thorough 5), new states to depth 12 (16); two clients; all durations, return codes, flags and lengths")
chk("G02", MC, "model_checking", "all sequences of 21 kinds of packets, broker faults and time steps to depth 3 (4), new states to depth 7 (16); two clients")
chk("G03", MC, "model_checking", "all sequences of 20 kinds of topic operations to depth 3 (4), new states to 5 (9); predefined topics; full topic table")
chk("G04", MC, "model_checking", "all sequences of 18 kinds of publish/ack steps to depth 3 (4), new states to 5 (9); two clients; all message ids and payload lengths")
chk("G05", MC, "model_checking", "all sequences of 19 kinds of broker publishes and acknowledgements to depth 3 (4), new states to 5 (8); lengths, ids, up to 40 new topics at once")
chk("G06", MC, "model_checking", "all sequences of 22 kinds of subscribe steps to depth 3 (4), new states to 5 (8); two clients; up to 21 unanswered in both orders")
chk("G07", MC, "model_checking", "all sequences of 20 kinds of sleep/wake/publish steps to depth 3 (4), new states to 5 (8); up to 20 kept messages")
chk("G08", MC, "model_checking", "three clients with related identifiers, address changes, listed clients: all sequences to depth 3 (4), new states further")
chk("G09", MC, "model_checking", "25 kinds of packets through a forwarder to depth 3 (4), three nodes of two forwarders and a direct client, a client which moves; all node id lengths and packet lengths up to 1000 bytes")
chk("G11", MC.replace(", new states further", ""), "model_checking", "up to three clients, 11-23 kinds of requests, broker answers and messages in seven situations to depth 3-4 (thorough 4-6); every message id in turn while requests are unanswered; 1152 unanswered requests; loss of the shared connection")
chk("G12", MC, "model_checking", "every truncation, length change and single-byte change of every client packet type in six session states, sequences of damaged and valid packets, all followed by probes of both clients; AddressSanitizer")
chk("G13", MC, "model_checking", "every cut of seven packet streams into up to 3 (thorough 4) reads, every read size up to 64; two connections' bytes in all orders to depth 3 (6), new states to 6 (9); every truncation, length change and byte change of 16 broker packets in six session states; AddressSanitizer")
chk("T02", "stateless model checking of the running gateway: all schedules of its tasks up to a preemption bound, also at every access to shared data, each result compared with a reference model", "model_checking", "36 exchanges of 1-3 packets which meet, with answering broker and clients; all schedules with up to 2 (two clients: 1; thorough: 3 within the time limit) preemptions or early time-outs, then a conversation which shows the state; all of them also with 1-2 (thorough 2) preemptions at every access to shared data")
chk("G10", MC, "model_checking", "14 kinds of packets, broker answers and faults in three configurations to depth 3 (thorough 5), new states to 7 (12); everything else such clients send; beside a connected client; continuous traffic; keep alive for up to 2800 s; all payload lengths up to 300")
chk("T01", "stateless model checking of the real queue under a controlled scheduler: all interleavings up to a preemption bound", "model_checking", "see evidence bounds; 2-3 threads which post, wait and wait with time-out, every scheduling point of locks and semaphores, and every access to shared data")
chk("T03", "stateless model checking of the running gateway: SIGINT at every scheduling point, all schedules up to a preemption bound", "model_checking", "19 situations; SIGINT at every point with up to 1-2 (thorough 2-3) further preemptions or early time-outs; then the program's destructors; some also at every access to shared data")
chk("T04", "stateless model checking of gateway log and log monitor as two processes sharing memory: all schedules up to a preemption bound, all sequences of steps", "model_checking", "all sequences of 4 (5) texts and reads from 26 (79) places around the end of the buffer, all sequences of 7 (9) starts, ends, texts and pauses, 9 races with 3 (4) preemptions and 1 (2) at every access to shared data")
chk("D01", ENUM, "model_checking", "every filter and name up to 6 characters over a small alphabet, and the deliveries which follow, against the MQTT matching rules")
chk("D02", ENUM, "model_checking", "all files of up to 3 (4) of the lines of an alphabet, with and without final newline, asked for every parameter; every line length around the buffer sizes; AddressSanitizer")
chk("G14", ENUM, "model_checking", "all clients lists and predefined topic lists of up to 3 (4) lines out of 11-13, each given to a running gateway which every client then probes with every topic, id and address")
chk("G15", MC, "model_checking", "17 kinds of packets to depth 3 (5), new states to 5 (12); all 255 gateway ids; 12 intervals under six kinds of traffic")
chk("X01", MC.replace("running gateway", "running driver"), "model_checking", "all sequences of 30 kinds of bytes to depth 2 (3), every cut in 2-3 parts, every byte value and payload length in both directions, all sequences of ten kinds of answers to three (four) packets; schedules of sending and receiving with up to 2 (3) preemptions; AddressSanitizer")
chk("X02", MC.replace("running gateway", "running driver"), "model_checking", "all sequences of 27 kinds of bytes to depth 2 (3), every cut in 2-3 parts, every byte value and payload length in both directions, all sequences of the modem's answers to three (four) packets; schedules of sending and receiving with up to 2 (3) preemptions; AddressSanitizer")
for u in ("X03", "X04"):
    chk(u, MC.replace("running gateway", "running driver"), "model_checking", "all sequences of 3 (4) of 18 kinds of steps on the real driver, every payload length in both directions, groups x hops, every failing call while opening, all pairs of addresses and one-bit neighbours; AddressSanitizer")
chk("X05", MC.replace("running gateway", "running driver"), "model_checking", "all sequences of 3 (4) of 20 (23) kinds of steps from two starting points on the real driver with up to three devices on three of its 30 channels, every packet length and cut, strings of rubbish, failing channels, all pairs of addresses; AddressSanitizer")
chk("G16", ENUM.replace("inputs", "configurations"), "model_checking", "about 1000 (thorough 1400) configurations, each given to the real gateway program, which is then probed with up to 90 packets against the reference model")
chk("G17", MC, "model_checking", "four configurations of 8-19 kinds of steps to depth 3-4 (4-6), new states to 5-7 (7-10), with one (two) failures of any of five system calls at every place")
NA = {}
props = [json.loads(l)["id"] for l in open(__file__.rsplit('/',2)[0] + "/properties.jsonl")]
m = dict(version=1, setup_cmd="./run.sh setup", checks=[CHECKS[p] for p in props if p in CHECKS],
         not_applicable=[dict(property=p, reason=NA.get(p, "check not built yet")) for p in props if p not in CHECKS],
         notes="Every check rebuilds its harness from /repo's working tree (build/ is keyed by a hash of the sources).")
json.dump(m, open(__file__.rsplit('/',2)[0] + "/MANIFEST.json", "w"), indent=1)
