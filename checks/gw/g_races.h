#include "schedule.h"
// T02: packets which meet in the gateway.  The stimuli of a batch arrive together, answers of the broker
// as soon as the packet they answer is sent, and every schedule of the gateway's tasks with at most
// `bound` preemptions or premature time-outs is run.  What is sent must be explained by the reference
// model for some order of the arrivals; then a fixed conversation shows that the state is right as well.
struct Race
{
	std::string name;
	std::vector<Ev> prefix, batch, after;
	// what the broker answers at once to a packet on a connection
	std::function<std::vector<B>(const B&)> answer;
	bool clients = false;		// clients answer at once as well
	std::function<void(Scn&)> conf;
};

static std::vector<B> brokerAnswers(const B& p)
{
	B b = p.size() > 1 ? Model::mqBody(p) : B();
	switch (gwm::u8(p, 0) >> 4)
	{
	case w::m::CONNECT: return { mq::connack(0) };
	case w::m::SUBSCRIBE: return { mq::suback(gwm::u16(b, 0), gwm::u8(b, b.size() - 1)) };
	case w::m::UNSUBSCRIBE: return { mq::ack(mq::UNSUBACK, gwm::u16(b, 0)) };
	case w::m::PINGREQ: return { mq::pingresp() };
	case w::m::PUBLISH:
	{
		int q = gwm::u8(p, 0) >> 1 & 3;
		if (!q)
			return {};
		int id = gwm::u16(b, 2 + gwm::u16(b, 0));
		return { mq::ack(q == 1 ? mq::PUBACK : mq::PUBREC, id) };
	}
	case w::m::PUBREL: return { mq::ack(mq::PUBCOMP, gwm::u16(b, 0)) };
	case w::m::PUBREC: return { mq::ack(mq::PUBREL, gwm::u16(b, 0)) };
	}
	return {};
}

// what a client answers at once
static std::vector<B> clientAnswers(const B& d)
{
	int type;
	B b, wrap;
	B p = d;
	if (p.size() > 3 && gwm::u8(p, 1) == 0xfe)
	{
		size_t n = gwm::u8(p, 0);
		B node = p.substr(3, n - 3);
		p = p.substr(n);
		std::vector<B> out;
		for (auto& a : clientAnswers(p))
			out.push_back(w::encap(node, a));
		return out;
	}
	if (!Model::split(p, type, b))
		return {};
	switch (type)
	{
	case w::WILLTOPICREQ: return { w::willtopic("w/t", 1, 0) };
	case w::WILLMSGREQ: return { w::willmsg("gone") };
	case w::REGISTER: return b.size() < 4 ? std::vector<B>() : std::vector<B> { w::regack(gwm::u16(b, 0), gwm::u16(b, 2), 0) };
	case w::PUBLISH:
	{
		int q = gwm::u8(b, 0) >> 5 & 3;
		if (q == 1)
			return { w::puback(gwm::u16(b, 1), gwm::u16(b, 3), 0) };
		if (q == 2)
			return { w::ack(w::PUBREC, gwm::u16(b, 3)) };
		return {};
	}
	case w::PUBREC: return { w::ack(w::PUBREL, gwm::u16(b, 0)) };
	case w::PUBREL: return { w::ack(w::PUBCOMP, gwm::u16(b, 0)) };
	}
	return {};
}

static void modelRace(Model& m, const std::vector<Stim>& batch, const std::function<std::vector<B>(const B&)>& answer, bool clients, const gw::Seen& real)
{
	std::vector<std::pair<B, std::deque<Stim>>> src;
	auto add = [&](const Stim& s) {
		B k = s.kind == Stim::DGRAM ? "d" + gw::show(s.from) : "c" + std::to_string(s.conn);
		for (auto& x : src)
			if (x.first == k)
			{
				x.second.push_back(s);
				return;
			}
		src.push_back({ k, { s } });
	};
	for (auto& s : batch)
		add(s);
	std::map<int, size_t> seen;
	std::map<Addr, size_t> seenDg;
	m.racing = true;
	m.ended.clear();
	while (true)
	{
		std::vector<size_t> can;
		for (size_t i = 0; i < src.size(); i++)
			if (!src[i].second.empty())
				can.push_back(i);
		if (can.empty())
			break;
		size_t pick = can.back();
		for (size_t k = 0; k + 1 < can.size(); k++)
			if (!m.choose())
			{
				pick = can[k];
				break;
			}
		Stim s = src[pick].second.front();
		src[pick].second.pop_front();
		applyModel(m, s);
		for (auto& c : m.broker)
			for (; c.first >= 0 && seen[c.first] < c.second.size(); seen[c.first]++)
			{
				const B& x = c.second[seen[c.first]];
				if (x[0] == 'D')
					for (auto& a : answer(x.substr(1)))
					{
						Stim r;
						r.kind = Stim::BROKER;
						r.conn = c.first;
						r.data = a;
						add(r);
					}
			}
		if (!clients)
			continue;
		for (auto& d : m.dg)
			for (size_t& k = seenDg[d.first]; k < d.second.size(); k++)
			{
				// ids the gateway chose are known from what was sent
				gwm::Exp& e = d.second[k];
				auto g = real.dg.find(d.first);
				if (e.hole != -1 && g != real.dg.end() && k < g->second.size())
				{
					gwm::Exp was = e;
					if (Model::one(m, was, g->second[k]).empty())
					{
						e.bytes = g->second[k];
						e.hole = -1;
						e.adopt = nullptr;
					}
				}
				for (auto& a : clientAnswers(e.bytes))
					add(dgram(d.first, a));
			}
	}
	m.racing = false;
	m.ended.clear();
}

static void runRace(const Race& r, int bound, int dataBound)
{
	auto answer = r.answer ? r.answer : brokerAnswers;
	std::vector<Stim> batch;
	std::string names;
	for (auto& e : r.batch)
	{
		Stim s = e.make(W.o.m());
		if (s.kind == Stim::NONE)
			ex::violation("harness: " + e.name + " not possible");
		batch.push_back(s);
		names += (names.empty() ? "" : " || ") + describe(e, s);
	}
	ex::traceText.push_back(names);
	std::map<int, B> part;
	Addr r_mcast = W.o.m().cfg.mcast;
	vos::onOut = [&](const vos::Out& o) {
		if (o.kind == vos::Out::DGRAM && r.clients && o.ip != r_mcast.ip)
			for (auto& a : clientAnswers(o.data))
				gw::datagram(Addr { o.ip, o.port }, a);
		if (o.kind != vos::Out::DATA)
			return;
		part[o.conn] += o.data;
		vos::SockP s = vos::conn(o.conn);
		if (s->fin || s->rst)
			return;
		for (auto& p : w::m::split(part[o.conn]))
			for (auto& a : answer(p))
				gw::brokerSend(o.conn, a);
		part[o.conn].clear();
	};
	auto go = [&]() {
		for (auto& s : batch)
			applyReal(s);
		vos::quiesce();
	};
	std::vector<uintptr_t> hot;
	if (dataBound)
	{
		hot = sched::hotCode(go);
		if (getenv("VERIF_ONLY"))
			fprintf(stderr, "%zu places in %s\n", hot.size(), r.name.c_str());
	}
	sched::begin(bound, W.mainFiber, dataBound);
	vos::fine::schedule(hot);
	go();
	vos::picker = nullptr;
	vos::fine::off();
	gw::settle();
	vos::onOut = nullptr;
	sched::watch(0);
	ex::S->transitions++;
	gw::Seen seen = gw::collect();
	std::string got = gw::show(seen, W.o.names), exp;
	ex::traceText.push_back("   =>" + got);
	if (vos::fiberDone(W.mainFiber))
		ex::violation("the gateway ended");
	if (!W.o.step([&](Model& m) { modelRace(m, batch, answer, r.clients, seen); }, seen, exp))
		ex::violation("no order of " + names + " explains what was sent: expected e.g." + exp + "; got" + got);
	for (auto& e : r.after)
		tryStep(e);
	ex::noteState(W.o.hash() ^ ex::hashStr(got));
	sched::finish();
}

static Scns t02()
{
	std::vector<Race> races;
	auto conn = [](const Addr& a, const B& id, int clean = 1) { return std::vector<Ev> { dg(id + ": CONNECT", a, w::connect(id, clean, 0, 60)), br(id + ": CONNACK", id, mq::connack(0)) }; };
	auto cat = [](std::vector<Ev> a, const std::vector<Ev>& b) {
		a.insert(a.end(), b.begin(), b.end());
		return a;
	};
	auto probe = [](const Addr& a, const B& id) {
		return std::vector<Ev> { dg(id + ": PUBLISH", a, w::publish(0, 1, 0, w::SHORT, "pr", 77, "p")), br(id + ": PUBACK", id, mq::ack(mq::PUBACK, 77)),
			br(id + ": message", id, mq::publish(0, 0, 0, "to", 0, "m")), dg(id + ": PINGREQ", a, w::pingreq()), br(id + ": PINGRESP", id, mq::pingresp()) };
	};
	auto pub = [](const Addr& a, int qos, int mid, const B& t = "ab") { return dg(v::fmt("PUBLISH q%d", qos), a, w::publish(0, qos, 0, w::SHORT, t, mid, "x")); };
	auto msg = [](const B& id, int qos, int mid, const B& t = "to") { return br(v::fmt("message q%d", qos), id, mq::publish(0, qos, 0, t, mid, "m")); };
	std::vector<Ev> two = cat(conn(A, "c1"), conn(Bb, "c2")), pr1 = probe(A, "c1"), pr2 = probe(Bb, "c2"), pr12 = cat(pr1, pr2);

	races.push_back({ "connect", {}, { dg("A CONNECT", A, w::connect("c1", 1, 0, 60)) }, pr1 });
	races.push_back({ "connect-both", {}, { dg("A CONNECT", A, w::connect("c1", 1, 0, 60)), dg("B CONNECT", Bb, w::connect("c2", 1, 0, 60)) }, pr12 });
	races.push_back({ "publish-and-message", conn(A, "c1"), { pub(A, 1, 5), msg("c1", 1, 9) }, pr1 });
	races.push_back({ "publish-both", two, { pub(A, 1, 5), pub(Bb, 2, 5), msg("c2", 0, 0) }, pr12 });
	races.push_back({ "messages-both", two, { msg("c1", 2, 7), msg("c2", 1, 7), msg("c1", 0, 0, "t2") }, pr12 });
	races.push_back({ "subscribe-and-publish", conn(A, "c1"), { dg("SUBSCRIBE", A, w::subscribe(0, 1, 3, w::NORMAL, "top/x")), pub(A, 1, 4) }, pr1 });
	races.push_back({ "disconnect-and-message", conn(A, "c1"), { dg("A DISCONNECT", A, w::disconnect()), msg("c1", 1, 9) }, cat(conn(A, "c1"), pr1) });
	races.push_back({ "close-and-publish", conn(A, "c1"), { fault("broker closes", "c1", Stim::CLOSE), pub(A, 1, 5) }, cat(conn(A, "c1"), pr1) });
	races.push_back({ "close-and-connect", conn(A, "c1"), { fault("broker closes", "c1", Stim::CLOSE), dg("A CONNECT", A, w::connect("c1", 1, 0, 60)) }, pr1 });
	races.push_back({ "reconnect", conn(A, "c1"), { dg("A CONNECT", A, w::connect("c1", 1, 0, 60)), msg("c1", 1, 9) }, pr1 });
	races.push_back({ "sleep-and-message", conn(A, "c1"), { dg("A DISCONNECT 10", A, w::disconnect(10)), msg("c1", 1, 9) }, { dg("PINGREQ", A, w::pingreq("c1")), br("PINGRESP", "c1", mq::pingresp()), dg("PINGREQ", A, w::pingreq("c1")), br("PINGRESP", "c1", mq::pingresp()) } });
	races.push_back({ "wake-and-message", cat(conn(A, "c1"), { dg("A DISCONNECT 10", A, w::disconnect(10)), msg("c1", 0, 0, "t1") }), { dg("PINGREQ", A, w::pingreq("c1")), msg("c1", 1, 9) },
			{ dg("PINGREQ", A, w::pingreq("c1")), br("PINGRESP", "c1", mq::pingresp()) } });
	races.push_back({ "one-ends-other-talks", two, { dg("A DISCONNECT", A, w::disconnect()), pub(Bb, 1, 3), msg("c2", 1, 4) }, cat(cat(conn(A, "c1"), pr1), pr2) });
	races.push_back({ "one-closed-other-connects", conn(A, "c1"), { fault("broker closes", "c1", Stim::CLOSE), dg("B CONNECT", Bb, w::connect("c2", 1, 0, 60)) }, cat(cat(conn(A, "c1"), pr1), pr2) });
	races.push_back({ "register-and-message", conn(A, "c1"), { dg("REGISTER", A, w::reg(0, 3, "a/b")), msg("c1", 0, 0, "a/b") }, pr1 });
	// with answering clients
	std::vector<Ev> c1 = conn(A, "c1");
	std::vector<Ev> wild = cat(c1, { dg("SUBSCRIBE a/+", A, w::subscribe(0, 1, 2, w::NORMAL, "a/+")), br("SUBACK", "c1", mq::suback(2, 1)) });
	races.push_back({ "new-topics", wild, { msg("c1", 1, 7, "a/b"), msg("c1", 0, 0, "a/c"), pub(A, 1, 5) }, pr1, nullptr, true });
	races.push_back({ "same-new-topic", wild, { msg("c1", 1, 7, "a/b"), msg("c1", 0, 0, "a/b") }, pr1, nullptr, true });
	races.push_back({ "wake-new-topics", cat(wild, { dg("A DISCONNECT 10", A, w::disconnect(10)), msg("c1", 0, 0, "a/b"), msg("c1", 1, 3, "a/c") }), { dg("PINGREQ", A, w::pingreq("c1")), msg("c1", 0, 0, "to") },
			{ dg("PINGREQ", A, w::pingreq("c1")), br("PINGRESP", "c1", mq::pingresp()) }, nullptr, true });
	races.push_back({ "qos2-both-ways", c1, { pub(A, 2, 5), msg("c1", 2, 5) }, pr1, nullptr, true });
	races.push_back({ "wills", {}, { dg("A CONNECT will", A, w::connect("c1", 1, 1, 60)), dg("B CONNECT will", Bb, w::connect("c2", 0, 1, 60)) }, pr12, nullptr, true });
	races.push_back({ "will-and-reconnect", c1, { dg("A CONNECT will", A, w::connect("c1", 1, 1, 60)), msg("c1", 1, 9) }, pr1, nullptr, true });
	races.push_back({ "will-and-close", c1, { dg("A CONNECT will", A, w::connect("c1", 1, 1, 60)), fault("broker closes", "c1", Stim::CLOSE) }, pr1, nullptr, true });
	races.push_back({ "unsubscribe-and-message", wild, { dg("UNSUBSCRIBE", A, w::unsubscribe(4, w::NORMAL, "a/+")), msg("c1", 1, 7, "a/b") }, pr1, nullptr, true });
	races.push_back({ "get-up", cat(c1, { dg("A DISCONNECT 10", A, w::disconnect(10)), msg("c1", 0, 0, "t1") }), { dg("A CONNECT", A, w::connect("c1", 0, 0, 60)), msg("c1", 1, 9) }, pr1, nullptr, true });
	races.push_back({ "sleep-and-close", c1, { dg("A DISCONNECT 10", A, w::disconnect(10)), fault("broker closes", "c1", Stim::CLOSE) }, cat(conn(A, "c1"), pr1), nullptr, true });
	races.push_back({ "down-and-publish", c1, { fault("connection fails", "c1", Stim::FAIL), pub(A, 1, 5), pub(A, 1, 6) }, cat(conn(A, "c1"), pr1), nullptr, true });
	// messages of a kept session follow the CONNACK at once, others the SUBACK
	auto eager = [](const B& p) {
		std::vector<B> r = brokerAnswers(p);
		if ((gwm::u8(p, 0) >> 4) == w::m::CONNECT)
			r.push_back(mq::publish(0, 1, 0, "to", 11, "kept"));
		if ((gwm::u8(p, 0) >> 4) == w::m::SUBSCRIBE)
			r.push_back(mq::publish(0, 0, 1, "top/x", 0, "retained"));
		return r;
	};
	races.push_back({ "connect-kept-message", {}, { dg("A CONNECT", A, w::connect("c1", 0, 0, 60)) }, pr1, eager, true });
	races.push_back({ "subscribe-retained", c1, { dg("SUBSCRIBE", A, w::subscribe(0, 1, 3, w::NORMAL, "top/x")) }, pr1, eager, true });
	// refused and closed at once
	auto refuse = [](const B& p) { return (gwm::u8(p, 0) >> 4) == w::m::CONNECT ? std::vector<B> { mq::connack(5) } : brokerAnswers(p); };
	races.push_back({ "refused-twice", {}, { dg("A CONNECT", A, w::connect("c1", 0, 0, 60)), dg("A CONNECT", A, w::connect("c1", 1, 0, 30)) }, cat(conn(A, "c1"), pr1), refuse });
	// forwarders and the proxy for QoS -1
	auto fw = [](Scn& s) { forwarders(s, 1); };
	auto qm = [](Scn& s) { qosm1(s); };
	auto f1 = [](std::vector<Ev> v) {
		for (auto& e : v)
			if (e.name.find("CONNACK") == B::npos && e.name.find("PUBACK") == B::npos && e.name.find("message") == B::npos && e.name.find("PINGRESP") == B::npos)
				e = via(F1, "n1", e);
		return v;
	};
	Ev c2via = via(F1, "n2", dg("CONNECT c2", A, w::connect("c2", 1, 0, 60)));
	races.push_back({ "forwarded-connect", {}, { via(F1, "n1", dg("CONNECT c1", A, w::connect("c1", 1, 0, 60))), dg("B CONNECT", Bb, w::connect("c2", 1, 0, 60)) }, cat(f1(pr1), pr2), nullptr, true, fw });
	races.push_back({ "forwarded-connect-both", {}, { via(F1, "n1", dg("CONNECT c1", A, w::connect("c1", 1, 0, 60))), c2via }, f1(pr1), nullptr, true, fw });
	races.push_back({ "forwarded-publish-and-message", f1(conn(A, "c1")), { via(F1, "n1", pub(A, 1, 5)), msg("c1", 1, 9) }, f1(pr1), nullptr, true, fw });
	races.push_back({ "forwarded-end-and-connect", f1(conn(A, "c1")), { via(F1, "n1", dg("DISCONNECT", A, w::disconnect())), c2via, msg("c1", 1, 9) }, f1(cat(conn(A, "c1"), pr1)), nullptr, true, fw });
	races.push_back({ "forwarded-close-and-other", cat(f1(conn(A, "c1")), { via(F1, "n2", dg("CONNECT c2", A, w::connect("c2", 1, 0, 60))), br("CONNACK", "c2", mq::connack(0)) }),
			{ fault("broker closes", "c1", Stim::CLOSE), via(F1, "n2", pub(A, 1, 5)), msg("c2", 0, 0) }, f1(cat(conn(A, "c1"), pr1)), nullptr, true, fw });
	std::vector<Ev> up = { waitMs("3 s", 3000), br("proxy CONNACK", "GW_QoS-1", mq::connack(0)) };
	races.push_back({ "qos-1-and-connect", up, { m1Pub("m1 PUBLISH", A, w::SHORT, "ab"), m1Pub("m2 PUBLISH", Bb, w::PREDEF, w::b2(6)), dg("C CONNECT", Cc, w::connect("c3", 1, 0, 60)) }, probe(Cc, "c3"), nullptr, true, qm });
	races.push_back({ "qos-1-both", cat(up, conn(Cc, "c3")), { m1Pub("m1 PUBLISH", A, w::SHORT, "ab"), m1Pub("m2 PUBLISH", Bb, w::SHORT, "cd"), msg("c3", 1, 9) }, probe(Cc, "c3"), nullptr, true, qm });
	Scns out;
	static const std::set<std::string> big = { "connect", "connect-both", "publish-both", "subscribe-and-publish", "one-ends-other-talks", "new-topics", "qos2-both-ways", "wills", "wake-new-topics", "unsubscribe-and-message" };
	static const std::set<std::string> deeper = { "close-and-publish", "close-and-connect", "reconnect", "sleep-and-message", "sleep-and-close", "down-and-publish" };
	for (auto& r : races)
	{
		int bound = v::thorough() ? 3 : big.count(r.name) ? 1 : 2;
		if (getenv("VERIF_BOUND"))
			bound = atoi(getenv("VERIF_BOUND"));
		sched::boundOf["race-" + r.name] = bound;
		Scn s = scn("race-" + r.name);
		if (r.conf)
			r.conf(s);
		s.prefix = r.prefix;
		s.body = [r, bound]() { runRace(r, bound, 0); };
		out.push_back(s);
		int fine = getenv("VERIF_BOUND") ? bound : v::thorough() || deeper.count(r.name) ? 2 : 1;
		sched::boundOf["data-" + r.name] = fine;
		Scn d = scn("data-" + r.name);
		if (r.conf)
			r.conf(d);
		d.prefix = r.prefix;
		d.body = [r, fine]() { runRace(r, fine, 1); };
		out.push_back(d);
	}
	return out;
}
