// ---- G09: forwarders ------------------------------------------------------------------------------
static const Addr F1 = gw::addr("10.0.1.1", 7001), F2 = gw::addr("10.0.1.2", 7002);
static void forwarders(Scn& s, int n)
{
	s.conf.set("Forwarder", "YES");
	for (int i = 0; i < n; i++)
	{
		s.conf.clients += v::fmt("Forwarder%d,10.0.1.%d:700%d,forwarder\n", i + 1, i + 1, i + 1);
		s.cfg.fwds.push_back({ v::fmt("Forwarder%d", i + 1), i ? F2 : F1 });
	}
}
// the event, its datagram put into the encapsulation of a forwarder
static Ev via(const Addr& f, const B& node, Ev e, int ctrl = 1)
{
	return { e.name + (f == F1 ? " via F1" : " via F2"), [=](Model& m) {
		Stim s = e.make(m);
		if (s.kind == Stim::DGRAM)
		{
			s.from = f;
			s.data = w::encap(node, s.data, ctrl);
		}
		return s;
	} };
}
static Scns g09()
{
	Scns r;
	bool th = v::thorough();
	// everything a client can do, through a forwarder
	{
		Scn s = scn("one client through a forwarder");
		forwarders(s, 1);
		predef(s, "*", "p/all", 2);
		B n = "\x07";
		auto f = [&](Ev e) { return via(F1, n, e); };
		s.alpha = {
			f(dg("CONNECT clean", A, w::connect("c1", 1, 0, 60))),
			f(dg("CONNECT keep will", A, w::connect("c1", 0, 1, 60))),
			f(dg("WILLTOPIC", A, w::willtopic("wt", 1, 1))),
			f(dg("WILLMSG", A, w::willmsg("gone"))),
			br("CONNACK", "c1", mq::connack(0)),
			br("CONNACK refused", "c1", mq::connack(5)),
			f(dg("REGISTER", A, w::reg(0, 11, "n/a"))),
			f(pubEv("PUBLISH q1", A, "c1", "n/a", 0, 1, 0, 7, "1")),
			f(dg("PUBLISH q2 short", A, w::publish(0, 2, 0, w::SHORT, "ab", 8, "2"))),
			br("PUBACK", "c1", mq::ack(mq::PUBACK, 7)),
			br("PUBREC", "c1", mq::ack(mq::PUBREC, 8)),
			f(dg("PUBREL", A, w::ack(w::PUBREL, 8))),
			f(dg("SUBSCRIBE w/#", A, w::subscribe(0, 1, 12, w::NORMAL, "w/#"))),
			f(dg("SUBSCRIBE p/all", A, w::subscribe(0, 1, 12, w::PREDEF, w::b2(2)))),
			br("SUBACK", "c1", mq::suback(12, 1)),
			f(dg("UNSUBSCRIBE", A, w::unsubscribe(13, w::NORMAL, "w/#"))),
			br("UNSUBACK", "c1", mq::ack(mq::UNSUBACK, 13)),
			br("message n/a", "c1", mq::publish(0, 1, 0, "n/a", 31, "m1")),
			br("message w/x", "c1", mq::publish(0, 0, 0, "w/x", 0, "m2")),
			f(regackEv("REGACK", A, "c1", 0, 0)),
			f(dg("PUBACK", A, w::puback(1, 31, 0))),
			f(dg("DISCONNECT 10", A, w::disconnect(10))),
			f(dg("PINGREQ", A, w::pingreq())),
			br("PINGRESP", "c1", mq::pingresp()),
			f(dg("DISCONNECT", A, w::disconnect())),
			fault("broker closes", "c1", Stim::CLOSE),
		};
		s.budget.assign(s.alpha.size(), 0);
		s.budget[17] = s.budget[18] = 2;
		s.depth = th ? 4 : 3;
		s.deep = th ? 8 : 5;
		r.push_back(s);
	}
	// which client a packet belongs to, and where its answers go
	{
		Scn s = scn("two forwarders and direct clients");
		forwarders(s, 2);
		struct
		{
			B id, node;
			const Addr* f;
		} who[] = { { "c1", "\x07", &F1 }, { "d2", B("\x07\x00", 2), &F1 }, { "e3", "\x07", &F2 }, { "f4", "", &A } };
		for (auto& x : who)
		{
			Ev c = dg("CONNECT " + x.id, A, w::connect(x.id, 1, 0, 60)), p = dg("PUBLISH " + x.id, A, w::publish(0, 1, 0, w::SHORT, "ab", 7, x.id)),
					d = dg("DISCONNECT " + x.id, A, w::disconnect());
			bool direct = x.node.empty();
			s.alpha.push_back(direct ? c : via(*x.f, x.node, c));
			s.alpha.push_back(direct ? p : via(*x.f, x.node, p));
			s.alpha.push_back(direct ? d : via(*x.f, x.node, d));
			s.alpha.push_back(br("CONNACK " + x.id, x.id, mq::connack(0)));
			s.alpha.push_back(br("message " + x.id, x.id, mq::publish(0, 0, 0, "ab", 0, x.id)));
		}
		s.alpha.push_back(dg("encapsulated CONNECT from a stranger", X, w::encap("\x07", w::connect("x9", 1, 0, 60))));
		s.alpha.push_back(dg("encapsulated PUBLISH from a stranger", X, w::encap("\x07", w::publish(0, 1, 0, w::SHORT, "ab", 7, "?"))));
		s.alpha.push_back(dg("encapsulated PUBLISH from a direct client", A, w::encap("\x07", w::publish(0, 1, 0, w::SHORT, "ab", 7, "?"))));
		s.alpha.push_back(via(F1, "\x08", dg("PUBLISH from an unknown node", A, w::publish(0, 1, 0, w::SHORT, "ab", 7, "?"))));
		s.depth = th ? 4 : 3;
		s.deep = th ? 12 : 6;
		r.push_back(s);
	}
	// a client changes its way to the gateway
	{
		Scn s = scn("a client moves");
		forwarders(s, 2);
		Ev c = dg("CONNECT c1", A, w::connect("c1", 1, 0, 60)), p = dg("PUBLISH", A, w::publish(0, 1, 0, w::SHORT, "ab", 7, "x")), d = dg("CONNECT d2", A, w::connect("d2", 1, 0, 60));
		s.alpha = { c, p, via(F1, "\x01", c), via(F1, "\x01", p), via(F1, "\x02", c), via(F1, "\x02", p), via(F2, "\x01", c), via(F2, "\x01", p),
			br("CONNACK", "c1", mq::connack(0)), br("message", "c1", mq::publish(0, 0, 0, "ab", 0, "m")), br("PUBACK", "c1", mq::ack(mq::PUBACK, 7)),
			via(F1, "\x01", d), br("CONNACK d2", "d2", mq::connack(0)), br("message d2", "d2", mq::publish(0, 0, 0, "ab", 0, "m2")),
		};
		s.depth = th ? 5 : 3;
		s.deep = th ? 9 : 6;
		r.push_back(s);
	}
	// all node ids and lengths
	{
		Scn s = scn("values");
		forwarders(s, 1);
		s.body = []() {
			for (int l = 0; l <= 252; l++)
			{
				B node = B(l, (char) (0x80 + l));
				must(via(F1, node, dg(v::fmt("CONNECT, node id of %d", l), A, w::connect("c1", 1, 0, 60)), l));
				must(br("CONNACK", "c1", mq::connack(0)));
				must(via(F1, node, dg("PUBLISH", A, w::publish(0, 1, 0, w::SHORT, "ab", 7, B(l, 'p'))), 255 - l));
				must(br("PUBACK", "c1", mq::ack(mq::PUBACK, 7)));
				for (int n : { 0, 1, 240, 248, 249, 250, 251, 600, 1000 })
					must(br(v::fmt("message of %d", n), "c1", mq::publish(0, 0, 0, "ab", 0, lots(n))));
			}
			for (int b = 0; b < 256; b++)
			{
				B node = w::b1(b) + "n";
				must(via(F1, node, dg(v::fmt("CONNECT, node %02x", b), A, w::connect("c1", 1, 0, 60))));
				must(br("CONNACK", "c1", mq::connack(0)));
				must(br("message", "c1", mq::publish(0, 0, 0, "ab", 0, "m")));
			}
		};
		r.push_back(s);
		s.name = "node ids which differ in one bit or in length";
		s.body = []() {
			for (B base : { B("\0\0\0\0", 4), B("\0\1", 2), B("node"), B("\x80\0\xff", 3) })
			{
				std::vector<B> other = { "", base.substr(1), base.substr(0, base.size() - 1), base + w::b1(0), w::b1(0) + base, base + base, B(base.rbegin(), base.rend()) };
				for (size_t i = 0; i < base.size() * 8; i++)
				{
					B o = base;
					o[i / 8] ^= 1 << (i % 8);
					other.push_back(o);
				}
				must(via(F1, base, dg("CONNECT c1", A, w::connect("c1", 1, 0, 60))));
				must(br("CONNACK", "c1", mq::connack(0)));
				for (auto& o : other)
				{
					if (o == base)
						continue;
					must(via(F1, o, dg("PUBLISH of an unknown node", A, w::publish(0, 1, 0, w::SHORT, "ab", 7, "?"))));
					must(via(F1, o, dg("CONNECT d2", A, w::connect("d2", 1, 0, 60))));
					must(br("CONNACK", "d2", mq::connack(0)));
					must(via(F1, o, dg("PUBLISH d2", A, w::publish(0, 0, 0, w::SHORT, "ab", 0, "d2"))));
					must(via(F1, base, dg("PUBLISH c1", A, w::publish(0, 0, 0, w::SHORT, "ab", 0, "c1"))));
					must(br("message d2", "d2", mq::publish(0, 0, 0, "ab", 0, "for d2")));
					must(br("message c1", "c1", mq::publish(0, 0, 0, "ab", 0, "for c1")));
				}
			}
		};
		r.push_back(s);
	}
	return r;
}

// ---- G10: the QoS -1 proxy ------------------------------------------------------------------------
static void qosm1(Scn& s)
{
	s.conf.set("QoS-1", "YES").set("MaxNumberOfClients", "8");
	s.conf.clients += "m1,10.0.0.1:5001,QoS-1\nm2,10.0.0.2:5001,QoS-1\n";
	s.cfg.maxClients = 8;
	s.cfg.qosm1 = true;
	s.cfg.qosm1s = { { "m1", A }, { "m2", Bb } };
	predef(s, "*", "p/all", 2);
	predef(s, "m1", "p/m1", 5);
	predef(s, "m2", "p/m2", 6);
	predef(s, "c3", "p/c3", 7);
}
static Ev m1Pub(const std::string& n, const Addr& a, int tt, const B& tid, int dup = 0, int retain = 0, int mid = 0, const B& payload = "x", int qos = 3)
{
	return dg(n, a, w::publish(dup, qos, retain, tt, tid, mid, payload));
}
static Scns g10()
{
	Scns r;
	bool th = v::thorough();
	const B P = "GW_QoS-1";
	Ev wait = waitMs("3 s", 3000);
	std::vector<Ev> up = { wait, br("proxy CONNACK", P, mq::connack(0)) };
	{
		Scn s = scn("publishing without connection");
		qosm1(s);
		s.alpha = {
			m1Pub("m1 PUBLISH short", A, w::SHORT, "ab"),
			m1Pub("m1 PUBLISH p/all", A, w::PREDEF, w::b2(2), 0, 1),
			m1Pub("m1 PUBLISH p/m1", A, w::PREDEF, w::b2(5)),
			m1Pub("m1 PUBLISH of m2's topic", A, w::PREDEF, w::b2(6)),
			m1Pub("m2 PUBLISH p/m2", Bb, w::PREDEF, w::b2(6), 1),
			m1Pub("m1 PUBLISH unknown", A, w::PREDEF, w::b2(9)),
			m1Pub("X PUBLISH short", X, w::SHORT, "ab"),
			br("proxy CONNACK", P, mq::connack(0)),
			br("proxy CONNACK refused", P, mq::connack(3)),
			fault("proxy connection closed", P, Stim::CLOSE),
			fault("proxy connection fails", P, Stim::FAIL),
			brokerUp(false),
			brokerUp(true),
			wait,
		};
		s.depth = th ? 5 : 3;
		s.deep = th ? 12 : 7;
		r.push_back(s);
		s.depth = th ? 4 : 3;
		s.deep = th ? 8 : 5;
		s.name = "with login";
		s.conf.set("LoginID", "joe").set("Password", "secret");
		s.cfg.hasUser = s.cfg.hasPass = true;
		s.cfg.user = "joe";
		s.cfg.pass = "secret";
		r.push_back(s);
		s.name = "with client authentication";
		s.conf.set("ClientAuthentication", "YES");
		s.cfg.auth = true;
		r.push_back(s);
	}
	{
		Scn s = scn("everything else");
		qosm1(s);
		s.prefix = up;
		s.alpha = {
			m1Pub("m1 PUBLISH p/m1", A, w::PREDEF, w::b2(5)),
			m1Pub("m1 PUBLISH q0", A, w::SHORT, "ab", 0, 0, 0, "x", 0),
			m1Pub("m1 PUBLISH q1", A, w::SHORT, "ab", 0, 0, 4, "x", 1),
			m1Pub("m1 PUBLISH q2", A, w::PREDEF, w::b2(5), 0, 0, 4, "x", 2),
			m1Pub("m1 PUBLISH with id", A, w::SHORT, "ab", 0, 0, 4),
			m1Pub("m1 PUBLISH id type 0", A, w::NORMAL, w::b2(1)),
			dg("m1 CONNECT", A, w::connect("m1", 1, 0, 60)),
			dg("m1 REGISTER", A, w::reg(0, 3, "a/b")),
			dg("m1 SUBSCRIBE", A, w::subscribe(0, 1, 3, w::SHORT, "ab")),
			dg("m1 PINGREQ", A, w::pingreq()),
			dg("m1 DISCONNECT", A, w::disconnect()),
			br("message for the proxy", P, mq::publish(0, 0, 0, "ab", 0, "m")),
			br("PINGRESP", P, mq::pingresp()),
			fault("proxy connection reset", P, Stim::RESET),
			br("proxy CONNACK", P, mq::connack(0)),
			wait,
		};
		s.depth = th ? 4 : 3;
		s.deep = th ? 8 : 5;
		r.push_back(s);
	}
	{
		// the connection is opened, and opened again, while there is no moment without traffic
		Scn s = scn("traffic all the time");
		qosm1(s);
		s.body = [P]() {
			std::vector<Ev> traffic = {
				m1Pub("m1 PUBLISH short", A, w::SHORT, "ab"),
				m1Pub("m1 PUBLISH unknown", A, w::PREDEF, w::b2(9)),
				m1Pub("m1 PUBLISH p/m1", A, w::PREDEF, w::b2(5)),
				dg("X PUBLISH", X, w::publish(0, 3, 0, w::SHORT, "ab", 0, "x")),
				dg("X SEARCHGW of no interest", X, w::reg(0, 3, "a/b")),
			};
			for (auto& t : traffic)
				for (auto& u : traffic)
				{
					for (int i = 0; i < 12; i++)
						must(i % 2 ? t : u);
					must(br("proxy CONNACK", P, mq::connack(0)));
					must(t);
					must(fault("proxy connection closed", P, Stim::CLOSE));
					for (int i = 0; i < 12; i++)
						must(i % 2 ? t : u);
					must(br("proxy CONNACK refused", P, mq::connack(3)));
				}
		};
		r.push_back(s);
	}
	{
		// the connection is kept alive, and replaced when the broker no longer answers
		Scn s = scn("keep alive");
		qosm1(s);
		s.prefix = up;
		s.bounds = "no, two or four answered PINGREQs, traffic or none, then no answers";
		for (int v = 0; v < 6; v++)
		{
		s.name = v::fmt("keep alive %d", v);
		s.body = [v]() {
			int answered = v / 2 * 2;
			auto idle = [&](int secs) {
				std::string got;
				for (int t = 0; t < secs; t += 5)
				{
					vos::advance(5000000);
					gw::Seen seen = gw::collect();
					got += gw::show(seen, W.o.names) == " nothing" ? "" : v::fmt(" +%d:", t) + gw::show(seen, W.o.names);
					if (v & 1)
						gw::datagram(A, w::publish(0, 3, 0, w::PREDEF, w::b2(9), 0, "x"));
				}
				ex::traceText.push_back(v::fmt("%d s", secs) + "  =>" + (got.empty() ? " nothing" : got));
				ex::S->transitions++;
				ex::noteState(ex::hashStr(got) ^ v);
				return got;
			};
			for (int i = 0; i <= answered; i++)
			{
				if (!idle(880).empty())
					ex::violation("the proxy's connection is not left alone for its keep alive time of 900 s: " + ex::traceText.back());
				B got = idle(30);
				if (got.find("PINGREQ") == B::npos || got.find("PINGREQ", got.find("PINGREQ") + 1) != B::npos || got.find("open") != B::npos)
					ex::violation("one PINGREQ is due after 900 s: " + ex::traceText.back());
				if (i < answered)
				{
					ex::traceText.push_back("PINGRESP");
					gw::brokerSend(0, mq::pingresp());
				}
			}
			B got = idle(100);
			size_t o = got.find("open1");
			if (o == B::npos || got.find("D1:CONNECT") == B::npos)
				ex::violation("no new connection although the broker does not answer PINGREQs: " + ex::traceText.back());
		};
		r.push_back(s);
		}
	}
	{
		// every length and every kind of topic
		Scn s = scn("values");
		qosm1(s);
		s.prefix = up;
		s.body = []() {
			for (int n = 0; n <= 1000; n += n < 300 ? 1 : 50)
				must(m1Pub(v::fmt("m1 PUBLISH of %d", n), A, n & 1 ? w::PREDEF : w::SHORT, n & 1 ? w::b2(5) : "ab", n & 1, (n >> 1) & 1, 0, lots(n)));
			for (int i = 0; i < 65536; i += i < 16 ? 1 : 257)
			{
				must(m1Pub(v::fmt("m1 PUBLISH to predefined %d", i), A, w::PREDEF, w::b2(i)));
				must(m1Pub(v::fmt("m2 PUBLISH to short %04x", i), Bb, w::SHORT, w::b2(i)));
			}
		};
		r.push_back(s);
	}
	{
		Scn s = scn("beside a connected client");
		qosm1(s);
		s.prefix = { dg("c3 CONNECT", Cc, w::connect("c3", 1, 0, 60)) };
		s.alpha = {
			m1Pub("m1 PUBLISH p/m1", A, w::PREDEF, w::b2(5)),
			m1Pub("m2 PUBLISH short", Bb, w::SHORT, "ab"),
			m1Pub("m1 PUBLISH of c3's topic", A, w::PREDEF, w::b2(7)),
			br("c3 CONNACK", "c3", mq::connack(0)),
			m1Pub("c3 PUBLISH p/c3 q-1", Cc, w::PREDEF, w::b2(7)),
			m1Pub("c3 PUBLISH p/c3", Cc, w::PREDEF, w::b2(7), 0, 0, 8, "y", 1),
			m1Pub("c3 PUBLISH of m1's topic", Cc, w::PREDEF, w::b2(5)),
			dg("c3 DISCONNECT", Cc, w::disconnect()),
			dg("c3 CONNECT", Cc, w::connect("c3", 1, 0, 60)),
			br("c3 message", "c3", mq::publish(0, 1, 0, "p/c3", 4, "m")),
			fault("c3's connection closed", "c3", Stim::CLOSE),
			br("proxy CONNACK", P, mq::connack(0)),
			fault("proxy connection closed", P, Stim::CLOSE),
			wait,
		};
		s.depth = th ? 5 : 3;
		s.deep = th ? 10 : 6;
		r.push_back(s);
	}
	return r;
}
