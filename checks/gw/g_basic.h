// ---- building blocks ------------------------------------------------------------------------------
namespace mq = w::m;
static B lots(int n)
{
	B s;
	for (int i = 0; i < n; i++)
		s += (char) (i * 7 + n);
	return s;
}
static std::vector<Ev> connected(const Addr& a, const B& id, int clean = 1)
{
	return { dg("CONNECT " + id, a, w::connect(id, clean, 0, 60)), br("CONNACK " + id, id, mq::connack(0)) };
}
static void operator+=(std::vector<Ev>& v, const std::vector<Ev>& o)
{
	v.insert(v.end(), o.begin(), o.end());
}
static Scn scn(const std::string& name)
{
	Scn s;
	s.name = name;
	s.cfg.mcast = gw::addr("225.1.1.1", gw::MPORT);
	return s;
}
static void must(const Ev& e)
{
	if (!tryStep(e))
		ex::violation("harness: step " + e.name + " not possible");
}

// ---- G01 ------------------------------------------------------------------------------------------
static Scns g01()
{
	Scns r;
	auto alphabet = [](Scn& s) {
		s.alpha = {
			dg("CONNECT clean", A, w::connect("c1", 1, 0, 60)),
			dg("CONNECT keep", A, w::connect("c1", 0, 0, 300)),
			dg("CONNECT clean will", A, w::connect("c1", 1, 1, 60)),
			dg("CONNECT keep will", A, w::connect("c1", 0, 1, 1)),
			dg("WILLTOPIC q1 r", A, w::willtopic("will/topic", 1, 1)),
			dg("WILLTOPIC q0", A, w::willtopic("w", 0, 0)),
			dg("WILLMSG 1", A, w::willmsg("gone")),
			dg("WILLMSG 2", A, w::willmsg("it is over")),
			dg("PINGREQ", A, w::pingreq()),
			dg("DISCONNECT", A, w::disconnect()),
			dg("DISCONNECT 10", A, w::disconnect(10)),
			dg("PUBLISH short", A, w::publish(0, 0, 0, w::SHORT, "ab", 0, "x")),
			br("CONNACK ok", "c1", mq::connack(0)),
			br("CONNACK unavailable", "c1", mq::connack(3)),
			br("CONNACK refused", "c1", mq::connack(5)),
			br("PINGRESP", "c1", mq::pingresp()),
			fault("broker closes", "c1", Stim::CLOSE),
			brokerUp(false), brokerUp(true),
		};
		s.budget.assign(s.alpha.size(), 0);
		s.budget[s.alpha.size() - 2] = 1;
	};
	{
		Scn s = scn("ways not to reach the broker");
		s.alpha = { dg("CONNECT", A, w::connect("c1", 1, 0, 60)), br("CONNACK ok", "c1", mq::connack(0)), dg("CONNECT d2", Bb, w::connect("d2", 1, 0, 60)),
			fault("broker closes", "c1", Stim::CLOSE), dg("DISCONNECT", A, w::disconnect()), brokerUp(false), brokerUnknown(), noSockets(), brokerUp(true) };
		s.depth = v::thorough() ? 7 : 5;
		r.push_back(s);
	}
	bool th = v::thorough();
	for (int k = 0; k < 3; k++)
	{
		Scn s = scn(k == 0 ? "handshake" : k == 1 ? "handshake with login" : "handshake mqtt 3.1 user only");
		if (k == 1)
		{
			s.conf.set("LoginID", "joe").set("Password", "secret");
			s.cfg.hasUser = s.cfg.hasPass = true;
			s.cfg.user = "joe";
			s.cfg.pass = "secret";
		}
		if (k == 2)
		{
			s.conf.set("LoginID", "joe");
			s.cfg.hasUser = true;
			s.cfg.user = "joe";
		}
		alphabet(s);
		s.depth = k == 0 ? (th ? 5 : 3) : (th ? 4 : 2);
		s.deep = th ? 16 : 12;
		r.push_back(s);
	}
	// two clients at once
	{
		Scn s = scn("two handshakes");
		for (int k = 0; k < 2; k++)
		{
			Addr a = k ? Bb : A;
			B id = k ? "d2" : "c1";
			s.alpha.push_back(dg("CONNECT " + id, a, w::connect(id, k, 0, 60 + k)));
			s.alpha.push_back(dg("CONNECT will " + id, a, w::connect(id, 1 - k, 1, 70 + k)));
			s.alpha.push_back(dg("WILLTOPIC " + id, a, w::willtopic("wt/" + id, k, k)));
			s.alpha.push_back(dg("WILLMSG " + id, a, w::willmsg("wm" + id)));
			s.alpha.push_back(br("CONNACK ok " + id, id, mq::connack(0)));
			s.alpha.push_back(br("CONNACK no " + id, id, mq::connack(2)));
			s.alpha.push_back(dg("DISCONNECT " + id, a, w::disconnect()));
		}
		s.depth = th ? 5 : 3;
		s.deep = th ? 20 : 12;
		r.push_back(s);
	}
	// all values, one handshake after another
	{
		Scn s = scn("values");
		s.body = []() {
			int step = v::thorough() ? 1 : 7;
			for (int d = 0; d < 65536; d += (d < 300 || d > 65200) ? 1 : step * 13)
			{
				must(dg(v::fmt("CONNECT duration %d", d), A, w::connect("c1", d & 1, 0, d)));
				must(br("CONNACK", "c1", mq::connack(d % 6)));
			}
			for (int rc = 0; rc < 256; rc++)
				for (int sp = 0; sp < 2; sp++)
				{
					must(dg("CONNECT", A, w::connect("c1", 1, 0, 60)));
					must(br(v::fmt("CONNACK rc %d sp %d", rc, sp), "c1", mq::connack(rc, sp)));
					must(dg("PINGREQ", A, w::pingreq()));
				}
			for (int f = 0; f < 256; f++)
			{
				must(dg(v::fmt("CONNECT will, flags %02x", f & 0x0c), A, w::connect("c1", f >> 2 & 1, 1, 60)));
				must(dg(v::fmt("WILLTOPIC flags %02x", f), A, w::sn(w::WILLTOPIC, w::b1((f & 0x60) == 0x60 ? f & 0x9f : f) + "a/b")));
				must(dg("WILLMSG", A, w::willmsg("m")));
				must(br("CONNACK", "c1", mq::connack(0)));
			}
			for (int l = 1; l <= 500; l++)
			{
				must(dg("CONNECT will", A, w::connect("c1", 1, 1, 60)));
				must(dg(v::fmt("WILLTOPIC length %d", l), A, w::willtopic(B(l, 't'), l % 3, l & 1)));
				must(dg(v::fmt("WILLMSG length %d", 501 - l), A, w::willmsg(B(501 - l, 'm'))));
				if (l % 50 == 0)
				{
					must(br("CONNACK", "c1", mq::connack(0)));
					must(dg("CONNECT", A, w::connect("c1", 1, 1, 60)));
					must(dg("WILLTOPIC", A, w::willtopic("t", 0, 0)));
					must(dg("WILLMSG with every byte", A, w::willmsg(B("\0\x01\0", 3) + lots(l))));
				}
				must(br("CONNACK", "c1", mq::connack(0)));
			}
		};
		r.push_back(s);
		Scn t = scn("identifiers");
		t.conf.set("MaxNumberOfClients", "200");
		t.cfg.maxClients = 200;
		t.body = []() {
			for (int l = 1; l <= 23; l++)
				for (int k = 0; k < 2; k++)
				{
					B id = B(l, 'a' + k);
					Addr a = gw::addr("10.1.0.1", 1000 + l * 2 + k);
					must(dg(v::fmt("CONNECT id of length %d", l), a, w::connect(id, 1, k, 60)));
					if (k)
					{
						must(dg("WILLTOPIC", a, w::willtopic("wt" + id, 1, 0)));
						must(dg("WILLMSG", a, w::willmsg("wm" + id)));
					}
					must(br("CONNACK", id, mq::connack(0)));
				}
		};
		r.push_back(t);
	}
	return r;
}

// ---- G02 ------------------------------------------------------------------------------------------
static Scns g02()
{
	Scns r;
	bool th = v::thorough();
	for (int k = 0; k < 2; k++)
	{
		Scn s = scn(k ? "session" : "session from the start");
		s.alpha = {
			dg("CONNECT", A, w::connect("c1", 1, 0, 60)),
			dg("PUBLISH q1", A, w::publish(0, 1, 0, w::SHORT, "ab", 7, "x")),
			dg("SUBSCRIBE", A, w::subscribe(0, 1, 8, w::NORMAL, "topic")),
			dg("PINGREQ", A, w::pingreq()),
			dg("REGISTER", A, w::reg(0, 9, "name")),
			dg("PUBREL", A, w::ack(w::PUBREL, 7)),
			dg("DISCONNECT", A, w::disconnect()),
			dg("DISCONNECT 10", A, w::disconnect(10)),
			dg("WILLTOPIC", A, w::willtopic("wt", 0, 0)),
			dg("WILLMSG", A, w::willmsg("wm")),
			br("CONNACK ok", "c1", mq::connack(0)),
			br("CONNACK refused", "c1", mq::connack(5)),
			br("PUBACK", "c1", mq::ack(mq::PUBACK, 7)),
			br("PUBLISH", "c1", mq::publish(0, 1, 0, "ab", 3, "y")),
			br("PINGRESP", "c1", mq::pingresp()),
			fault("broker closes", "c1", Stim::CLOSE),
			fault("broker resets", "c1", Stim::RESET),
			fault("sending to the broker fails", "c1", Stim::FAIL),
			brokerUp(false), brokerUp(true),
			waitMs("100 s pass", 100000),
		};
		s.budget.assign(s.alpha.size(), 0);
		s.budget[18] = 1;
		s.budget[20] = 1;
		if (k)
			s.prefix = connected(A, "c1");
		s.depth = th ? 4 : 3;
		s.deep = th ? 16 : 7;
		r.push_back(s);
	}
	{
		Scn s = scn("two sessions");
		s.prefix = connected(A, "c1");
		s.prefix += connected(Bb, "d2");
		for (int k = 0; k < 2; k++)
		{
			Addr a = k ? Bb : A;
			B id = k ? "d2" : "c1";
			s.alpha.push_back(dg("CONNECT " + id, a, w::connect(id, k, 0, 60 + k)));
			s.alpha.push_back(dg("DISCONNECT " + id, a, w::disconnect()));
			s.alpha.push_back(dg("PUBLISH " + id, a, w::publish(0, 1, 0, w::SHORT, "ab", 7, id)));
			s.alpha.push_back(br("CONNACK ok " + id, id, mq::connack(0)));
			s.alpha.push_back(br("PUBLISH " + id, id, mq::publish(0, 0, 0, "ab", 0, id)));
			s.alpha.push_back(fault("broker closes " + id, id, Stim::CLOSE));
			s.alpha.push_back(fault("broker resets " + id, id, Stim::RESET));
		}
		s.depth = th ? 5 : 3;
		s.deep = th ? 20 : 12;
		r.push_back(s);
	}
	return r;
}
