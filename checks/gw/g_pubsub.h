// REGACK of the client for the n-th message which waits for one
static Ev regackEv(const std::string& n, const Addr& a, const B& id, size_t nth, int rc)
{
	return dgf(n, a, [id, nth, rc](Model& m) -> B {
		Client* c = m.byClientId(id);
		if (!c || nth >= c->held.size() || c->held[nth].mid <= 0)
			return "";
		return w::regack(tid(m, id, c->held[nth].topic), c->held[nth].mid, rc);
	});
}
// PUBLISH with the topic id the client was given for a name
static Ev pubEv(const std::string& n, const Addr& a, const B& id, const B& name, int dup, int qos, int retain, int mid, const B& payload)
{
	return dgf(n, a, [=](Model& m) -> B {
		int t = tid(m, id, name);
		return t ? w::publish(dup, qos, retain, w::NORMAL, w::b2(t), mid, payload) : "";
	});
}
static void predef(Scn& s, const B& client, const B& name, int id)
{
	s.conf.set("PredefinedTopic", "YES");
	s.conf.predefined += client + "," + name + "," + std::to_string(id) + "\n";
	s.cfg.predef.push_back({ client, name, id });
}

// ---- G03 ------------------------------------------------------------------------------------------
static Scns g03()
{
	Scns r;
	bool th = v::thorough();
	{
		Scn s = scn("one client");
		s.prefix = connected(A, "c1");
		s.alpha = {
			dg("REGISTER t/one", A, w::reg(0, 11, "t/one")),
			dg("REGISTER t/on", A, w::reg(0, 12, "t/on")),
			dg("SUBSCRIBE t/one", A, w::subscribe(0, 1, 13, w::NORMAL, "t/one")),
			dg("SUBSCRIBE t/+", A, w::subscribe(0, 1, 14, w::NORMAL, "t/+")),
			br("SUBACK 13", "c1", mq::suback(13, 1)),
			br("SUBACK 14", "c1", mq::suback(14, 0)),
			pubEv("PUBLISH to t/one", A, "c1", "t/one", 0, 0, 0, 0, "1"),
			pubEv("PUBLISH to t/on", A, "c1", "t/on", 0, 1, 0, 15, "2"),
			pubEv("PUBLISH to t/new", A, "c1", "t/new", 0, 0, 0, 0, "3"),
			dg("PUBLISH to an unknown id", A, w::publish(0, 1, 0, w::NORMAL, w::b2(0x7777), 16, "4")),
			dg("PUBLISH q0 to an unknown id", A, w::publish(0, 0, 0, w::NORMAL, w::b2(0x7777), 0, "4")),
			br("broker t/one", "c1", mq::publish(0, 0, 0, "t/one", 0, "b1")),
			br("broker t/on", "c1", mq::publish(0, 1, 0, "t/on", 21, "b2")),
			br("broker t/new", "c1", mq::publish(0, 0, 0, "t/new", 0, "b3")),
			regackEv("REGACK", A, "c1", 0, 0),
			regackEv("REGACK refused", A, "c1", 0, 2),
			regackEv("REGACK second", A, "c1", 1, 0),
			dg("CONNECT clean", A, w::connect("c1", 1, 0, 60)),
			dg("CONNECT keep", A, w::connect("c1", 0, 0, 60)),
			br("CONNACK", "c1", mq::connack(0)),
		};
		s.budget = { 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 2, 2, 0, 0, 0, 1, 1, 0 };
		s.depth = th ? 4 : 3;
		s.deep = th ? 9 : 5;
		r.push_back(s);
		s.name = "session kept";
		s.prefix = connected(A, "c1", 0);
		s.depth = th ? 4 : 2;
		r.push_back(s);
	}
	{
		Scn s = scn("predefined and other topics of one name or number");
		predef(s, "c1", "p/own", 1);
		predef(s, "*", "p/all", 2);
		predef(s, "d2", "p/d2", 2);
		s.prefix = connected(A, "c1");
		s.prefix += connected(Bb, "d2");
		s.alpha = {
			dg("REGISTER n/a", A, w::reg(0, 11, "n/a")),
			dg("REGISTER n/b", A, w::reg(0, 12, "n/b")),
			dg("REGISTER p/own", A, w::reg(0, 13, "p/own")),
			dg("REGISTER p/all", A, w::reg(0, 14, "p/all")),
			pubEv("PUBLISH n/a", A, "c1", "n/a", 0, 0, 0, 0, "1"),
			pubEv("PUBLISH n/b", A, "c1", "n/b", 0, 0, 0, 0, "2"),
			pubEv("PUBLISH p/all by its own id", A, "c1", "p/all", 0, 0, 0, 0, "3"),
			dg("PUBLISH predefined 1", A, w::publish(0, 0, 0, w::PREDEF, w::b2(1), 0, "4")),
			dg("PUBLISH predefined 2", A, w::publish(0, 0, 0, w::PREDEF, w::b2(2), 0, "5")),
			dg("PUBLISH predefined 3", A, w::publish(0, 1, 0, w::PREDEF, w::b2(3), 15, "6")),
			dg("PUBLISH d2 predefined 1", Bb, w::publish(0, 1, 0, w::PREDEF, w::b2(1), 16, "7")),
			dg("PUBLISH d2 predefined 2", Bb, w::publish(0, 0, 0, w::PREDEF, w::b2(2), 0, "8")),
			br("broker p/own", "c1", mq::publish(0, 0, 0, "p/own", 0, "b1")),
			br("broker p/all", "c1", mq::publish(0, 0, 0, "p/all", 0, "b2")),
			br("broker n/a", "c1", mq::publish(0, 0, 0, "n/a", 0, "b3")),
			dg("SUBSCRIBE predefined 2", A, w::subscribe(0, 0, 17, w::PREDEF, w::b2(2))),
			br("SUBACK 17", "c1", mq::suback(17, 0)),
			dg("CONNECT clean", A, w::connect("c1", 1, 0, 60)),
			br("CONNACK", "c1", mq::connack(0)),
		};
		s.budget.assign(s.alpha.size(), 0);
		s.budget[17] = 1;
		s.depth = th ? 4 : 3;
		s.deep = th ? 9 : 5;
		r.push_back(s);
	}
	{
		Scn s = scn("as many topics as there is room for");
		s.prefix = connected(A, "c1");
		s.body = []() {
			for (int round = 0; round < 3; round++)
			{
				for (int i = 0; i < 60; i++)
				{
					must(dg(v::fmt("REGISTER topic %d", i), A, w::reg(0, 100 + i, v::fmt("topic/%d", i))));
					must(dg(v::fmt("SUBSCRIBE topic %d", i), A, w::subscribe(0, 0, 200 + i, w::NORMAL, v::fmt("topic/%d", i * 2))));
					tryStep(br("SUBACK", "c1", mq::suback(200 + i, 0)));
					tryStep(br("broker publishes", "c1", mq::publish(0, 1, 0, v::fmt("topic/%d", i), 300 + i, "x")));
					tryStep(pubEv("PUBLISH", A, "c1", v::fmt("topic/%d", i), 0, 1, 0, 400 + i, "y"));
					tryStep(br("PUBACK", "c1", mq::ack(mq::PUBACK, 400 + i)));
				}
				must(dg("CONNECT", A, w::connect("c1", round == 0, 0, 60)));
				must(br("CONNACK", "c1", mq::connack(0)));
			}
		};
		r.push_back(s);
		s.name = "topic ids all the way round";
		s.body = []() {
			for (int i = 0; i < 66000; i++)
			{
				if (i % 50 == 49)
				{
					must(dg("CONNECT", A, w::connect("c1", 1, 0, 60)));
					must(br("CONNACK", "c1", mq::connack(0)));
				}
				must(dg("REGISTER", A, w::reg(0, 1 + i % 60000, v::fmt("topic/%d", i))));
				if (i > 65000 || i < 600 || i % 64 == 0)
				{
					must(pubEv("PUBLISH", A, "c1", v::fmt("topic/%d", i), 0, 0, 0, 0, "y"));
					must(br("broker publishes", "c1", mq::publish(0, 0, 0, v::fmt("topic/%d", i), 0, "x")));
				}
			}
		};
		r.push_back(s);
	}
	return r;
}

// ---- G04 ------------------------------------------------------------------------------------------
static Scns g04()
{
	Scns r;
	bool th = v::thorough();
	for (int k = 0; k < 2; k++)
	{
		Scn s = scn(k ? "publishing, two message ids" : "publishing, one message id");
		predef(s, "c1", "p/own", 1);
		predef(s, "*", "p/all", 2);
		s.prefix = connected(A, "c1");
		s.prefix.push_back(dg("REGISTER n/a", A, w::reg(0, 11, "n/a")));
		int m1 = 7, m2 = k ? 8 : 7;
		s.alpha = {
			pubEv("PUBLISH q0", A, "c1", "n/a", 0, 0, 1, 0, "1"),
			pubEv("PUBLISH q1", A, "c1", "n/a", 0, 1, 0, m1, "2"),
			pubEv("PUBLISH q1 dup", A, "c1", "n/a", 1, 1, 0, m1, "2"),
			pubEv("PUBLISH q2", A, "c1", "n/a", 0, 2, 1, m2, "3"),
			dg("PUBLISH q1 predefined", A, w::publish(0, 1, 0, w::PREDEF, w::b2(1), m2, "4")),
			dg("PUBLISH q2 common predefined", A, w::publish(0, 2, 0, w::PREDEF, w::b2(2), m1, "5")),
			dg("PUBLISH q1 short", A, w::publish(0, 1, 1, w::SHORT, "z\xc8", m1, "6")),
			dg("PUBLISH q2 short", A, w::publish(1, 2, 0, w::SHORT, "\xe4/", m2, "7")),
			dg("PUBLISH unknown", A, w::publish(0, 2, 0, w::NORMAL, w::b2(0x4142), m1, "8")),
			dg("PUBLISH unknown predefined", A, w::publish(0, 1, 0, w::PREDEF, w::b2(0x4142), m2, "9")),
			dg("PUBREL", A, w::ack(w::PUBREL, m2)),
			br("broker PUBACK 1", "c1", mq::ack(mq::PUBACK, m1)),
			br("broker PUBACK 2", "c1", mq::ack(mq::PUBACK, 8)),
			br("broker PUBREC", "c1", mq::ack(mq::PUBREC, m2)),
			br("broker PUBCOMP", "c1", mq::ack(mq::PUBCOMP, m2)),
			dg("DISCONNECT 10", A, w::disconnect(10)),
			dg("CONNECT", A, w::connect("c1", 0, 0, 60)),
			br("CONNACK", "c1", mq::connack(0)),
		};
		s.budget.assign(s.alpha.size(), 0);
		s.budget[15] = s.budget[16] = 1;
		s.depth = th ? 4 : 3;
		s.deep = th ? 9 : 5;
		r.push_back(s);
	}
	{
		Scn s = scn("two publishers with the same message ids");
		for (int k = 0; k < 2; k++)
		{
			Addr a = k ? Bb : A;
			B id = k ? "d2" : "c1";
			s.prefix += connected(a, id);
			s.prefix.push_back(dg("REGISTER", a, w::reg(0, 11, k ? "n/b" : "n/a")));
			s.alpha.push_back(pubEv("PUBLISH q1 " + id, a, id, k ? "n/b" : "n/a", 0, 1, 0, 7, "1" + id));
			s.alpha.push_back(dg("PUBLISH q2 short " + id, a, w::publish(0, 2, 0, w::SHORT, "ab", 7, "2" + id)));
			s.alpha.push_back(dg("PUBREL " + id, a, w::ack(w::PUBREL, 7)));
			s.alpha.push_back(br("PUBACK " + id, id, mq::ack(mq::PUBACK, 7)));
			s.alpha.push_back(br("PUBREC " + id, id, mq::ack(mq::PUBREC, 7)));
			s.alpha.push_back(br("PUBCOMP " + id, id, mq::ack(mq::PUBCOMP, 7)));
		}
		s.depth = th ? 5 : 3;
		s.deep = th ? 12 : 8;
		r.push_back(s);
	}
	{
		Scn s = scn("values");
		predef(s, "c1", "p/own", 0x8001);
		s.prefix = connected(A, "c1");
		s.prefix.push_back(dg("REGISTER n/a", A, w::reg(0, 11, "n/a")));
		s.body = []() {
			int st = v::thorough() ? 1 : 61;
			for (int l = 0; l <= 1000; l++)
				for (int q = 0; q < 3; q++)
				{
					must(pubEv(v::fmt("PUBLISH of %d bytes", l), A, "c1", "n/a", 0, q, l & 1, q ? 9 : 0, lots(l)));
					must(br("broker acknowledges", "c1", mq::ack(q == 1 ? mq::PUBACK : mq::PUBREC, 9)));
				}
			for (int m = 1; m < 65536; m += (m < 600 || m > 65000) ? 1 : st)
			{
				must(pubEv(v::fmt("PUBLISH q1 id %d", m), A, "c1", "n/a", 0, 1, 0, m, "x"));
				must(br("PUBACK", "c1", mq::ack(mq::PUBACK, m)));
				must(dg(v::fmt("PUBLISH q2 id %d", m), A, w::publish(0, 2, 0, w::PREDEF, w::b2(0x8001), m, "y")));
				must(br("PUBREC", "c1", mq::ack(mq::PUBREC, m)));
				must(dg("PUBREL", A, w::ack(w::PUBREL, m)));
				must(br("PUBCOMP", "c1", mq::ack(mq::PUBCOMP, m)));
				must(br("PUBREL", "c1", mq::ack(mq::PUBREL, m)));
				must(dg("PUBREC", A, w::ack(w::PUBREC, m)));
				must(dg("PUBCOMP", A, w::ack(w::PUBCOMP, m)));
				must(dg("PUBACK", A, w::puback(1, m, 0)));
			}
			for (int f = 0; f < 256; f++)
				if ((f & 0x60) != 0x60 && (f & 3) != 3)
				{
					Client* c = W.o.m().byClientId("c1");
					B id = (f & 3) == 0 ? w::b2(c->byName("n/a")->id) : (f & 3) == 1 ? w::b2(0x8001) : B("ab");
					must(dg(v::fmt("PUBLISH flags %02x", f), A, w::sn(w::PUBLISH, w::b1(f) + id + w::b2(f & 0x60 ? 77 : 0) + "payload")));
					must(br("PUBACK", "c1", mq::ack(mq::PUBACK, 77)));
				}
			for (int c1 = 1; c1 < 256; c1++)
				if (c1 != '+' && c1 != '#')
				{
					B t = w::b1(c1) + "q", u = "q" + w::b1(c1);
					must(dg(v::fmt("PUBLISH short %02x q", c1), A, w::publish(0, 1, 0, w::SHORT, t, 5, "s")));
					must(br("PUBACK", "c1", mq::ack(mq::PUBACK, 5)));
					must(dg(v::fmt("PUBLISH short q %02x", c1), A, w::publish(0, 1, 0, w::SHORT, u, 5, "s")));
					must(br("PUBACK", "c1", mq::ack(mq::PUBACK, 5)));
				}
			for (int l = 1; l <= 1016; l += l < 260 || l > 1000 ? 1 : 17)
			{
				if (l == 2)
					continue;
				B name = B(l, 'n');
				must(dg("CONNECT", A, w::connect("c1", 1, 0, 60)));
				must(br("CONNACK", "c1", mq::connack(0)));
				must(dg(v::fmt("REGISTER name of %d", l), A, w::reg(0, 3, name)));
				must(pubEv("PUBLISH", A, "c1", name, 0, 1, 0, 4, "x"));
				must(br("PUBACK", "c1", mq::ack(mq::PUBACK, 4)));
				must(pubEv("PUBLISH as large as can be", A, "c1", name, 0, 2, 0, 5, lots(1015)));
			}
		};
		r.push_back(s);
		Scn t = scn("many unacknowledged");
		t.prefix = connected(A, "c1");
		t.body = []() {
			for (int n = 1; n <= 21; n++)
				for (int order = 0; order < 2; order++)
				{
					for (int i = 0; i < n; i++)
						must(dg("PUBLISH", A, w::publish(0, 1, 0, w::SHORT, "a" + w::b1('a' + i), 100 + i, "x")));
					for (int i = 0; i < n; i++)
						must(br("PUBACK", "c1", mq::ack(mq::PUBACK, 100 + (order ? n - 1 - i : i))));
					must(br("PUBACK again", "c1", mq::ack(mq::PUBACK, 100)));
				}
			for (int n = 2; n <= 5; n++)
			{
				std::vector<int> p;
				for (int i = 0; i < n; i++)
					p.push_back(i);
				do
				{
					for (int i = 0; i < n; i++)
						must(dg("PUBLISH", A, w::publish(0, 1, 0, w::SHORT, "a" + w::b1('a' + i), 100 + i, "x")));
					for (int i : p)
						must(br("PUBACK", "c1", mq::ack(mq::PUBACK, 100 + i)));
				} while (std::next_permutation(p.begin(), p.end()));
			}
		};
		r.push_back(t);
	}
	return r;
}

// ---- G05 ------------------------------------------------------------------------------------------
static Scns g05()
{
	Scns r;
	bool th = v::thorough();
	for (int k = 0; k < 2; k++)
	{
		Scn s = scn(k ? "deliveries, session kept" : "deliveries");
		predef(s, "c1", "p/own", 1);
		predef(s, "*", "p/all", 2);
		s.prefix = connected(A, "c1", k ? 0 : 1);
		s.prefix.push_back(dg("REGISTER n/a", A, w::reg(0, 11, "n/a")));
		s.prefix.push_back(dg("SUBSCRIBE w/#", A, w::subscribe(0, 1, 12, w::NORMAL, "w/#")));
		s.prefix.push_back(br("SUBACK", "c1", mq::suback(12, 1)));
		s.alpha = {
			br("n/a q0", "c1", mq::publish(0, 0, 1, "n/a", 0, "1")),
			br("n/a q2 dup", "c1", mq::publish(1, 2, 0, "n/a", 31, "2")),
			br("w/x q0", "c1", mq::publish(0, 0, 0, "w/x", 0, "3")),
			br("w/x q1", "c1", mq::publish(0, 1, 1, "w/x", 32, "4")),
			br("w/y q2", "c1", mq::publish(0, 2, 0, "w/y", 33, "5")),
			br("p/own q1", "c1", mq::publish(0, 1, 0, "p/own", 34, "6")),
			br("short q1", "c1", mq::publish(0, 1, 0, "s\xff", 35, "7")),
			br("other q1", "c1", mq::publish(0, 1, 0, "other", 36, "8")),
			br("other q2", "c1", mq::publish(0, 2, 0, "other", 37, "9")),
			regackEv("REGACK", A, "c1", 0, 0),
			regackEv("REGACK refused", A, "c1", 0, 2),
			regackEv("REGACK second", A, "c1", 1, 0),
			dg("REGACK of nothing", A, w::regack(1, 0x7777, 0)),
			dg("PUBACK", A, w::puback(1, 32, 0)),
			dg("PUBREC", A, w::ack(w::PUBREC, 31)),
			br("PUBREL", "c1", mq::ack(mq::PUBREL, 31)),
			dg("PUBCOMP", A, w::ack(w::PUBCOMP, 31)),
			dg("PUBACK refused", A, w::puback(1, 32, 2)),
			{ "n/a, w/x and w/y at once", [](Model& m) {
				Client* c = m.byClientId("c1");
				Stim s;
				if (c->conn < 0)
					return s;
				s.kind = Stim::BROKER;
				s.conn = c->conn;
				s.data = mq::publish(0, 0, 0, "n/a", 0, "10") + mq::publish(0, 1, 0, "w/x", 38, "11") + mq::publish(0, 0, 0, "w/y", 0, "12");
				return s;
			} },
		};
		s.budget.assign(s.alpha.size(), 0);
		s.budget[2] = s.budget[3] = s.budget[4] = s.budget[18] = 2;
		s.budget[7] = s.budget[8] = k ? 1 : 0;
		s.depth = th ? 4 : 3;
		s.deep = th ? 8 : 5;
		r.push_back(s);
	}
	{
		Scn s = scn("values");
		s.conf.set("PredefinedTopic", "YES");
		s.prefix = connected(A, "c1");
		s.prefix.push_back(dg("REGISTER n/a", A, w::reg(0, 11, "n/a")));
		s.body = []() {
			int st = v::thorough() ? 1 : 61;
			for (int l = 0; l <= 1040; l++)
				for (int q = 0; q < 3; q++)
				{
					must(br(v::fmt("broker PUBLISH of %d bytes", l), "c1", mq::publish(0, q, l & 1, "n/a", 9, lots(l))));
					must(br(v::fmt("broker PUBLISH short of %d bytes", l), "c1", mq::publish(q > 0, q, 0, "ab", 9, lots(l))));
				}
			for (int m = 1; m < 65536; m += (m < 600 || m > 65000) ? 1 : st)
				for (int q = 1; q < 3; q++)
					must(br(v::fmt("broker PUBLISH id %d", m), "c1", mq::publish(m & 1, q, 0, "n/a", m, "x")));
			for (int l = 1; l <= 1030; l++)
			{
				if (l == 2)
					continue;
				B name = B(l, 'n');
				must(dg("CONNECT", A, w::connect("c1", 0, 0, 60)));
				must(br("CONNACK", "c1", mq::connack(0)));
				must(br(v::fmt("broker PUBLISH, name of %d", l), "c1", mq::publish(0, 1, 0, name, 4, "x" + B(l % 90, 'p'))));
				if (l <= 1016)
					must(regackEv("REGACK", A, "c1", 0, 0));
				must(dg("CONNECT", A, w::connect("c1", 1, 0, 60)));
				must(br("CONNACK", "c1", mq::connack(0)));
			}
		};
		r.push_back(s);
		Scn u = scn("every flag, QoS and kind of topic");
		predef(u, "c1", "p/own", 1);
		predef(u, "*", "p/all", 2);
		u.prefix = connected(A, "c1");
		u.body = []() {
			int msg = 250;
			for (int keep = 0; keep < 2; keep++)
				for (int asleep = 0; asleep < 3; asleep++)
					for (int f = 0; f < 16; f++)
					{
						if ((f & 6) == 6)
							continue;
						must(dg("CONNECT", A, w::connect("c1", !keep, 0, 60)));
						must(br("CONNACK", "c1", mq::connack(0)));
						must(dg("REGISTER n/a", A, w::reg(0, 11, "n/a")));
						must(dg("SUBSCRIBE w/#", A, w::subscribe(0, 1, 12, w::NORMAL, "w/#")));
						must(br("SUBACK", "c1", mq::suback(12, 1)));
						if (asleep)
							must(dg("DISCONNECT 100", A, w::disconnect(100)));
						if (asleep == 2)
							must(dg("PINGREQ", A, w::pingreq()));
						for (B t : { B("n/a"), v::fmt("w/%d", keep * 3 + asleep), B("ab"), B("p/own"), B("p/all"), B("\xff\xfe"), B("unknown/topic") })
						{
							msg = msg * 7 % 65521;
							must(br("message for " + t, "c1", mq::publish(f >> 3, f >> 1 & 3, f & 1, t, f & 6 ? msg : 0, "payload of " + t)));
							tryStep(regackEv("REGACK", A, "c1", 0, 0));
							if ((f & 6) == 4)
								must(br("PUBREL", "c1", mq::ack(mq::PUBREL, msg)));
						}
						if (asleep == 1)
						{
							must(dg("PINGREQ", A, w::pingreq()));
							for (int i = 0; i < 3; i++)
								tryStep(regackEv("REGACK", A, "c1", 0, 0));
							must(br("PINGRESP", "c1", mq::pingresp()));
						}
						must(dg("DISCONNECT", A, w::disconnect()));
					}
		};
		r.push_back(u);
		Scn t = scn("many new topics at once");
		t.prefix = connected(A, "c1", 0);
		t.body = []() {
			for (int n = 1; n <= 40; n++)
			{
				must(dg("CONNECT clean", A, w::connect("c1", 1, 0, 60)));
				must(br("CONNACK", "c1", mq::connack(0)));
				must(dg("SUBSCRIBE #", A, w::subscribe(0, 0, 3, w::NORMAL, "#")));
				for (int i = 0; i < n; i++)
					must(br("broker", "c1", mq::publish(0, i % 3, 0, v::fmt("new/%d", i), i + 1, v::fmt("%d", i))));
				for (int i = 0; i < n; i++)
					must(regackEv("REGACK", A, "c1", n % 2 ? 0 : n - 1 - i, 0));
				for (int i = 0; i < n; i++)
					must(br("broker again", "c1", mq::publish(0, i % 3, 0, v::fmt("new/%d", i), i + 1, v::fmt("%d", i))));
			}
		};
		r.push_back(t);
	}
	return r;
}

// ---- G06 ------------------------------------------------------------------------------------------
static Scns g06()
{
	Scns r;
	bool th = v::thorough();
	{
		Scn s = scn("subscriptions");
		predef(s, "c1", "p/own", 1);
		predef(s, "*", "p/all", 2);
		s.prefix = connected(A, "c1");
		s.alpha = {
			dg("SUBSCRIBE n/a 21", A, w::subscribe(0, 0, 21, w::NORMAL, "n/a")),
			dg("SUBSCRIBE n/a 21 dup", A, w::subscribe(1, 0, 21, w::NORMAL, "n/a")),
			dg("SUBSCRIBE n/b 22", A, w::subscribe(0, 1, 22, w::NORMAL, "n/b")),
			dg("SUBSCRIBE n/+ 23", A, w::subscribe(0, 2, 23, w::NORMAL, "n/+")),
			dg("SUBSCRIBE p/own 21", A, w::subscribe(0, 1, 21, w::PREDEF, w::b2(1))),
			dg("SUBSCRIBE p/all 22", A, w::subscribe(0, 1, 22, w::PREDEF, w::b2(2))),
			dg("SUBSCRIBE predefined 3", A, w::subscribe(0, 1, 23, w::PREDEF, w::b2(3))),
			dg("SUBSCRIBE short 23", A, w::subscribe(0, 2, 23, w::SHORT, "\x80\xc1")),
			dg("UNSUBSCRIBE n/a 24", A, w::unsubscribe(24, w::NORMAL, "n/a")),
			dg("UNSUBSCRIBE n/c 24", A, w::unsubscribe(24, w::NORMAL, "n/c")),
			dg("UNSUBSCRIBE p/own 25", A, w::unsubscribe(25, w::PREDEF, w::b2(1))),
			dg("UNSUBSCRIBE predefined 3", A, w::unsubscribe(25, w::PREDEF, w::b2(3))),
			dg("UNSUBSCRIBE short 25", A, w::unsubscribe(25, w::SHORT, "ab")),
			br("SUBACK 21", "c1", mq::suback(21, 0)),
			br("SUBACK 22", "c1", mq::suback(22, 2)),
			br("SUBACK 22 refused", "c1", mq::suback(22, 0x80)),
			br("SUBACK 23", "c1", mq::suback(23, 1)),
			br("UNSUBACK 24", "c1", mq::ack(mq::UNSUBACK, 24)),
			br("UNSUBACK 25", "c1", mq::ack(mq::UNSUBACK, 25)),
			br("broker n/a", "c1", mq::publish(0, 0, 0, "n/a", 0, "x")),
			dg("CONNECT", A, w::connect("c1", 1, 0, 60)),
			br("CONNACK", "c1", mq::connack(0)),
		};
		s.budget.assign(s.alpha.size(), 0);
		s.budget[20] = 1;
		s.depth = th ? 4 : 3;
		s.deep = th ? 8 : 5;
		r.push_back(s);
	}
	{
		Scn s = scn("two subscribers with the same message ids");
		for (int k = 0; k < 2; k++)
		{
			Addr a = k ? Bb : A;
			B id = k ? "d2" : "c1";
			s.prefix += connected(a, id);
			s.alpha.push_back(dg("SUBSCRIBE n/" + id, a, w::subscribe(0, k, 21, w::NORMAL, "n/" + id)));
			s.alpha.push_back(dg("SUBSCRIBE same " + id, a, w::subscribe(0, 2, 22, w::NORMAL, "same")));
			s.alpha.push_back(dg("UNSUBSCRIBE same " + id, a, w::unsubscribe(23, w::NORMAL, "same")));
			s.alpha.push_back(br("SUBACK 21 " + id, id, mq::suback(21, k)));
			s.alpha.push_back(br("SUBACK 22 " + id, id, mq::suback(22, 1)));
			s.alpha.push_back(br("UNSUBACK 23 " + id, id, mq::ack(mq::UNSUBACK, 23)));
		}
		s.depth = th ? 5 : 3;
		s.deep = th ? 12 : 7;
		r.push_back(s);
	}
	{
		Scn s = scn("values");
		s.prefix = connected(A, "c1");
		s.body = []() {
			int st = v::thorough() ? 1 : 61;
			for (int m = 1; m < 65536; m += (m < 600 || m > 65000) ? 1 : st)
			{
				must(dg(v::fmt("SUBSCRIBE id %d", m), A, w::subscribe(m & 1, m % 3, m, w::NORMAL, "n/a")));
				must(br("SUBACK", "c1", mq::suback(m, m % 3)));
				must(dg(v::fmt("UNSUBSCRIBE id %d", m), A, w::unsubscribe(m, w::NORMAL, "n/a")));
				must(br("UNSUBACK", "c1", mq::ack(mq::UNSUBACK, m)));
			}
			for (int c1 = 1; c1 < 256; c1++)
				for (int k = 0; k < 2; k++)
				{
					B t = k ? "q" + w::b1(c1) : w::b1(c1) + "q";
					must(dg(v::fmt("SUBSCRIBE short %02x", c1), A, w::subscribe(0, 1, 5, w::SHORT, t)));
					must(br("SUBACK", "c1", mq::suback(5, 1)));
					must(dg(v::fmt("UNSUBSCRIBE short %02x", c1), A, w::unsubscribe(6, w::SHORT, t)));
					must(br("UNSUBACK", "c1", mq::ack(mq::UNSUBACK, 6)));
				}
			for (int l = 1; l <= 250; l++)
				for (int k = 0; k < 2; k++)
				{
					B name = B(l, 'n');
					if (k)
						name[l / 2] = '+';
					must(dg("CONNECT", A, w::connect("c1", 1, 0, 60)));
					must(br("CONNACK", "c1", mq::connack(0)));
					must(dg(v::fmt("SUBSCRIBE name of %d", l), A, w::subscribe(0, 1, 3, w::NORMAL, name)));
					must(br("SUBACK", "c1", mq::suback(3, 1)));
					must(dg("UNSUBSCRIBE", A, w::unsubscribe(4, w::NORMAL, name)));
					must(br("UNSUBACK", "c1", mq::ack(mq::UNSUBACK, 4)));
				}
		};
		r.push_back(s);
		Scn u = scn("every kind of topic, QoS, message id and return code");
		predef(u, "c1", "p/own", 0x8001);
		predef(u, "*", "p/all", 2);
		u.prefix = connected(A, "c1");
		u.prefix.push_back(dg("REGISTER n/a", A, w::reg(0, 11, "n/a")));
		u.body = []() {
			struct
			{
				int type;
				B topic;
			} ts[] = { { w::NORMAL, "n/a" }, { w::NORMAL, "w/+" }, { w::NORMAL, "p/all" }, { w::PREDEF, w::b2(0x8001) }, { w::PREDEF, w::b2(2) }, { w::PREDEF, w::b2(0x1234) }, { w::SHORT, "ab" }, { w::SHORT, "\xff\x80" } };
			for (auto& t : ts)
				for (int q = 0; q < 3; q++)
					for (int m : { 1, 0x7f, 0x80, 0xff, 0x100, 0x1234, 0x7fff, 0x8000, 0xff00, 0xffff })
						for (int rc : { 0, 1, 2, 0x80 })
						{
							must(dg("SUBSCRIBE", A, w::subscribe(rc == 1, q, m, t.type, t.topic)));
							must(br("SUBACK", "c1", mq::suback(m, rc)));
							must(dg("UNSUBSCRIBE", A, w::unsubscribe(m, t.type, t.topic)));
							must(br("UNSUBACK", "c1", mq::ack(mq::UNSUBACK, m)));
						}
		};
		r.push_back(u);
		Scn t = scn("many unanswered");
		t.prefix = connected(A, "c1");
		t.body = []() {
			for (int n = 1; n <= 21; n++)
				for (int order = 0; order < 2; order++)
				{
					for (int i = 0; i < n; i++)
						must(dg("SUBSCRIBE", A, w::subscribe(0, i % 3, 100 + i, w::NORMAL, v::fmt("many/%d", i))));
					for (int i = 0; i < n; i++)
						must(br("SUBACK", "c1", mq::suback(100 + (order ? n - 1 - i : i), i % 7 ? i % 3 : 0x80)));
					must(br("SUBACK again", "c1", mq::suback(100, 0)));
				}
			for (int n = 2; n <= 5; n++)
			{
				std::vector<int> p;
				for (int i = 0; i < n; i++)
					p.push_back(i);
				do
				{
					for (int i = 0; i < n; i++)
						must(dg("SUBSCRIBE", A, w::subscribe(0, i % 3, 100 + i, i & 1 ? w::NORMAL : w::SHORT, i & 1 ? v::fmt("many/%d", i) : v::fmt("s%d", i))));
					for (int i : p)
						must(br("SUBACK", "c1", mq::suback(100 + i, i % 3)));
				} while (std::next_permutation(p.begin(), p.end()));
			}
		};
		r.push_back(t);
	}
	return r;
}

// ---- G07 ------------------------------------------------------------------------------------------
static Scns g07()
{
	Scns r;
	bool th = v::thorough();
	for (int k = 0; k < 2; k++)
	{
		Scn s = scn(k ? "sleep, session kept" : "sleep");
		s.prefix = connected(A, "c1", 1 - k);
		s.prefix.push_back(dg("REGISTER n/a", A, w::reg(0, 11, "n/a")));
		s.prefix.push_back(dg("SUBSCRIBE w/#", A, w::subscribe(0, 1, 12, w::NORMAL, "w/#")));
		s.prefix.push_back(br("SUBACK", "c1", mq::suback(12, 1)));
		s.alpha = {
			dg("DISCONNECT 10", A, w::disconnect(10)),
			dg("PINGREQ", A, w::pingreq("c1")),
			br("PINGRESP", "c1", mq::pingresp()),
			br("n/a q0", "c1", mq::publish(0, 0, 0, "n/a", 0, "1")),
			br("n/a q1", "c1", mq::publish(0, 1, 0, "n/a", 41, "2")),
			br("n/a q2", "c1", mq::publish(0, 2, 1, "n/a", 42, "3")),
			br("w/x q1", "c1", mq::publish(0, 1, 0, "w/x", 43, "4")),
			br("w/y q0", "c1", mq::publish(0, 0, 0, "w/y", 0, "5")),
			br("PUBREL", "c1", mq::ack(mq::PUBREL, 42)),
			regackEv("REGACK", A, "c1", 0, 0),
			regackEv("REGACK second", A, "c1", 1, 0),
			dg("PUBACK", A, w::puback(1, 41, 0)),
			dg("CONNECT", A, w::connect("c1", 0, 0, 60)),
			br("CONNACK", "c1", mq::connack(0)),
			dg("DISCONNECT", A, w::disconnect()),
			dg("PUBLISH", A, w::publish(0, 1, 0, w::SHORT, "ab", 51, "x")),
			br("broker PUBACK", "c1", mq::ack(mq::PUBACK, 51)),
			fault("broker closes", "c1", Stim::CLOSE),
			waitMs("60 s pass", 60000),
			dg("CONNECT clean", A, w::connect("c1", 1, 0, 60)),
		};
		s.budget.assign(s.alpha.size(), 0);
		s.budget[3] = s.budget[4] = s.budget[5] = s.budget[6] = s.budget[7] = 2;
		s.budget[17] = s.budget[18] = s.budget[19] = 1;
		s.depth = th ? 4 : 3;
		s.deep = th ? 8 : 5;
		r.push_back(s);
		s.name += ", asleep";
		s.prefix.push_back(dg("DISCONNECT 10", A, w::disconnect(10)));
		s.prefix.push_back(br("n/a q1", "c1", mq::publish(0, 1, 0, "n/a", 40, "0")));
		r.push_back(s);
	}
	{
		Scn s = scn("two sleepers");
		for (int k = 0; k < 2; k++)
		{
			Addr a = k ? Bb : A;
			B id = k ? "d2" : "c1";
			s.prefix += connected(a, id);
			s.alpha.push_back(dg("DISCONNECT 10 " + id, a, w::disconnect(10)));
			s.alpha.push_back(dg("PINGREQ " + id, a, w::pingreq(id)));
			s.alpha.push_back(br("PINGRESP " + id, id, mq::pingresp()));
			s.alpha.push_back(br("message " + id, id, mq::publish(0, 1, 0, "ab", 41, "for " + id)));
			s.alpha.push_back(dg("CONNECT " + id, a, w::connect(id, 0, 0, 60)));
		}
		s.budget = { 0, 0, 0, 2, 1, 0, 0, 0, 2, 1 };
		s.depth = th ? 5 : 3;
		s.deep = th ? 12 : 7;
		r.push_back(s);
	}
	{
		Scn s = scn("many kept messages");
		s.prefix = connected(A, "c1", 0);
		s.prefix.push_back(dg("REGISTER n/a", A, w::reg(0, 11, "n/a")));
		s.body = []() {
			for (int n = 0; n <= 20; n++)
				for (int how = 0; how < 3; how++)
				{
					must(dg("DISCONNECT 10", A, w::disconnect(10)));
					for (int i = 0; i < n; i++)
						must(br("message", "c1", mq::publish(i % 5 == 1, i % 3, i & 1, i % 4 == 3 ? "ab" : "n/a", (i + 1) * 3001, v::fmt("message %d", i) + lots(i * 40))));
					if (how < 2)
					{
						must(dg("PINGREQ", A, w::pingreq("c1")));
						must(br("PINGRESP", "c1", mq::pingresp()));
					}
					if (how)
						must(dg("CONNECT", A, w::connect("c1", 0, 0, 60)));
					else
					{
						must(dg("PINGREQ", A, w::pingreq("c1")));
						must(br("PINGRESP", "c1", mq::pingresp()));
						must(dg("CONNECT", A, w::connect("c1", 0, 0, 60)));
					}
				}
		};
		r.push_back(s);
	}
	return r;
}

// ---- G08 ------------------------------------------------------------------------------------------
static Scns g08()
{
	Scns r;
	bool th = v::thorough();
	struct
	{
		const char* name;
		B a, b, c;
	} sets[] = { { "identifiers which begin alike", "sensor1", "sensor", "sensor12" }, { "an empty identifier", "n1", "", "n" }, { "identifiers in other order", "x", "xy", "xyz" } };
	for (auto& t : sets)
	{
		Scn s = scn(t.name);
		B ids[3] = { t.a, t.b, t.c };
		Addr as[3] = { A, Bb, Cc };
		for (int k = 0; k < 3; k++)
		{
			B id = ids[k];
			Addr a = as[k];
			B n = "'" + id + "'";
			s.alpha.push_back(dg("CONNECT " + n, a, w::connect(id, 1, 0, 60 + k)));
			s.alpha.push_back(br("CONNACK " + n, id, mq::connack(0)));
			s.alpha.push_back(dg("PUBLISH " + n, a, w::publish(0, 1, 0, w::SHORT, "ab", 7, id)));
			s.alpha.push_back(br("PUBACK " + n, id, mq::ack(mq::PUBACK, 7)));
			s.alpha.push_back(br("message " + n, id, mq::publish(0, 0, 0, "ab", 0, id)));
			s.alpha.push_back(dg("DISCONNECT " + n, a, w::disconnect()));
		}
		s.alpha.push_back(dg("PUBLISH of a stranger", X, w::publish(0, 1, 0, w::SHORT, "ab", 7, "?")));
		s.alpha.push_back(dg("CONNECT from another address", X, w::connect(t.a, 1, 0, 60)));
		s.alpha.push_back(dg("SEARCHGW", X, w::sn(w::SEARCHGW, w::b1(0))));
		s.depth = th ? 4 : 3;
		s.deep = th ? 12 : 6;
		r.push_back(s);
	}
	{
		Scn s = scn("topics and subscriptions of two clients");
		for (int k = 0; k < 2; k++)
		{
			Addr a = k ? Cc : A;		// one host, two ports
			B id = k ? "d2" : "c1";
			s.prefix += connected(a, id);
			s.alpha.push_back(dg("REGISTER " + id, a, w::reg(0, 5, "n/" + id)));
			s.alpha.push_back(dg("REGISTER same " + id, a, w::reg(0, 5, "n/same")));
			s.alpha.push_back(dg("SUBSCRIBE " + id, a, w::subscribe(0, 0, 6, w::NORMAL, "s/+")));
			s.alpha.push_back(br("SUBACK " + id, id, mq::suback(6, 0)));
			s.alpha.push_back(pubEv("PUBLISH " + id, a, id, "n/" + id, 0, 1, 0, 7, "p"));
			s.alpha.push_back(pubEv("PUBLISH same " + id, a, id, "n/same", 0, 1, 0, 7, "p"));
			s.alpha.push_back(br("message " + id, id, mq::publish(0, 0, 0, "s/x", 0, "m" + id)));
			s.alpha.push_back(regackEv("REGACK " + id, a, id, 0, 0));
			s.alpha.push_back(dg("DISCONNECT 9 " + id, a, w::disconnect(9)));
			s.alpha.push_back(dg("PINGREQ " + id, a, w::pingreq()));
		}
		s.budget.assign(s.alpha.size(), 0);
		s.budget[6] = s.budget[16] = 2;
		s.depth = th ? 4 : 3;
		s.deep = th ? 9 : 4;
		r.push_back(s);
	}
	{
		Scn s = scn("an address changes hands");
		for (int k = 0; k < 2; k++)
		{
			B id = k ? "d2" : "c1";
			for (int j = 0; j < 2; j++)
			{
				s.alpha.push_back(dg("CONNECT " + id + (j ? " from B" : " from A"), j ? Bb : A, w::connect(id, k, 0, 60 + k)));
				if (k == j)
					s.alpha.push_back(dg("PUBLISH from " + B(j ? "B" : "A"), j ? Bb : A, w::publish(0, 1, 0, w::SHORT, "ab", 7, id)));
			}
			s.alpha.push_back(br("CONNACK " + id, id, mq::connack(0)));
			s.alpha.push_back(br("message " + id, id, mq::publish(0, 0, 0, "ab", 0, id)));
		}
		s.depth = th ? 5 : 4;
		s.deep = th ? 9 : 5;
		r.push_back(s);
	}
	{
		Scn s = scn("addresses which differ in one bit");
		s.prefix = connected(A, "c1");
		s.body = []() {
			for (int i = 0; i < 48; i++)
			{
				Addr a = A;
				if (i < 32)
					a.ip ^= 1u << i;
				else
					a.port ^= 1 << (i - 32);
				B n = v::fmt(" (bit %d of the address)", i);
				must(dg("PUBLISH of a stranger" + n, a, w::publish(0, 1, 0, w::SHORT, "ab", 7, "?")));
				must(dg("DISCONNECT of a stranger" + n, a, w::disconnect()));
				must(dg("CONNECT d2" + n, a, w::connect("d2", 1, 0, 60)));
				must(br("CONNACK", "d2", mq::connack(0)));
				must(br("message d2", "d2", mq::publish(0, 0, 0, "ab", 0, "for d2")));
				must(br("message c1", "c1", mq::publish(0, 0, 0, "ab", 0, "for c1")));
				must(dg("PUBLISH d2", a, w::publish(0, 0, 0, w::SHORT, "ab", 0, "d2")));
				must(dg("PUBLISH c1", A, w::publish(0, 0, 0, w::SHORT, "ab", 0, "c1")));
			}
		};
		r.push_back(s);
	}
	{
		Scn s = scn("listed clients only");
		s.conf.set("ClientAuthentication", "YES");
		s.conf.clients = "# list\nc1,10.0.0.1:5001\nd2,10.0.0.2:5001\n";
		s.cfg.auth = true;
		s.cfg.listed = { { "c1", A }, { "d2", Bb } };
		for (int k = 0; k < 2; k++)
		{
			Addr a = k ? Bb : A;
			B id = k ? "d2" : "c1";
			s.alpha.push_back(dg("CONNECT " + id, a, w::connect(id, 1, 0, 60)));
			s.alpha.push_back(br("CONNACK " + id, id, mq::connack(0)));
			s.alpha.push_back(dg("PUBLISH " + id, a, w::publish(0, 1, 0, w::SHORT, "ab", 7, id)));
		}
		s.alpha.push_back(dg("CONNECT c1 from elsewhere", X, w::connect("c1", 1, 0, 60)));
		s.alpha.push_back(dg("CONNECT of an unlisted client", X, w::connect("x9", 1, 0, 60)));
		s.alpha.push_back(dg("PUBLISH from elsewhere", X, w::publish(0, 1, 0, w::SHORT, "ab", 7, "?")));
		s.depth = th ? 5 : 4;
		s.deep = th ? 12 : 8;
		r.push_back(s);
	}
	return r;
}
