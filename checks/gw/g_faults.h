// G17: system calls which fail, once.  What a datagram does which could not be sent is what a lost one
// does, and a call which was interrupted changes nothing at all: the model does not know of them.
static Scns g17()
{
	Scns r;
	bool th = v::thorough();
	std::vector<Ev> faults;
	struct
	{
		const char* call;
		std::vector<int> errs;
		int skips;
	} kinds[] = {
		{ "sendto", { EHOSTUNREACH, ENOBUFS }, 3 },
		{ "poll", { EINTR, ENOMEM }, 3 },
		{ "select", { EINTR, ENOMEM }, 3 },
		{ "recvfrom", { EINTR, ECONNREFUSED }, 2 },
		{ "recv", { EINTR, EAGAIN }, 4 },
	};
	auto scenario = [&](const B& name, const std::vector<Ev>& alpha, const std::vector<Ev>& prefix, int depth, int deep, void (*prep)(Scn&)) {
		for (auto& k : kinds)
			for (int e : k.errs)
			{
				if (!th && e != k.errs[0] && name != "a client")
					continue;
				Scn s = scn(name + ", " + k.call + " fails with " + strerrorname_np(e));
				predef(s, "*", "p/all", 2);
				if (prep)
					prep(s);
				s.prefix = prefix;
				s.alpha = alpha;
				s.budget.assign(alpha.size(), 0);
				for (size_t i = 0; i < alpha.size(); i++)
					if (alpha[i].name.compare(0, 8, "message ") == 0 && alpha[i].name.find('/') != B::npos)
						s.budget[i] = 1;	// a second one before the REGACK: see publish-before-regack
				for (int i = 0; i < k.skips; i++)
				{
					s.alpha.push_back(failing(k.call, e, i));
					s.budget.push_back(th ? 2 : 1);
				}
				s.depth = depth;
				s.deep = deep;
				r.push_back(s);
			}
	};
	scenario("a client", {
			dg("CONNECT", A, w::connect("c1", 1, 0, 60)),
			dg("CONNECT will", A, w::connect("c1", 0, 1, 60)),
			dg("WILLTOPIC", A, w::willtopic("wt", 1, 1)),
			dg("WILLMSG", A, w::willmsg("gone")),
			br("CONNACK", "c1", mq::connack(0)),
			dg("REGISTER", A, w::reg(0, 11, "n/a")),
			dg("PUBLISH q1", A, w::publish(0, 1, 0, w::SHORT, "ab", 7, "1")),
			dg("PUBLISH q2", A, w::publish(0, 2, 0, w::PREDEF, w::b2(2), 8, "2")),
			br("PUBACK", "c1", mq::ack(mq::PUBACK, 7)),
			br("PUBREC", "c1", mq::ack(mq::PUBREC, 8)),
			dg("PUBREL", A, w::ack(w::PUBREL, 8)),
			dg("SUBSCRIBE", A, w::subscribe(0, 1, 12, w::NORMAL, "w/#")),
			br("SUBACK", "c1", mq::suback(12, 1)),
			br("message w/x", "c1", mq::publish(0, 1, 0, "w/x", 31, "m1")),
			br("two messages", "c1", mq::publish(0, 0, 0, "ab", 0, "m2") + mq::publish(0, 0, 0, "cd", 0, "m3")),
			regackEv("REGACK", A, "c1", 0, 0),
			dg("DISCONNECT", A, w::disconnect()),
			fault("broker closes", "c1", Stim::CLOSE),
			multi(search(X, 1)),
		}, { }, th ? 4 : 3, th ? 7 : 5, nullptr);
	scenario("a sleeping client", {
			dg("DISCONNECT 10", A, w::disconnect(10)),
			br("message", "c1", mq::publish(0, 0, 0, "ab", 0, "m1")),
			br("message q1", "c1", mq::publish(0, 1, 0, "cd", 32, "m2")),
			br("message n/x", "c1", mq::publish(0, 1, 0, "n/x", 33, "m3")),
			dg("PINGREQ", A, w::pingreq("c1")),
			br("PINGRESP", "c1", mq::pingresp()),
			dg("PUBACK", A, w::puback(2, 32, 0)),
			regackEv("REGACK", A, "c1", 0, 0),
			dg("CONNECT", A, w::connect("c1", 0, 0, 60)),
		}, { dg("CONNECT", A, w::connect("c1", 1, 0, 60)), br("CONNACK", "c1", mq::connack(0)) }, th ? 5 : 4, th ? 10 : 6, nullptr);
	scenario("two clients", {
			dg("PUBLISH c1", A, w::publish(0, 1, 0, w::SHORT, "ab", 7, "1")),
			dg("PUBLISH d2", Bb, w::publish(0, 1, 0, w::SHORT, "ab", 7, "2")),
			br("PUBACK c1", "c1", mq::ack(mq::PUBACK, 7)),
			br("message c1", "c1", mq::publish(0, 0, 0, "ab", 0, "m1")),
			br("message d2", "d2", mq::publish(0, 0, 0, "ab", 0, "m2")),
			fault("broker closes c1", "c1", Stim::CLOSE),
			fault("broker resets d2", "d2", Stim::RESET),
			dg("CONNECT c1", A, w::connect("c1", 1, 0, 60)),
			br("CONNACK c1", "c1", mq::connack(0)),
		}, { dg("CONNECT", A, w::connect("c1", 1, 0, 60)), br("CONNACK", "c1", mq::connack(0)), dg("CONNECT d2", Bb, w::connect("d2", 1, 0, 60)), br("CONNACK d2", "d2", mq::connack(0)) }, th ? 5 : 4, th ? 10 : 6, nullptr);
	scenario("through a forwarder", {
			via(F1, "n1", dg("CONNECT", A, w::connect("c1", 1, 0, 60))),
			br("CONNACK", "c1", mq::connack(0)),
			via(F1, "n1", dg("PUBLISH", A, w::publish(0, 1, 0, w::SHORT, "ab", 7, "1"))),
			br("PUBACK", "c1", mq::ack(mq::PUBACK, 7)),
			br("message", "c1", mq::publish(0, 0, 0, "ab", 0, "m1")),
			via(F1, "n2", dg("CONNECT d2", A, w::connect("d2", 1, 0, 60))),
			br("CONNACK d2", "d2", mq::connack(0)),
			via(F1, "n1", dg("DISCONNECT", A, w::disconnect())),
		}, { }, th ? 6 : 4, th ? 10 : 7, [](Scn& s) { forwarders(s, 1); });
	return r;
}
