// T03: Ctrl-C.  SIGINT comes at every scheduling point of the gateway while it deals with a batch of
// stimuli, in every schedule with at most `bound` preemptions or early time-outs; all its tasks must
// end and the program with its destructors must exit.
struct Stop
{
	std::string name;
	std::vector<Ev> prefix, batch;
	std::function<void(gw::Config&)> conf;
	std::function<void()> late;		// in the 12 s after SIGINT and the batch
	int quick = 1, thorough = 2;
	std::string known;				// a recorded finding which may keep the gateway from ending
};

static bool signalled;
static int signalHandled;
static void stopRace(const Stop& r, int bound, bool atStart, int dataBound)
{
	std::vector<Stim> batch;
	std::string names = "SIGINT";
	for (auto& e : r.batch)
	{
		Stim s = e.make(W.o.m());
		if (s.kind == Stim::NONE)
			ex::violation("harness: " + e.name + " not possible");
		batch.push_back(s);
		names += " || " + describe(e, s);
	}
	ex::traceText.push_back(names);
	int64_t t0 = vos::nowUs();
	auto go = [&]() {
		for (auto& s : batch)
			applyReal(s);
		signalled = false;
		vos::spawn("ctrl-c", [&t0]() {
			vos::yieldPoint("ctrl-c");
			signalled = vos::raiseSignal(2);
			t0 = vos::nowUs();
		});
		if (atStart)
			W.mainFiber = vos::spawn("main", []() { gateway_main(3, gw::argv()); });
		vos::quiesce();
	};
	std::vector<uintptr_t> hot;
	if (dataBound)
		hot = sched::hotCode([&]() {
			go();
			vos::advance(3000000);
		});
	sched::begin(bound, -1, dataBound);
	vos::fine::schedule(hot);
	go();
	if (!r.late)
		vos::advance(3000000);
	vos::picker = nullptr;
	vos::fine::off();
	if (!signalled)
	{
		// it came before the program asked for it, which ends any program
		sched::finish();
		return;
	}
	if (r.late)
		r.late();
	else
		vos::advance(12000000);
	for (int i = 0; i < vos::fiberCount(); i++)
		if (!vos::fiberDone(i))
		{
			if (!r.known.empty() && ex::known(r.known))
			{
				sched::finish();
				return;
			}
			ex::violation("12 s after SIGINT " + vos::fiberName(i) + " has not ended: " + vos::fiberState());
		}
	ex::S->transitions++;
	ex::noteState(ex::hashStr(r.name) ^ vos::outs.size());
	// the destructors of the program
	pid_t p = fork();
	if (p == 0)
	{
		ex::kids = 0;
		exit(0);
	}
	int st = 0;
	while (waitpid(p, &st, 0) < 0 && errno == EINTR)
		;
	if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
		ex::violation(v::fmt("after SIGINT all tasks ended, but then the program was ended by %s %d", WIFSIGNALED(st) ? "signal" : "exit status",
				WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)));
	sched::finish();
}

static Scns t03()
{
	std::vector<Stop> cases;
	auto conn = [](const Addr& a, const B& id, int clean = 1) { return std::vector<Ev> { dg(id + ": CONNECT", a, w::connect(id, clean, 0, 60)), br(id + ": CONNACK", id, mq::connack(0)) }; };
	auto cat = [](std::vector<Ev> a, const std::vector<Ev>& b) {
		a.insert(a.end(), b.begin(), b.end());
		return a;
	};
	auto pub = [](const Addr& a, int qos, int mid, const B& t = "ab") { return dg(v::fmt("PUBLISH q%d", qos), a, w::publish(0, qos, 0, w::SHORT, t, mid, "x")); };
	auto msg = [](const B& id, int qos, int mid, const B& t = "to") { return br(v::fmt("message q%d", qos), id, mq::publish(0, qos, 0, t, mid, "m")); };
	auto small = [](gw::Config& c) { c.set("MaxNumberOfClients", "1").set("MaxInflightMsgs", "1"); };
	std::vector<Ev> c1 = conn(A, "c1"), two = cat(c1, conn(Bb, "c2"));
	cases.push_back({ "idle", {}, {}, nullptr, nullptr, 2, 3 });
	cases.push_back({ "connecting", {}, { dg("CONNECT", A, w::connect("c1", 1, 0, 60)) } });
	cases.push_back({ "connected", c1, {}, nullptr, nullptr, 2, 3 });
	cases.push_back({ "publish-and-message", c1, { pub(A, 1, 5), msg("c1", 1, 9) } });
	cases.push_back({ "two-clients", two, { pub(A, 1, 5), msg("c2", 1, 9), pub(Bb, 0, 0) } });
	cases.push_back({ "closed", c1, { fault("broker closes", "c1", Stim::CLOSE), pub(A, 1, 5) } });
	cases.push_back({ "asleep", cat(c1, { dg("DISCONNECT 10", A, w::disconnect(10)), msg("c1", 0, 0, "t1") }), { dg("PINGREQ", A, w::pingreq("c1")), msg("c1", 1, 9) } });
	cases.push_back({ "new-topic", c1, { msg("c1", 1, 9, "new/topic"), msg("c1", 0, 0, "other/topic") } });
	cases.push_back({ "broker-down", { brokerUp(false) }, { dg("CONNECT", A, w::connect("c1", 1, 0, 60)) } });
	cases.push_back({ "disconnected", cat(c1, { dg("DISCONNECT", A, w::disconnect()) }), { dg("DISCONNECT", A, w::disconnect()) } });
	cases.push_back({ "small-queue", c1, { pub(A, 0, 0), pub(A, 0, 0), pub(A, 0, 0) }, small, nullptr, 2, 3 });
	cases.push_back({ "small-queue-messages", c1, { msg("c1", 0, 0), pub(A, 0, 0), msg("c1", 0, 0), pub(A, 0, 0) }, small, nullptr, 2, 3 });
	cases.push_back({ "traffic-goes-on", c1, { pub(A, 1, 5) }, nullptr, []() {
		for (int i = 0; i < 60; i++)
		{
			gw::datagram(A, w::publish(0, 1, 0, w::SHORT, "ab", 6, "x"));
			gw::brokerSend(0, mq::publish(0, 0, 0, "to", 0, "m"));
			vos::advance(200000);
		}
	} });
	cases.push_back({ "searchgw", {}, { dg("SEARCHGW", X, w::sn(w::SEARCHGW, w::b1(0))) } });
	cases.push_back({ "forwarder", {}, { dg("CONNECT", A, w::encap("n1", w::connect("c1", 1, 0, 60))) }, [](gw::Config& c) {
		c.set("Forwarder", "YES").set("ClientAuthentication", "NO");
		c.clients = "fw1,10.0.0.1:5001,forwarder\n";
	} });
	cases.push_back({ "aggregating", {}, { dg("CONNECT", A, w::connect("c1", 1, 0, 60)) }, [](gw::Config& c) { c.set("AggregatingGateway", "YES"); } });
	cases.push_back({ "qos-1", {}, { dg("PUBLISH", A, w::publish(0, 3, 0, w::SHORT, "ab", 0, "x")) }, [](gw::Config& c) {
		c.set("QoS-1", "YES");
		c.clients = "m1,10.0.0.1:5001,QoS-1\n";
	} });
	cases.push_back({ "half-a-packet", c1, { br("half a message", "c1", mq::publish(0, 0, 0, "to", 0, "m").substr(0, 5)) }, nullptr, nullptr, 1, 2, "broker-stall" });
	Scns out;
	for (auto& r : cases)
		for (int start = 0; start < (r.name == "idle" ? 2 : 1); start++)
		{
			int bound = v::thorough() ? r.thorough : r.quick;
			if (getenv("VERIF_BOUND"))
				bound = atoi(getenv("VERIF_BOUND"));
			Scn s = scn(start ? "starting" : r.name);
			if (r.conf)
				r.conf(s.conf);
			s.unstarted = start;
			s.prefix = r.prefix;
			s.bounds = v::fmt("SIGINT at every point, all schedules with at most %d preemptions or early time-outs", bound);
			s.body = [r, bound, start]() { stopRace(r, bound, start, 0); };
			out.push_back(s);
			if (!getenv("VERIF_BOUND"))
				bound = v::thorough() ? 2 : 1;
			s.name = "data-" + s.name;
			s.bounds = v::fmt("SIGINT at every point, all schedules with at most %d preemptions or early time-outs, one of them at an access to shared data", bound);
			s.body = [r, bound, start]() { stopRace(r, bound, start, 1); };
			out.push_back(s);
		}
	return out;
}
