// T01: event queues.  Every schedule of a few threads which post to and wait for one queue; what they
// get must be a history of a bounded first-in first-out queue (each operation at one moment between
// its beginning and its end), and nobody waits while there is an event.
struct QOp
{
	enum { POST, WAIT, TIMED } kind;
	int id;			// of the event; -1: time-out
	int from, to;	// moments
};
static std::vector<QOp> QH;
static int qclock;

// an id travels in an event as the pointer of its client, which nobody follows
static int eventId(MQTTSNGW::Event* e)
{
	int id = e->getEventType() == MQTTSNGW::EtTimeout ? -1 : (int) (intptr_t) e->getClient();
	delete e;
	return id;
}

static bool linear(std::vector<QOp>& ops, std::vector<bool>& done, std::deque<int>& q, size_t max, size_t left)
{
	if (left == 0)
		return true;
	int first = 1 << 30;
	for (size_t i = 0; i < ops.size(); i++)
		if (!done[i] && ops[i].to < first)
			first = ops[i].to;
	for (size_t i = 0; i < ops.size(); i++)
	{
		if (done[i] || ops[i].from > first)
			continue;
		const QOp& o = ops[i];
		done[i] = true;
		if (o.kind == QOp::POST)
		{
			bool room = !max || q.size() < max;
			if (room)
				q.push_back(o.id);
			if (linear(ops, done, q, max, left - 1))
				return true;
			if (room)
				q.pop_back();
		}
		else if (o.id < 0)
		{
			if (q.empty() && linear(ops, done, q, max, left - 1))
				return true;
		}
		else if (!q.empty() && q.front() == o.id)
		{
			q.pop_front();
			if (linear(ops, done, q, max, left - 1))
				return true;
			q.push_front(o.id);
		}
		done[i] = false;
	}
	return false;
}

struct QCase
{
	std::string name;
	std::vector<int> posts;			// per producer: number of events
	std::vector<int> takes;			// per consumer: number of events; negative: by timedwait
	int max = 0, before = 0;		// size of the queue; events posted before
	bool twice = false;				// posted and taken before, so that the semaphore is ahead
	int quick = 2, thorough = 3;
};

static void runQueue(const QCase& c, int bound, int dataBound)
{
	auto* q = new MQTTSNGW::EventQue();
	if (c.max)
		q->setMaxSize(c.max);
	auto post = [q](int id) {
		auto* e = new MQTTSNGW::Event();
		e->setClientSendEvent((MQTTSNGW::Client*) (intptr_t) id, nullptr);
		q->post(e);
	};
	QH.clear();
	qclock = 0;
	if (c.twice)
		for (int i = 0; i < 3; i++)
		{
			post(90 + i);
			int got = eventId(q->wait());
			if (got != 90 + i)
				ex::violation(v::fmt("event %d posted, event %d received", 90 + i, got));
		}
	for (int i = 0; i < c.before; i++)
	{
		post(80 + i);
		QH.push_back({ QOp::POST, 80 + i, qclock, qclock + 1 });
		qclock += 2;
	}
	int posting = 0, posted = 0, taking = 0;
	std::vector<int> fibers;
	auto go = [&]() {
		for (size_t p = 0; p < c.posts.size(); p++)
		{
			int n = c.posts[p];
			posting++;
			vos::spawn(v::fmt("producer%zu", p).c_str(), [=, &posted]() {
				for (int i = 0; i < n; i++)
				{
					size_t k = QH.size();
					int id = 10 * (p + 1) + i;
					QH.push_back({ QOp::POST, id, qclock++, 1 << 29 });
					post(id);
					QH[k].to = qclock++;
					vos::yieldPoint("posted");
				}
				posted++;
			});
		}
		for (size_t k = 0; k < c.takes.size(); k++)
		{
			int n = c.takes[k];
			taking++;
			fibers.push_back(vos::spawn(v::fmt("consumer%zu", k).c_str(), [=]() {
				int got = 0, tries = 0;
				while (got < abs(n))
				{
					size_t i = QH.size();
					QH.push_back({ n > 0 ? QOp::WAIT : QOp::TIMED, -2, qclock++, 1 << 29 });
					int id = eventId(n > 0 ? q->wait() : q->timedwait(100));
					QH[i].id = id;
					QH[i].to = qclock++;
					if (id >= 0)
						got++;
					else if (++tries > 12)
						break;
					vos::yieldPoint("got");
				}
			}));
		}
		vos::quiesce();
	};
	std::vector<uintptr_t> hot;
	if (dataBound)
		hot = sched::hotCode(go);
	sched::begin(bound, -1, dataBound);
	vos::fine::schedule(hot);
	go();
	vos::fine::off();
	auto history = [&]() {
		std::string s;
		for (auto& o : QH)
			s += v::fmt(" [%d-%s %s %d]", o.from, o.to < 1 << 29 ? std::to_string(o.to).c_str() : "", o.kind == QOp::POST ? "post" : o.kind == QOp::WAIT ? "wait" : "timedwait", o.id);
		return s;
	};
	if (posted < posting)
		ex::violation("a thread which posts does not come back:" + history() + " " + vos::fiberState());
	// nobody may be waiting now while there is an event
	int left = q->size();
	bool waiting = false;
	for (size_t k = 0; k < c.takes.size(); k++)
		waiting |= !vos::fiberDone(fibers[k]);
	if (left > 0 && waiting)
		ex::violation(v::fmt("%d events in the queue and a thread still waits for one:", left) + history());
	vos::picker = nullptr;
	vos::advance(10000000);
	// what is left is taken now
	while (q->size() > 0)
	{
		int at = qclock++;
		QH.push_back({ QOp::WAIT, eventId(q->wait()), at, qclock++ });
	}
	std::vector<QOp> ops;
	for (auto& o : QH)
		if (o.to < 1 << 29)
			ops.push_back(o);
	ex::S->transitions += ops.size();
	std::vector<bool> done(ops.size(), false);
	std::deque<int> model;
	std::string h = history();
	ex::traceText.push_back(h);
	if (!linear(ops, done, model, c.max, ops.size()))
		ex::violation("no queue behaves like this:" + h);
	int in = 0, out = 0;
	for (auto& o : ops)
		(o.kind == QOp::POST ? in : out) += o.id >= 0;
	if (!c.max && in != out)
		ex::violation(v::fmt("%d events posted, %d received:", in, out) + h);
	std::string key;
	for (auto& o : ops)
		key += v::fmt("%d:%d ", o.kind, o.id);
	ex::noteState(ex::hashStr(c.name + key));
	sched::finish();
}

static Scns t01()
{
	std::vector<QCase> cases = {
		{ "one producer, one consumer", { 3 }, { 3 } },
		{ "two producers, one consumer", { 2, 2 }, { 4 }, 0, 0, false, 2, 3 },
		{ "three producers, one consumer", { 2, 1, 1 }, { 4 }, 0, 0, false, 2, 3 },
		{ "two producers, one consumer with time-outs", { 2, 2 }, { -4 }, 0, 0, false, 2, 3 },
		{ "used before, one consumer with time-outs", { 1, 1 }, { -2 }, 0, 0, true, 2, 4 },
		{ "used before, two producers, one consumer", { 2, 1 }, { 3 }, 0, 0, true, 2, 4 },
		{ "two producers, two consumers", { 2, 1 }, { 2, 1 }, 0, 0, false, 2, 3 },
		{ "one producer, two consumers, used before", { 2 }, { 1, 1 }, 0, 0, true, 3, 5 },
		{ "producers and consumers with and without time-outs", { 1, 1 }, { 1, -1 }, 0, 0, false, 2, 4 },
		{ "queue for two, two producers, one consumer", { 2, 2 }, { -2 }, 2, 0, false, 2, 3 },
		{ "full queue for one, two producers, one consumer", { 2, 1 }, { -1 }, 1, 1, false, 2, 4 },
		{ "full queue for two, one producer, two consumers", { 2 }, { -1, -1 }, 2, 2, false, 2, 4 },
		{ "three in the queue, one producer, two consumers", { 1 }, { 2, 2 }, 0, 3, false, 2, 4 },
	};
	Scns r;
	for (auto& c : cases)
	{
		Scn s;
		s.name = c.name;
		s.plain = true;
		int bound = v::thorough() ? c.thorough : c.quick;
		if (getenv("VERIF_BOUND"))
			bound = atoi(getenv("VERIF_BOUND"));
		s.bounds = v::fmt("all schedules with at most %d preemptions or early time-outs", bound);
		s.body = [c, bound]() { runQueue(c, bound, 0); };
		r.push_back(s);
		if (!getenv("VERIF_BOUND"))
			bound = v::thorough() ? 3 : 2;
		s.name += ", data";
		s.bounds = v::fmt("all schedules with at most %d preemptions or early time-outs, of which preemptions also at every access to shared data", bound);
		s.body = [c, bound]() { runQueue(c, bound, bound); };
		r.push_back(s);
	}
	return r;
}
