// T04: the log in shared memory.  Gateway and log monitor are two processes of the program's classes which
// share the memory vos gives them; what the gateway logs must be read by the monitor, in order, once.
extern volatile int theSignaled;
template<class B> struct LogOf : public B
{
	int pid;
	LogOf(int pid, const std::string& conf) : pid(pid)
	{
		// sched::begin takes no scheduling points from its log
		MQTTSNGW::theProcess = nullptr;
		vos::process = pid;
		optind = 1;
		static char a0[] = "prog", a1[] = "-f", a2[512];
		snprintf(a2, sizeof a2, "%s", conf.c_str());
		static char* argv[] = { a0, a1, a2, nullptr };
		MQTTSNGW::Process::initialize(3, argv);
	}
};
typedef LogOf<MQTTSNGW::Process> LogProcess;
typedef LogOf<MQTTSNGW::Logmonitor> LogMonitor;
template<class P> static void end(P* p)
{
	int pid = vos::process = p->pid;
	delete p;
	vos::processExit(pid);
}
static const size_t KEPT = 16000;		// so much unread text is never lost
static std::string logText(int n, size_t len)
{
	// every place of it is different
	std::string s;
	for (int i = 0; s.size() < len; i++)
		s += v::fmt("<%d.%d%%%c>", n, i, "sdn%"[i % 4]);
	return s.substr(0, len);
}
// what the monitor's run() prints
static std::string shown;
static FILE* realOut = nullptr;
static void capture(bool on)
{
	static FILE* f = nullptr;
	if (!f)
	{
		cookie_io_functions_t io = {};
		io.write = [](void*, const char* b, size_t n) -> ssize_t {
			bool was = vos::fine::busy;
			vos::fine::busy = true;
			shown.append(b, n);
			vos::fine::busy = was;
			return n;
		};
		f = fopencookie(nullptr, "w", io);
		setvbuf(f, nullptr, _IONBF, 0);
		realOut = stdout;
	}
	stdout = on ? f : realOut;
}
struct LogWorld
{
	std::string conf;
	LogProcess* gw = nullptr;
	LogMonitor* mon = nullptr;
	int watching = -1;
	std::string unread, history;
	int texts = 0, pids = 0;
	// a step which must come to its end
	void run(const char* what, std::function<void()> f, int64_t usec = 5000000)
	{
		int n = vos::spawn(what, f);
		vos::advance(usec);
		if (!vos::fiberDone(n))
			ex::violation(std::string(what) + " does not come back:" + history + "; " + vos::fiberState());
		vos::forget();
	}
	void put(size_t len)
	{
		std::string t = logText(texts++, len);
		history += v::fmt(" log(%zu)", len);
		run("log", [&]() { gw->putLog("%s", t.c_str()); });
		unread += t;
	}
	void take(const std::string& got)
	{
		history += v::fmt(" read(%zu)", got.size());
		size_t max = unread.size() > KEPT ? unread.size() - KEPT : 0;
		size_t at = got.empty() ? 0 : unread.find(got);
		if (at == std::string::npos || at > max)
		{
			ex::traceText.push_back("read: " + got.substr(0, 200) + (got.size() > 200 ? " ... " + got.substr(got.size() - 100) : ""));
			ex::traceText.push_back("unread: " + unread.substr(0, 200) + (unread.size() > 200 ? " ... " + unread.substr(unread.size() - 100) : ""));
			ex::violation(at == std::string::npos ? "what is read was not logged, or read before:" + history : v::fmt("%zu bytes were lost:", at) + history);
		}
		unread.erase(0, at + got.size());
	}
	void get()
	{
		std::string got;
		run("read", [&]() { got = mon->getLog(); });
		if (got.empty())
			ex::violation("nothing is read though there is text:" + history);
		take(got);
	}
	// a running monitor shows everything at once
	void watched()
	{
		if (!mon)
			return;
		if (vos::fiberDone(watching))
			ex::violation("the monitor ends by itself:" + history);
		std::string s = shown;
		shown.clear();
		if (gw)
			take(s);
		if (gw && !unread.empty())
			ex::violation("the monitor does not show what is logged:" + history);
	}
	// Ctrl-C
	void stopMonitor()
	{
		if (!mon)
			return;
		theSignaled = 2;
		vos::advance(3000000);
		theSignaled = 0;
		if (!vos::fiberDone(watching))
			ex::violation("the monitor does not end:" + history);
		capture(false);
		if (gw && !shown.empty())
			take(shown);
		vos::forget();
		run("monitor ends", [&]() { end(mon); });
		mon = nullptr;
	}
	void drain()
	{
		for (int i = 0; i < 8 && !unread.empty(); i++)
			get();
	}
};
static LogWorld* logWorld(bool elsewhere)
{
	std::string dir = gw::scratch + v::fmt("/log%d", getpid());
	mkdir(dir.c_str(), 0777);
	mkdir((dir + "/conf").c_str(), 0777);
	if (chdir((elsewhere ? dir : dir + "/conf").c_str()) != 0)
		_exit(2);
	std::ofstream(dir + "/conf/gateway.conf") << "ShearedMemory=YES\n";
	LogWorld* w = new LogWorld;
	w->conf = elsewhere ? "conf/gateway.conf" : "./gateway.conf";
	return w;
}

// texts of several lengths and reads, from every place near the end of the buffer
static void logSequences(int depth, size_t before)
{
	static const size_t LEN[] = { 1, 100, 5000, 9000, 16000 };
	LogWorld* w = logWorld(false);
	w->gw = new LogProcess(1, w->conf);
	w->gw->resetRingBuffer();
	w->mon = new LogMonitor(2, w->conf);
	// all sequences, each from the beginning
	long total = 1;
	for (int i = 0; i < depth; i++)
		total *= 6;
	for (long n = 0; n < total && !ex::over(); n++)
	{
		w->gw->resetRingBuffer();
		w->unread.clear();
		w->history = v::fmt(" [after %zu bytes]", before);
		w->texts = 0;
		for (size_t k = before; k > 0;)
		{
			size_t x = std::min<size_t>(k, 8000);
			w->put(x);
			w->get();
			k -= x;
		}
		bool skip = false;
		long c = n;
		for (int i = 0; i < depth && !skip; i++, c /= 6)
			if (c % 6 < 5)
				w->put(LEN[c % 6]);
			else if (w->unread.empty())
				skip = true;
			else
				w->get();
		if (skip)
			continue;
		w->drain();
		ex::S->histories++;
		ex::S->transitions += depth;
		ex::noteState(ex::hashStr(w->history));
		ex::traceText.clear();
	}
}

// gateway threads log while a monitor reads, starts or ends
struct LogRace
{
	std::string name;
	int writers, texts;
	bool starts, ends;
	size_t len, before;
	bool full;			// 16300 bytes are waiting
};
static void logRace(const LogRace& c, int bound, int dataBound)
{
	LogWorld* w = logWorld(false);
	w->gw = new LogProcess(1, w->conf);
	w->gw->resetRingBuffer();
	if (!c.starts)
		w->mon = new LogMonitor(2, w->conf);
	else
		vos::process = 1;
	for (size_t k = c.before; k > 0;)
	{
		// to a place in the buffer, by a monitor which has ended
		size_t x = std::min<size_t>(k, 8000);
		LogMonitor* m = w->mon;
		if (!m)
			w->mon = new LogMonitor(9, w->conf);
		w->put(x);
		w->get();
		if (!m)
		{
			end(w->mon);
			w->mon = nullptr;
		}
		k -= x;
	}
	std::string old;
	if (c.full)
		for (int i = 0; i < 2; i++)
			w->put(8150);
	old = w->unread;
	std::vector<std::vector<std::string>> put(c.writers);
	std::string seen;
	bool done = false;
	std::vector<int> fibers;
	auto go = [&]() {
		for (int i = 0; i < c.writers; i++)
			fibers.push_back(vos::spawn(v::fmt("task%d", i).c_str(), [&, i]() {
				for (int k = 0; k < c.texts; k++)
				{
					std::string t = logText(100 + 10 * i + k, c.len);
					put[i].push_back(t);
					w->gw->putLog("%s", t.c_str());
				}
			}));
		fibers.push_back(vos::spawn("monitor", [&]() {
			if (c.starts)
				w->mon = new LogMonitor(2, w->conf);
			if (c.ends)
			{
				seen += w->mon->getLog();
				LogMonitor* m = w->mon;
				w->mon = nullptr;
				end(m);
				return;
			}
			w->mon->run();
		}));
		vos::quiesce();
		vos::advance(5000000);
	};
	std::vector<uintptr_t> hot;
	capture(true);
	if (dataBound)
		hot = sched::hotCode(go);
	shown.clear();
	sched::begin(bound, -1, dataBound);
	vos::fine::schedule(hot, c.full ? 300 : 0);
	go();
	vos::picker = nullptr;
	vos::fine::off();
	sched::watch(0);
	for (int i = 0; i < c.writers; i++)
		if (!vos::fiberDone(fibers[i]))
			ex::violation("a thread which logs does not come back: " + vos::fiberState());
	if (c.ends)
	{
		if (!vos::fiberDone(fibers.back()))
			ex::violation("the monitor does not read what there is: " + vos::fiberState());
		// the next one reads the rest
		int last = vos::spawn("next monitor", [&]() {
			w->mon = new LogMonitor(3, w->conf);
			w->mon->run();
		});
		vos::advance(5000000);
		fibers.push_back(last);
	}
	capture(false);
	seen += shown;
	if (vos::fiberDone(fibers.back()))
		ex::violation("the monitor ends by itself");
	ex::S->transitions++;
	ex::traceText.push_back("read: " + seen.substr(0, 300));
	ex::noteState(ex::hashStr(c.name + seen));
	if (c.full)
	{
		// the newest of all is read
		std::string all = old;
		for (auto& t : put[0])
			all += t;
		if (seen.size() < KEPT || seen.size() > all.size() || all.compare(all.size() - seen.size(), seen.size(), seen) != 0)
			ex::violation(v::fmt("what is read (%zu bytes) is not the end of what was logged (%zu bytes)", seen.size(), all.size()));
		sched::finish();
		return;
	}
	// the texts of each thread in their order, every one whole
	std::vector<size_t> next(c.writers, 0);
	size_t at = 0;
	while (at < seen.size())
	{
		bool found = false;
		for (int i = 0; i < c.writers && !found; i++)
			if (next[i] < put[i].size() && seen.compare(at, put[i][next[i]].size(), put[i][next[i]]) == 0)
			{
				at += put[i][next[i]++].size();
				found = true;
			}
		if (!found)
			ex::violation("what is read was not logged, or read before, at: " + seen.substr(at, 60));
	}
	for (int i = 0; i < c.writers; i++)
		if (next[i] < put[i].size())
			ex::violation("a text which was logged is not read: " + put[i][next[i]].substr(0, 40));
	sched::finish();
}

// gateways and monitors come and go
static void logLives(int depth, bool elsewhere, int first)
{
	static const char* NAMES[] = { "gateway starts", "gateway ends", "monitor starts", "monitor ends", "log", "wait" };
	long total = 1;
	for (int i = 0; i < depth; i++)
		total *= 6;
	LogWorld* w = logWorld(elsewhere);
	for (long n = 0; n < total && !ex::over(); n++)
	{
		if (n % 6 != first)
			continue;
		// only sequences which make sense
		bool g = false, m = false, ok = true, waited = false;
		long c = n;
		for (int i = 0; i < depth && ok; i++, c /= 6)
		{
			switch (c % 6)
			{
			case 0: ok = !g; g = true; break;
			case 1: ok = g; g = false; break;
			case 2: ok = !m; m = true; break;
			case 3: ok = m; m = false; break;
			case 4: ok = g; break;
			case 5: ok = m && !waited; break;
			}
			waited = c % 6 == 5;
		}
		if (!ok)
			continue;
		ex::traceText.clear();
		w->unread.clear();
		w->history.clear();
		c = n;
		for (int i = 0; i < depth; i++, c /= 6)
		{
			w->history += v::fmt(", %s", NAMES[c % 6]);
			switch (c % 6)
			{
			case 0:
				w->run("gateway starts", [&]() {
					w->gw = new LogProcess(1, w->conf);
					w->gw->resetRingBuffer();
				});
				w->unread.clear();
				break;
			case 1:
				w->run("gateway ends", [&]() { end(w->gw); });
				w->gw = nullptr;
				w->unread.clear();
				break;
			case 2:
				w->run("monitor starts", [&]() { w->mon = new LogMonitor(2 + i, w->conf); });
				shown.clear();
				capture(true);
				w->watching = vos::spawn("monitor", [&]() { w->mon->run(); });
				vos::quiesce();
				break;
			case 3: w->stopMonitor(); break;
			case 4: w->put(50); break;
			case 5:
				vos::advance(3000000);
				break;
			}
			w->watched();
		}
		ex::S->histories++;
		ex::S->transitions += depth;
		ex::noteState(ex::hashStr(w->history));
		w->stopMonitor();
		if (w->gw)
			w->run("gateway ends", [&]() { end(w->gw); });
		w->gw = nullptr;
		if (vos::segments())
			ex::violation(v::fmt("%d shared memories are left when all programs have ended:", vos::segments()) + w->history);
	}
}

static Scns t04()
{
	bool th = v::thorough();
	Scns r;
	auto add = [&](const std::string& name, const std::string& bounds, std::function<void()> body) {
		Scn s;
		s.name = name;
		s.plain = true;
		s.bounds = bounds;
		s.body = body;
		r.push_back(s);
	};
	int depth = th ? 5 : 4;
	std::vector<size_t> places = { 0, 1, 383, 384, 8000, 16300 };
	for (int i = 16320; i <= 16392; i += th ? 1 : 4)
		places.push_back(i);
	for (size_t p : places)
		add(v::fmt("texts and reads after %zu bytes", p), v::fmt("all sequences of %d texts of 5 lengths and reads", depth), [depth, p]() { logSequences(depth, p); });
	std::vector<LogRace> races = {
		{ "two tasks log, a monitor reads", 2, 2, false, false, 20, 0 },
		{ "two tasks log, a monitor reads at the end of the buffer", 2, 2, false, false, 20, 16330 },
		{ "three tasks log, a monitor reads", 3, 1, false, false, 12, 0 },
		{ "a monitor starts", 1, 3, true, false, 12, 0 },
		{ "a monitor starts, two tasks log", 2, 2, true, false, 12, 0 },
		{ "a monitor ends", 1, 3, false, true, 12, 0 },
		{ "a monitor starts, reads and ends", 1, 3, true, true, 12, 0 },
		{ "a monitor starts, reads and ends at the end of the buffer", 2, 2, true, true, 20, 16330 },
		{ "a monitor reads a full buffer", 1, 2, false, false, 100, 0, true },
	};
	for (auto& c : races)
		for (int d = 0; d < 2; d++)
		{
			int bound = getenv("VERIF_BOUND") ? atoi(getenv("VERIF_BOUND")) : d ? (th ? 2 : 1) : th ? 4 : 3;
			add(c.name + (d ? ", data" : ""), v::fmt("all schedules with at most %d preemptions or early time-outs", bound) + (d ? ", also at every access to shared data" : ""),
				[c, bound, d]() { logRace(c, bound, d ? bound : 0); });
		}
	for (int e = 0; e < 2; e++)
		for (int f : { 0, 2 })
			add(v::fmt("coming and going, %s first%s", f ? "monitor" : "gateway", e ? ", configuration in another directory" : ""), v::fmt("all sequences of %d steps", th ? 9 : 7),
				[=]() { logLives(th ? 9 : 7, e, f); });
	return r;
}
