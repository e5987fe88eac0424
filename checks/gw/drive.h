// Drives the real gateway and the reference model with the same stimuli and explores all sequences.
#ifndef GW_DRIVE_H
#define GW_DRIVE_H
#include "model.h"

namespace gwd
{
using w::B;
using gw::Addr;
using gwm::Model;
using gwm::Client;

struct Stim
{
	enum Kind
	{
		NONE, DGRAM, BROKER, CLOSE, RESET, FAIL, UP, DOWN, UNRES, NOSOCK, WAIT, FAULT
	} kind = NONE;
	Addr from { 0, 0 };
	int conn = -1;
	B data;
	int ms = 0;
	B call;						// FAULT
	int err = 0, skip = 0;
	bool multicast = false;		// to the multicast port
	std::vector<Stim> also;		// further stimuli before the gateway gets to run
};
struct Ev
{
	std::string name;
	std::function<Stim(Model&)> make;		// kind NONE: not possible in this state
};

static const Addr A = gw::addr("10.0.0.1", 5001), Bb = gw::addr("10.0.0.2", 5001), Cc = gw::addr("10.0.0.1", 5002), X = gw::addr("10.0.0.9", 7000);
inline std::map<Addr, std::string> names()
{
	return { { A, "A" }, { Bb, "B" }, { Cc, "C" }, { X, "X" }, { gw::addr("225.1.1.1", gw::MPORT), "multicast" } };
}

inline Stim dgram(const Addr& a, const B& d)
{
	Stim s;
	s.kind = Stim::DGRAM;
	s.from = a;
	s.data = d;
	return s;
}
inline Ev dg(const std::string& n, const Addr& a, const B& d)
{
	return { n, [a, d](Model&) { return dgram(a, d); } };
}
inline Ev dgf(const std::string& n, const Addr& a, std::function<B(Model&)> f)	// "" = not possible
{
	return { n, [a, f](Model& m) {
		B d = f(m);
		return d.empty() ? Stim() : dgram(a, d);
	} };
}
inline Ev brf(const std::string& n, const B& id, std::function<B(Model&, Client&)> f)
{
	return { n, [id, f](Model& m) {
		Client* c = m.byClientId(id);
		Stim s;
		if (!c || c->conn < 0)
			return s;
		s.data = f(m, *c);
		if (s.data.empty())
			return s;
		s.kind = Stim::BROKER;
		s.conn = c->conn;
		return s;
	} };
}
inline Ev br(const std::string& n, const B& id, const B& d)
{
	return brf(n, id, [d](Model&, Client&) { return d; });
}
inline Ev fault(const std::string& n, const B& id, Stim::Kind k)
{
	return { n, [id, k](Model& m) {
		Client* c = m.byClientId(id);
		Stim s;
		if (!c || c->conn < 0)
			return s;
		s.kind = k;
		s.conn = c->conn;
		return s;
	} };
}
inline Ev waitMs(const std::string& n, int ms)
{
	return { n, [ms](Model&) { Stim s; s.kind = Stim::WAIT; s.ms = ms; return s; } };
}
inline Ev brokerUp(bool up)
{
	return { up ? "broker up" : "broker down", [up](Model& m) { Stim s; if (m.brokerUp != up) s.kind = up ? Stim::UP : Stim::DOWN; return s; } };
}
// its name cannot be resolved any more
inline Ev brokerUnknown()
{
	return { "broker's name unknown", [](Model& m) { Stim s; if (!vos::failResolve) s.kind = Stim::UNRES; return s; } };
}
inline Ev noSockets()
{
	return { "no more sockets", [](Model& m) { Stim s; if (!vos::failSocket) s.kind = Stim::NOSOCK; return s; } };
}
// topic id the client was given for a name; 0 if it has none
inline int tid(Model& m, const B& id, const B& name)
{
	Client* c = m.byClientId(id);
	gwm::Topic* t = c ? c->byName(name) : nullptr;
	return t && t->type == w::NORMAL ? t->id : 0;
}

// the skip-th of the next calls of a kind fails, once
inline Ev failing(const char* call, int err, int skip)
{
	return { v::fmt("%s call %d fails with %s", call, skip + 1, strerrorname_np(err)), [=](Model&) {
		Stim s;
		s.kind = Stim::FAULT;
		s.call = call;
		s.err = err;
		s.skip = skip;
		return s;
	} };
}

struct Scn
{
	std::string name;
	gw::Config conf = gw::defaults();
	gwm::Cfg cfg;
	std::vector<Ev> prefix, alpha;
	std::vector<int> budget;				// per alphabet entry: how often it may be taken, 0 = any
	int depth = 4, deep = 0;				// all sequences up to depth; new states only up to deep
	std::function<void()> body;				// instead: a history of its own
	bool plain = false;						// no gateway is started
	bool unstarted = false;					// the gateway is prepared, but not started
	std::string bounds;						// what is explored, if not the alphabet
};

struct World
{
	gwm::Oracle o;
	int mainFiber = -1;
	std::vector<int> used;
	long steps = 0;
};
extern World W;

inline std::string describe(const Ev& e, const Stim& s)
{
	std::string d = e.name;
	if (s.kind == Stim::DGRAM)
		d += " (" + w::showSn(s.data) + ")";
	else if (s.kind == Stim::BROKER)
		d += v::fmt(" (%d:", s.conn) + w::showMq(s.data) + ")";
	return d;
}
inline void applyReal(const Stim& s)
{
	switch (s.kind)
	{
	case Stim::DGRAM:
		gw::datagram(s.from, s.data, s.multicast ? gw::MPORT : gw::PORT);
		break;
	case Stim::BROKER:
		gw::brokerSend(s.conn, s.data);
		break;
	case Stim::CLOSE:
		if (vos::conn(s.conn))
			vos::conn(s.conn)->fin = true;
		break;
	case Stim::RESET:
		if (vos::conn(s.conn))
			vos::conn(s.conn)->rst = true;
		break;
	case Stim::FAIL:
		if (vos::conn(s.conn))
			vos::conn(s.conn)->sendFail = true;
		break;
	case Stim::UP:
		vos::refuseConnect = vos::failResolve = vos::failSocket = false;
		break;
	case Stim::UNRES:
		vos::failResolve = true;
		break;
	case Stim::NOSOCK:
		vos::failSocket = true;
		break;
	case Stim::DOWN:
		vos::refuseConnect = true;
		break;
	case Stim::FAULT:
	{
		auto left = std::make_shared<int>(s.skip);
		auto f = s;
		vos::faulter = [left, f](const char* call) {
			return f.call == call && (*left)-- == 0 ? f.err : 0;
		};
		break;
	}
	case Stim::WAIT:
		vos::advance((int64_t) s.ms * 1000);
		break;
	default:
		break;
	}
	for (auto& a : s.also)
		applyReal(a);
}
inline void applyModel(Model& m, const Stim& s)
{
	switch (s.kind)
	{
	case Stim::DGRAM:
		m.datagram(s.from, s.data);
		break;
	case Stim::BROKER:
		m.brokerBytes(s.conn, s.data);
		break;
	case Stim::CLOSE:
	case Stim::RESET:
		m.brokerClose(s.conn);
		break;
	case Stim::FAIL:
		m.failing.insert(s.conn);
		break;
	case Stim::UP:
		m.brokerUp = true;
		break;
	case Stim::DOWN:
	case Stim::UNRES:
	case Stim::NOSOCK:
		m.brokerUp = false;
		break;
	default:
		break;
	}
	for (auto& a : s.also)
		applyModel(m, a);
}

inline void step(const Ev& e, const Stim& s)
{
	ex::traceText.push_back(describe(e, s));
	alarm(40);
	applyReal(s);
	gw::settle();
	alarm(0);
	gw::Seen seen = gw::collect();
	std::string got = gw::show(seen, W.o.names), exp;
	ex::traceText.back() += "  =>" + got;
	if (ex::traceText.size() > 60)
		ex::traceText.erase(ex::traceText.begin() + 20);
	ex::S->transitions++;
	W.steps++;
	if (vos::fiberDone(W.mainFiber))
		ex::violation("the gateway ended after: " + e.name);
	if (!W.o.step([&](Model& m) { m.step([&]() { applyModel(m, s); }, s.kind == Stim::WAIT ? s.ms + 600 : 600); }, seen, exp))
		ex::violation("after " + e.name + ": expected" + exp + "; got" + got);
	ex::noteState(W.o.hash());
}
inline bool tryStep(const Ev& e)
{
	Stim s = e.make(W.o.m());
	if (s.kind == Stim::NONE)
		return false;
	step(e, s);
	return true;
}

inline void explore(const Scn& sc, int level)
{
	int limit = sc.deep > sc.depth ? sc.deep : sc.depth;
	if (level >= limit)
	{
		ex::S->histories++;
		if (ex::S->histories % 997 == 1 && ex::S->nSamples < 12)
		{
			std::string t = ex::scenario + ":";
			for (auto& x : ex::traceText)
				t += " | " + x.substr(0, 160);
			ex::sample(t.substr(0, 1000));
		}
		return;
	}
	if (ex::replaying && ex::trace.size() >= ex::preset.size())
		return;
	for (size_t i = 0; i < sc.alpha.size(); i++)
	{
		if (ex::replaying && ex::preset[ex::trace.size()] != (int) i)
			continue;
		if (i < sc.budget.size() && sc.budget[i] && W.used[i] >= sc.budget[i])
			continue;
		Stim s = sc.alpha[i].make(W.o.m());
		if (s.kind == Stim::NONE)
			continue;
		auto go = [&](int i) {
			W.used[i]++;
			step(sc.alpha[i], s);
			if (level + 1 >= sc.depth && level + 1 < limit)
			{
				// beyond the full depth only states which were not met with as many steps left
				uint64_t h = W.o.hash();
				for (size_t k = 0; k < sc.budget.size(); k++)
					h = h * 31 + (sc.budget[k] ? W.used[k] : 0);
				h = h * 1000003 + ex::hashStr(sc.name);
				for (int l = limit - level - 1; l <= limit; l++)
					if (!ex::marked(h * 64 + l))
						continue;
					else
					{
						ex::S->histories++;
						return;
					}
				ex::mark(h * 64 + (limit - level - 1));
			}
			explore(sc, level + 1);
		};
		if (ex::replaying)
		{
			ex::trace.push_back(i);
			go(i);
			return;
		}
		ex::branch(i, go);
		if (ex::over())
			return;
	}
}

// runs one scenario in this (forked) process
inline void runScenario(const Scn& sc)
{
	ex::scenario = sc.name;
	W.o.names = names();
	W.o.init(sc.cfg);
	W.used.assign(sc.alpha.size(), 0);
	std::string dir = gw::scratch + "/" + sc.name;
	mkdir(dir.c_str(), 0777);
	gw::scratch = dir;
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_handler = [](int) { ex::violation("the gateway does not come to rest (endless loop): " + vos::fiberState()); };
	sigaction(SIGALRM, &sa, nullptr);
	sigaction(SIGVTALRM, &sa, nullptr);
	if (sc.plain)
	{
		gw::quiet();
		sc.body();
		ex::S->histories++;
		return;
	}
	if (sc.unstarted)
	{
		gw::prepare(sc.conf);
		sc.body();
		ex::S->histories++;
		return;
	}
	W.mainFiber = gw::start(sc.conf);
	gw::Seen s = gw::collect();
	if (vos::fiberDone(W.mainFiber))
		ex::violation("the gateway did not start");
	for (auto& e : sc.prefix)
		if (!tryStep(e))
			ex::violation("harness: prefix step " + e.name + " not possible");
	if (sc.body)
	{
		sc.body();
		ex::S->histories++;
	}
	else
		explore(sc, 0);
}
} // namespace gwd
#endif
