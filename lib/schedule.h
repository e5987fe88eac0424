// Every schedule of the fibers from begin() to finish() with at most so many preemptions or premature
// time-outs; at each choice the alternatives are taken in forked processes.
#ifndef LIB_SCHEDULE_H
#define LIB_SCHEDULE_H
#include "vos.h"
#include "explore.h"
#include <sys/time.h>
#include <algorithm>
// the log: one lock more or less does not matter
extern "C" void _ZN8MQTTSNGW7Process6putLogEPKcz(void*, const char*, ...) __attribute__((weak));
namespace MQTTSNGW
{
class Process;
extern Process* theProcess __attribute__((weak));
}
namespace sched
{
inline void ignoreLog()
{
	if (_ZN8MQTTSNGW7Process6putLogEPKcz && &MQTTSNGW::theProcess && MQTTSNGW::theProcess)
		vos::ignoreMutexOf([]() { _ZN8MQTTSNGW7Process6putLogEPKcz(MQTTSNGW::theProcess, "%s", ""); });
}

inline std::map<std::string, int> boundOf;
struct Sched
{
	int left = 0;				// preemptions and early time-outs still allowed
	int dataLeft = 0;			// and how many of them at accesses to data
	long points = 0;
	int mainFiber = -1;
	std::vector<int> prio;		// who was passed over waits until the others rest
	bool child = false, parallel = false;
};
inline Sched SC;

// take alternative i in a child process which goes on from here
inline bool alternative(int i)
{
	if (ex::over())
		return false;
	ex::S->forks++;
	bool parallel = ex::S->procs.fetch_add(1) < ex::workers;
	if (!parallel)
		ex::S->procs--;
	pid_t p = fork();
	if (p == 0)
	{
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		ex::kids = 0;
		struct itimerval it = { { 0, 0 }, { 20, 0 } };
		setitimer(ITIMER_VIRTUAL, &it, nullptr);
		SC.child = true;
		SC.parallel = parallel;
		ex::trace.push_back(i);
		return true;
	}
	if (p < 0)
	{
		ex::S->stop = 1;
		return false;
	}
	ex::kids++;
	ex::reap(parallel ? 16 : 0);
	struct itimerval it = { { 0, 0 }, { 20, 0 } };
	setitimer(ITIMER_VIRTUAL, &it, nullptr);
	return false;
}

inline int pickRace(const std::vector<int>& ready, const std::vector<int>& timed, int cur, const char* point)
{
	struct Alt
	{
		int n, cost;
	};
	std::vector<Alt> alts;
	bool data = !strcmp(point, "data");
	if (data && (!SC.dataLeft || !SC.left || ready.size() < 2))
		return cur;
	if (cur >= 0)
		alts.push_back({ cur, 0 });
	std::vector<int> rs = ready;
	auto rank = [](int n) { return std::find(SC.prio.begin(), SC.prio.end(), n) - SC.prio.begin(); };
	for (int n : ready)
		if (rank(n) == (long) SC.prio.size())
			SC.prio.push_back(n);
	std::stable_sort(rs.begin(), rs.end(), [&](int a, int b) { return rank(a) < rank(b); });
	for (int n : rs)
		if (n != cur)
			alts.push_back({ n, alts.empty() ? 0 : 1 });
	for (int n : timed)
		if (n != SC.mainFiber && !data)
			alts.push_back({ n, 1 });
	SC.points++;
	int take = 0;
	if (ex::replaying)
	{
		std::vector<int> ok;
		for (size_t i = 0; i < alts.size(); i++)
			if (alts[i].cost <= SC.left)
				ok.push_back(i);
		if (ok.size() > 1)
		{
			take = ex::trace.size() < ex::preset.size() ? ex::preset[ex::trace.size()] : 0;
			if (take >= (int) alts.size())
				take = 0;
			ex::trace.push_back(take);
		}
	}
	else
	{
		size_t can = 0;
		for (auto& a : alts)
			can += a.cost <= SC.left;
		if (can > 1)
		{
			for (size_t i = 1; i < alts.size() && !take; i++)
				if (alts[i].cost <= SC.left && alternative(i))
					take = i;
			if (!take)
				ex::trace.push_back(0);
		}
	}
	SC.left -= alts[take].cost;
	SC.dataLeft -= data && take;
	if (take && alts[take].cost)
		for (int i = 0; i < take; i++)
		{
			// they are passed over
			auto it = std::find(SC.prio.begin(), SC.prio.end(), alts[i].n);
			if (it != SC.prio.end())
			{
				SC.prio.erase(it);
				SC.prio.push_back(alts[i].n);
			}
		}
	ex::S->counters[1]++;
	if (take && alts[take].cost)
		ex::traceText.push_back(v::fmt("      %s goes on at '%s' of %s", vos::fiberName(alts[take].n).c_str(), point, cur >= 0 ? vos::fiberName(cur).c_str() : "-"));
	return alts[take].n;
}

// the process is given up when it runs longer
inline void watch(int sec)
{
	struct itimerval it = { { 0, 0 }, { sec, 0 } };
	setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
inline void begin(int bound, int mainFiber = -1, int dataBound = 0)
{
	ignoreLog();
	SC.left = bound;
	SC.dataLeft = dataBound;
	SC.mainFiber = mainFiber;
	vos::picker = pickRace;
	watch(20);
}
// code which uses data of several fibers while f runs, in a process of its own
inline std::vector<uintptr_t> hotCode(const std::function<void()>& f)
{
	static const size_t MAX = 65536;
	uintptr_t* shared = (uintptr_t*) mmap(nullptr, MAX * sizeof(uintptr_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	fflush(stdout);
	pid_t p = fork();
	if (p == 0)
	{
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		begin(0);
		vos::fine::collect();
		f();
		std::vector<uintptr_t> h = vos::fine::hotCode();
		for (size_t i = 0; i < h.size() && i + 1 < MAX; i++)
			shared[1 + shared[0]++] = h[i];
		_exit(0);
	}
	int st = 0;
	waitpid(p, &st, 0);
	std::vector<uintptr_t> r(shared + 1, shared + 1 + shared[0]);
	munmap(shared, MAX * sizeof(uintptr_t));
	return r;
}
// the processes of the alternatives end here, the first one goes on
inline void finish()
{
	vos::picker = nullptr;
	vos::fine::off();
	watch(0);
	if (SC.child)
		ex::S->histories++;
	if (ex::S->histories % 499 == 1)
	{
		std::string t = ex::scenario + ":";
		for (auto& x : ex::traceText)
			t += " | " + x.substr(0, 160);
		ex::sample(t.substr(0, 1000));
	}
	if (ex::replaying)
		return;
	if (SC.child)
	{
		if (SC.parallel)
			ex::S->procs--;
		ex::reap(0);
		_exit(0);
	}
}
} // namespace sched
#endif
