// Exhaustive exploration of all choice sequences up to a depth, on real process state: every choice
// is taken in a forked child, so nothing has to be undone.  Results are collected in shared memory.
#ifndef EXPLORE_H
#define EXPLORE_H
#include "vlib.h"
#include <atomic>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <signal.h>
#include <sched.h>
#include <fcntl.h>

extern "C" int __real_close(int) __attribute__((weak));

namespace ex
{
struct Shared
{
	std::atomic<int> procs;			// processes working at the moment
	std::atomic<int> stop;			// a violation was found, or time is up
	std::atomic<int> timeUp;
	std::atomic<int> claimed;
	std::atomic<long> transitions, histories, states, forks, counters[16];
	std::atomic<int> nSamples, nKnown;
	char what[8192], trace[16384];
	char samples[16][1024];
	char known[64][64];				// keys of recorded findings which were met
	std::atomic<uint64_t> table[1 << 22];	// hashes of distinct states
	std::atomic<uint64_t> marks[1 << 22];
};
extern Shared* S;
extern double deadline;				// wall clock limit of the whole run
extern int workers;
extern std::vector<int> trace;		// choices taken so far
extern std::vector<std::string> traceText;
extern std::string scenario;
extern std::vector<int> preset;		// replay: choices to take
extern bool replaying;

inline void initShared()
{
	S = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}

inline bool noteState(uint64_t h)
{
	if (h == 0)
		h = 1;
	const uint64_t mask = (1 << 22) - 1;
	for (uint64_t i = 0; i < 64; i++)
	{
		std::atomic<uint64_t>& t = S->table[(h * 0x9e3779b97f4a7c15ULL + i) & mask];
		uint64_t o = t.load();
		if (o == h)
			return false;
		if (o == 0)
		{
			uint64_t z = 0;
			if (t.compare_exchange_strong(z, h))
			{
				S->states++;
				return true;
			}
			if (z == h)
				return false;
		}
	}
	return false;
}
// marks for pruning, in a table of their own
inline std::atomic<uint64_t>* slot(uint64_t h)
{
	const uint64_t mask = (1 << 22) - 1;
	for (uint64_t i = 0; i < 256; i++)
	{
		std::atomic<uint64_t>& t = S->marks[(h * 0x9e3779b97f4a7c15ULL + i) & mask];
		uint64_t o = t.load();
		if (o == h || o == 0)
			return &t;
	}
	return nullptr;
}
inline bool marked(uint64_t h)
{
	std::atomic<uint64_t>* t = slot(h ? h : 1);
	return t && *t == (h ? h : 1);
}
inline void mark(uint64_t h)
{
	h = h ? h : 1;
	for (int k = 0; k < 4; k++)
	{
		std::atomic<uint64_t>* t = slot(h);
		uint64_t z = 0;
		if (!t || *t == h || t->compare_exchange_strong(z, h))
			return;
	}
}
inline uint64_t hashStr(const std::string& s)
{
	uint64_t h = 1469598103934665603ULL;
	for (unsigned char c : s)
		h = (h ^ c) * 1099511628211ULL;
	return h;
}

inline std::string traceBody()
{
	std::string t = "scenario " + scenario + "\nchoices";
	for (int c : trace)
		t += v::fmt(" %d", c);
	t += "\n";
	for (auto& s : traceText)
		t += "#   " + s + "\n";
	return t;
}

// A violation in a worker: the first one is kept.  Does not return.
inline void violation(const std::string& what)
{
	int z = 0;
	if (S->claimed.compare_exchange_strong(z, 1))
	{
		snprintf(S->what, sizeof S->what, "%s", what.c_str());
		std::string t = traceBody();
		snprintf(S->trace, sizeof S->trace, "%s", t.c_str());
	}
	S->stop = 1;
	_exit(1);
}

inline bool known(const std::string& key)
{
	if (!v::R().known.count(key))
		return false;
	int n = S->nKnown;
	for (int i = 0; i < n && i < 64; i++)
		if (key == S->known[i])
			return true;
	n = S->nKnown++;
	if (n < 64)
		snprintf(S->known[n], 64, "%s", key.c_str());
	return true;
}

inline void sample(const std::string& s)
{
	if (S->nSamples >= 16)
		return;
	int n = S->nSamples++;
	if (n < 16)
		snprintf(S->samples[n], 1024, "%s", s.c_str());
}

inline bool over()
{
	if (S->stop)
		return true;
	if (v::now() > deadline)
	{
		S->timeUp = 1;
		S->stop = 1;
		return true;
	}
	return false;
}

// Wait for children until at most n are left.
extern int kids;
inline void reap(int left)
{
	while (kids > left)
	{
		int st;
		pid_t p = waitpid(-1, &st, 0);
		if (p < 0)
			break;
		kids--;
		if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 1 || WEXITSTATUS(st) == 77)))
		{
			int z = 0;
			if (S->claimed.compare_exchange_strong(z, 1))
			{
				snprintf(S->what, sizeof S->what, "the program was ended by %s %d", WIFSIGNALED(st) ? "signal" : "exit status",
						WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
				std::string t = traceBody();
				snprintf(S->trace, sizeof S->trace, "%s", t.c_str());
			}
			S->stop = 1;
		}
	}
}

// Take choice i in a child which runs f(i) and ends; at most `workers` processes work at a time.
template<class F> void branch(int i, F f)
{
	if (over())
		return;
	S->forks++;
	bool parallel = S->procs.fetch_add(1) < workers;
	if (!parallel)
		S->procs--;
	pid_t p = fork();
	if (p == 0)
	{
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		kids = 0;
		trace.push_back(i);
		f(i);
		if (parallel)
			S->procs--;
		reap(0);
		_exit(0);
	}
	if (p < 0)
	{
		fprintf(stderr, "fork failed\n");
		S->stop = 1;
		return;
	}
	kids++;
	if (!parallel)
		reap(0);
	else
		reap(16);
}
} // namespace ex
#endif
