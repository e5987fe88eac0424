// Shared machinery of all checks: case bookkeeping, violation reports, known findings, evidence.
#ifndef VLIB_H
#define VLIB_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <functional>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <unistd.h>
#include <time.h>
#include <sys/syscall.h>
#include <sys/stat.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" void __asan_poison_memory_region(void const volatile*, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t);
#endif

namespace v
{
inline std::string fmt(const char* f, ...)
{
	va_list ap;
	va_start(ap, f);
	char* p = NULL;
	int n = vasprintf(&p, f, ap);
	va_end(ap);
	std::string s = (n >= 0) ? std::string(p, n) : std::string();
	free(p);
	return s;
}

inline std::string hex(const void* p, size_t n, size_t max = 48)
{
	std::string s;
	const unsigned char* b = (const unsigned char*) p;
	for (size_t i = 0; i < n && i < max; i++)
		s += fmt("%02x", b[i]);
	if (n > max)
		s += fmt("..(%zu bytes)", n);
	return s;
}

inline std::string jstr(const std::string& s)
{
	std::string o = "\"";
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\')
			o += '\\', o += c;
		else if (c == '\n')
			o += "\\n";
		else if (c < 0x20 || c > 0x7e)
			o += fmt("\\u%04x", c);
		else
			o += c;
	}
	return o + "\"";
}

struct Run
{
	std::string id, tier = "quick", root = ".";
	bool replay = false;
	std::string replayFile;
	double t0 = 0;
	long violations = 0;
	std::vector<std::string> samples;
	std::vector<std::string> assumptions;
	std::map<std::string, std::string> known;	// key -> text
	std::set<std::string> knownSeen;
};

inline Run& R()
{
	static Run r;
	return r;
}

inline double now()
{
	timespec ts;
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);	// never the virtual clock
	return ts.tv_sec + ts.tv_nsec / 1e9;
}

inline bool thorough()
{
	return R().tier == "thorough";
}

inline void loadKnown()
{
	FILE* f = fopen((R().root + "/known_findings.txt").c_str(), "r");
	if (!f)
		return;
	char line[4096];
	while (fgets(line, sizeof line, f))
	{
		char prop[64], key[256];
		int n = 0;
		if (sscanf(line, "known: property=%63s key=%255s %n", prop, key, &n) >= 2 && R().id == prop)
		{
			std::string t = line + n;
			while (!t.empty() && (t.back() == '\n' || t.back() == ' '))
				t.pop_back();
			R().known[key] = t;
		}
	}
	fclose(f);
}

// usage: <binary> <ID> quick|thorough   or   <binary> <ID> replay <file>
inline void init(int argc, char** argv)
{
	Run& r = R();
	if (argc < 3)
	{
		fprintf(stderr, "usage: %s ID quick|thorough|replay [file]\n", argv[0]);
		exit(2);
	}
	r.id = argv[1];
	r.tier = argv[2];
	if (getenv("VERIF_ROOT"))
		r.root = getenv("VERIF_ROOT");
	if (r.tier == "replay")
	{
		r.replay = true;
		r.tier = "quick";
		if (argc > 3)
			r.replayFile = argv[3];
	}
	r.t0 = now();
	loadKnown();
	setvbuf(stdout, NULL, _IOLBF, 0);
}

inline std::string replayPath()
{
	std::string d = R().root + "/build";
	mkdir(d.c_str(), 0777);
	d += "/replay";
	mkdir(d.c_str(), 0777);
	return d + "/" + R().id + ".txt";
}

// A finding recorded in known_findings.txt: reported once, never a violation.
inline bool isKnown(const std::string& key)
{
	auto it = R().known.find(key);
	if (it == R().known.end())
		return false;
	if (R().knownSeen.insert(key).second)
		printf("KNOWN-FINDING: property=%s %s\n", R().id.c_str(), it->second.c_str());
	return true;
}

inline void report(const std::string& what, const std::string& replayBody)
{
	std::string p = replayPath();
	FILE* f = fopen(p.c_str(), "w");
	if (f)
	{
		fprintf(f, "# property %s\n# %s\n%s\n", R().id.c_str(), what.c_str(), replayBody.c_str());
		fclose(f);
	}
	printf("%s\n", what.c_str());
	printf("VIOLATION property=%s replay=%s\n", R().id.c_str(), p.c_str());
	fflush(stdout);
	R().violations++;
}

struct Evidence
{
	std::string level;
	std::vector<std::pair<std::string, std::string>> cov;
	void num(const char* k, long long n)
	{
		cov.push_back({ k, fmt("%lld", n) });
	}
	void str(const char* k, const std::string& s)
	{
		cov.push_back({ k, jstr(s) });
	}
	void boolean(const char* k, bool b)
	{
		cov.push_back({ k, b ? "true" : "false" });
	}
	void list(const char* k, const std::vector<std::string>& l)
	{
		std::string s = "[";
		for (size_t i = 0; i < l.size(); i++)
			s += (i ? ", " : "") + jstr(l[i]);
		cov.push_back({ k, s + "]" });
	}
	void write()
	{
		if (R().replay)
			return;
		std::string d = R().root + "/evidence";
		mkdir(d.c_str(), 0777);
		std::string p = d + "/" + R().id + ".json", t = p + ".tmp";
		FILE* f = fopen(t.c_str(), "w");
		if (!f)
		{
			perror(t.c_str());
			exit(2);
		}
		const char* seed = getenv("VERIF_SEED");
		fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %d,\n \"level\": \"%s\",\n \"coverage\": {\n", R().id.c_str(),
				R().tier.c_str(), seed ? atoi(seed) : 1, level.c_str());
		for (size_t i = 0; i < cov.size(); i++)
			fprintf(f, "  \"%s\": %s%s\n", cov[i].first.c_str(), cov[i].second.c_str(), i + 1 < cov.size() ? "," : "");
		fprintf(f, " },\n \"assumptions\": [");
		for (size_t i = 0; i < R().assumptions.size(); i++)
			fprintf(f, "%s%s", i ? ", " : "", jstr(R().assumptions[i]).c_str());
		fprintf(f, "],\n \"wall_s\": %.2f,\n \"violations\": %ld\n}\n", now() - R().t0, R().violations);
		fclose(f);
		rename(t.c_str(), p.c_str());
	}
};

// ---- sequential enumeration harnesses: one current case, numbered; replay re-runs one number -----------
struct Cases
{
	long n = 0, only = -1, nontrivial = 0;
	std::function<std::string()> describe;	// describes the current case
	std::set<std::string> seenKinds;
	double lastBeat = 0;
};
inline Cases& C()
{
	static Cases c;
	return c;
}
inline void caseViolation(const std::string& what)
{
	std::string d = C().describe ? C().describe() : "";
	report(R().id + ": " + what + " -- " + d, fmt("case %ld\n# %s", C().n, d.c_str()));
}
inline void deathCallback()
{
	static bool once = false;
	if (once)
		return;
	once = true;
	caseViolation("invalid memory access or abort in the code under test");
	_exit(1);
}
inline void initCases()
{
	if (R().replay && !R().replayFile.empty())
	{
		FILE* f = fopen(R().replayFile.c_str(), "r");
		char line[4096];
		while (f && fgets(line, sizeof line, f))
			sscanf(line, "case %ld", &C().only);
		if (f)
			fclose(f);
	}
#if defined(__SANITIZE_ADDRESS__)
	__sanitizer_set_death_callback(deathCallback);
#endif
}
// true if the case is to be run
inline bool next()
{
	C().n++;
	return C().only < 0 || C().only == C().n;
}
inline void sample(const std::string& kind, const std::function<std::string()>& d)
{
	if (R().samples.size() < 12 && C().seenKinds.insert(kind).second)
		R().samples.push_back(d());
}
} // namespace v
#endif
