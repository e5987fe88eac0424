// main program of the checks; the table CHECKS comes before it
static void rmTree(const std::string& d)
{
	if (d.compare(0, 10, "/tmp/vgwx.") != 0)
		return;
	std::string c = "rm -rf -- '" + d + "'";
	if (system(c.c_str()) != 0)
		perror("rm");
}

int main(int argc, char** argv)
{
	v::init(argc, argv);
	ex::initShared();
	Scns all;
	for (auto& c : CHECKS)
		if (v::R().id == c.id)
			all = c.make();
	if (all.empty())
	{
		fprintf(stderr, "unknown property %s\n", v::R().id.c_str());
		return 2;
	}
	char tmpl[] = "/tmp/vgwx.XXXXXX";
	if (!mkdtemp(tmpl))
	{
		perror("mkdtemp");
		return 2;
	}
	std::string top = tmpl;
	gw::scratch = top;
	ex::deadline = v::now() + (v::thorough() ? 840 : 600);
	if (getenv("VERIF_LIMIT"))
		ex::deadline = v::now() + atoi(getenv("VERIF_LIMIT"));
	int cpus = sysconf(_SC_NPROCESSORS_ONLN);
	ex::workers = getenv("W") ? atoi(getenv("W")) : cpus > 0 ? cpus * 2 : 8;
	if (v::R().replay)
	{
		std::ifstream f(v::R().replayFile);
		std::string line;
		Scns one;
		while (std::getline(f, line))
		{
			if (line.compare(0, 9, "scenario ") == 0)
			{
				for (auto& s : all)
					if (s.name == line.substr(9))
						one.push_back(s);
			}
			else if (line.compare(0, 7, "choices") == 0)
			{
				std::istringstream is(line.substr(7));
				int c;
				while (is >> c)
					ex::preset.push_back(c);
			}
		}
		ex::replaying = true;
		all = one;
		if (all.empty())
		{
			fprintf(stderr, "no such scenario\n");
			return 2;
		}
	}
	const char* only = getenv("VERIF_ONLY");
	double t0 = v::now();
	for (auto& s : all)
	{
		if (only && s.name.find(only) == std::string::npos)
			continue;
		if (ex::over())
			break;
		ex::S->procs++;
		fflush(stdout);
		pid_t p = fork();
		if (p == 0)
		{
			ex::kids = 0;
			if (only)
				fprintf(stderr, "%s\n", s.name.c_str());
			runScenario(s);
			ex::S->procs--;
			ex::reap(0);
			_exit(0);
		}
		ex::kids++;
		ex::scenario = s.name;
		ex::reap(ex::workers - 1);
	}
	ex::reap(0);
	rmTree(top);
	int n = ex::S->nKnown;
	for (int i = 0; i < n && i < 64; i++)
		v::isKnown(ex::S->known[i]);
	int rc = 0;
	if (ex::S->claimed)
	{
		std::string t = ex::S->trace;
		v::report(v::R().id + ": " + ex::S->what, t);
		if (v::R().replay || getenv("VERIF_SHOW"))
			printf("%s", t.c_str());
		rc = 1;
	}
	else if (ex::S->stop && !ex::S->timeUp)
	{
		fprintf(stderr, "harness failure\n");
		rc = 2;
	}
	v::Evidence e;
	e.level = "model_checking";
	e.num("states", ex::S->states);
	e.num("transitions", ex::S->transitions);
	e.num("histories", ex::S->histories);
	e.num("traces_validated_against_impl", ex::S->histories);
	e.num("scenarios", all.size());
	e.boolean("bounds_exhausted", !ex::S->timeUp && !ex::S->claimed);
	std::vector<std::string> sm, sc;
	n = ex::S->nSamples;
	for (int i = 0; i < n && i < 16; i++)
		sm.push_back(ex::S->samples[i]);
	if (sm.empty())
		sm.push_back("(none)");
	e.list("samples", sm);
	for (auto& s : all)
		sc.push_back(!s.bounds.empty() ? s.name + ": " + s.bounds : v::fmt("%s: %zu kinds of step, all sequences to depth %d%s", s.name.c_str(), s.alpha.size(), s.depth,
				sched::boundOf.count(s.name) ? v::fmt(" (one batch, all schedules with at most %d preemptions or early time-outs)", sched::boundOf[s.name]).c_str() :
				s.deep > s.depth ? v::fmt(", new states to depth %d", s.deep).c_str() : s.body ? " (single long history)" : ""));
	e.list("bounds", sc);
	v::R().assumptions = ASSUMPTIONS;
	if (rc != 2)
		e.write();
	if (!v::R().replay)
		printf("%s %s: %ld states, %ld transitions, %ld histories in %.1f s%s\n", v::R().id.c_str(), v::R().tier.c_str(), (long) ex::S->states,
				(long) ex::S->transitions, (long) ex::S->histories, v::now() - t0, ex::S->timeUp ? " (time limit)" : "");
	return rc;
}
