// D02: the parameters of the gateway's configuration file.  All files of a few lines out of an alphabet
// of lines, with and without a newline at the end, and lines of all lengths.
struct Conf : public MQTTSNGW::Process
{
	void initialize(int argc, char** argv) { MQTTSNGW::Process::initialize(argc, argv); }
};
// what the file says about a parameter; false: nothing
static bool reference(const std::string& file, const std::string& key, std::string& value)
{
	std::istringstream is(file);
	std::string l;
	while (std::getline(is, l))
	{
		if (l.empty() || l[0] == '#' || l.compare(0, key.size() + 1, key + "=") != 0)
			continue;
		value = l.substr(key.size() + 1);
		size_t a = value.find_first_not_of(" \t\r\v\f"), b = value.find_last_not_of(" \t\r\v\f");
		value = a == std::string::npos ? "" : value.substr(a, b - a + 1);
		return true;
	}
	return false;
}
static std::string quoted(const std::string& s)
{
	std::string o = "\"";
	for (char c : s)
		o += c == '\n' ? "\\n" : c == '\r' ? "\\r" : c == '\t' ? "\\t" : std::string(1, c);
	return o + "\"";
}
static void askConf(Conf& p, const std::string& file, const std::string& key, bool exact = true)
{
	char got[MQTTSNGW_PARAM_MAX];
	memset(got, 'Z', sizeof got);
	got[sizeof got - 1] = 0;
	std::string want;
	ex::S->transitions++;
	ex::traceText.assign(1, "file " + quoted(file) + ", parameter " + key);
	bool is = reference(file, key, want), found = p.getParam(key.c_str(), got) == 0;
	if (!exact)
		return;
	if (is != found)
		ex::violation("parameter " + key + (found ? v::fmt(" has the value %s though it is not there", quoted(got).c_str()) : " is not found") + " in the file " + quoted(file));
	if (is && want != got)
		ex::violation("parameter " + key + " has the value " + quoted(got) + " instead of " + quoted(want) + " in the file " + quoted(file));
	ex::noteState(ex::hashStr(found ? got : "\1"));
}
static void openConf(Conf& p)
{
	gw::put("gateway.conf", "");
	p.initialize(3, gw::argv());
}
static Scns d02()
{
	Scns r;
	static const std::vector<std::string> lines = { "K=v", "K=w x", "K=", "K= v\t ", "K =y", " K=z", "#K=x", "#", "", "KK=kk", "JK=jk", "K", "J", "nothing", "=x", "J=K=v", "K=a=b", "J=2\r", "K=v # no", "\t", "Key=word", "k=low", "K=\tv w" };
	int max = v::thorough() ? 4 : 3, parts = lines.size();
	for (int part = 0; part < parts; part++)
	{
		Scn s;
		s.plain = true;
		s.name = v::fmt("files, part %d", part);
		s.bounds = v::fmt("all files of up to %d lines out of %zu kinds which start with line %d, with and without a newline at the end", max, lines.size(), part);
		s.body = [=]() {
			if (chdir(gw::scratch.c_str()))
				_exit(2);
			Conf p;
			openConf(p);
			std::function<void(std::string, int)> rec = [&](std::string f, int n) {
				if (ex::over())
					return;
				for (int nl = 0; nl < 2; nl++)
				{
					std::string file = nl ? f + "\n" : f;
					gw::put("gateway.conf", file);
					for (const char* k : { "K", "J", "KK" })
						askConf(p, file, k);
				}
				if (n < max)
					for (auto& l : lines)
						rec(f + "\n" + l, n + 1);
			};
			rec(lines[part], 1);
		};
		r.push_back(s);
	}
	// every short value, and every short line before one which counts
	for (int kind = 0; kind < 2; kind++)
	{
		static const char* const chars[2] = { "a#= \t\r", "Kk=J #" };
		int len = v::thorough() ? 7 : 5;
		Scn s;
		s.plain = true;
		s.name = kind ? "short lines" : "short values";
		s.bounds = v::fmt("all %s of up to %d characters out of six, with and without a following line", kind ? "lines" : "values", len);
		s.body = [=]() {
			if (chdir(gw::scratch.c_str()))
				_exit(2);
			Conf p;
			openConf(p);
			std::function<void(std::string)> rec = [&](std::string v) {
				if (ex::over())
					return;
				for (int more = 0; more < 2; more++)
				{
					std::string file = (kind ? v : "K=" + v) + (more ? "\nK=end of x\nJ= x y \n" : "");
					gw::put("gateway.conf", file);
					askConf(p, file, "K");
					askConf(p, file, "J");
				}
				ex::S->histories++;
				if ((int) v.size() < len)
					for (const char* c = chars[kind]; *c; c++)
						rec(v + *c);
			};
			rec("");
		};
		r.push_back(s);
	}
	Scn s;
	s.plain = true;
	s.name = "lengths";
	s.bounds = "values, names and comments of 0..300 characters, parameters at every place of a comment";
	s.body = []() {
		if (chdir(gw::scratch.c_str()))
			_exit(2);
		Conf p;
		openConf(p);
		for (int n = 0; n <= 300; n++)
			for (int nl = 0; nl < 2; nl++)
			{
				std::string end = nl ? "\nJ=2\n" : "", v(n, 'v');
				for (int i = 0; i < n; i++)
					v[i] = 'a' + i % 26;
				struct
				{
					std::string file, key;
				} cases[] = {
					{ "K=" + v + end, "K" }, { "#" + v + "K=bad" + end, "K" }, { "#" + v + "\nK=good" + end, "K" }, { v + "=x" + end, "K" }, { v + "\nK=good" + end, "K" },
					{ v + "K=bad" + end, "K" }, { "K=" + std::string(n, ' ') + "x" + end, "K" }, { "K=x" + std::string(n, ' ') + end, "K" }, { v + "=x" + end, v },
				};
				for (auto& c : cases)
				{
					gw::put("gateway.conf", c.file);
					if (nl)
						askConf(p, c.file, "J");
					// what is not within the documented length of a record has no exact meaning
					size_t longest = 0, at = 0;
					while (at < c.file.size())
					{
						size_t e = std::min(c.file.find('\n', at), c.file.size());
						if (c.file[at] != '#' && c.file.compare(at, c.key.size() + 1, c.key + "=") == 0)
							longest = std::max(longest, e - at);
						at = e + 1;
					}
					if (!c.key.empty() && c.key.size() < 128)
						askConf(p, c.file, c.key, longest <= 125);
				}
			}
	};
	r.push_back(s);
	return r;
}
