// D01: topic filters.  All well formed filters and names up to a length over a small alphabet.
static std::vector<std::string> strings(const std::string& alpha, size_t max)
{
	std::vector<std::string> all, last = { "" };
	for (size_t n = 1; n <= max; n++)
	{
		std::vector<std::string> next;
		for (auto& s : last)
			for (char c : alpha)
				next.push_back(s + c);
		all.insert(all.end(), next.begin(), next.end());
		last = next;
	}
	return all;
}
static bool filterOk(const std::string& f)
{
	for (size_t i = 0; i < f.size(); i++)
	{
		bool first = i == 0 || f[i - 1] == '/', last = i + 1 == f.size() || f[i + 1] == '/';
		if (f[i] == '+' && !(first && last))
			return false;
		if (f[i] == '#' && !(first && i + 1 == f.size()))
			return false;
	}
	return true;
}
static Scns d01()
{
	Scns r;
	size_t max = v::thorough() ? 8 : 6;
	int parts = 16;
	for (int part = 0; part < parts; part++)
	{
		Scn s;
		s.plain = true;
		s.name = v::fmt("filters and names, part %d", part);
		s.bounds = v::fmt("all well formed filters of 1..%zu and names of 1..%zu characters over a b / + #", max, v::thorough() ? (size_t) 7 : max);
		s.body = [=]() {
			std::vector<std::string> filters, names = strings("ab/", v::thorough() ? 7 : max);
			size_t k = 0;
			for (auto& f : strings("ab/+#", max))
				if (filterOk(f) && (int) (k++ % parts) == part)
					filters.push_back(f);
			for (auto& f : filters)
			{
				if (ex::over())
					return;
				// alone in a client's topics, and behind another topic
				for (int other = 0; other < 2; other++)
				{
					MQTTSNGW::Topics topics;
					if (other)
						topics.add("zzzz", 0);
					std::string ff = f;
					MQTTSN_topicid t;
					memset(&t, 0, sizeof t);
					t.type = MQTTSN_TOPIC_TYPE_NORMAL;
					t.data.long_.name = &ff[0];
					t.data.long_.len = ff.size();
					MQTTSNGW::Topic* added = topics.add(&t);
					if (!added)
						ex::violation("filter " + f + " can't be added");
					for (auto& n : names)
					{
						// the name stands in a buffer of exactly its size
						std::vector<char> buf(n.begin(), n.end());
						MQTTSN_topicid x;
						memset(&x, 0, sizeof x);
						x.type = MQTTSN_TOPIC_TYPE_NORMAL;
						x.data.long_.name = buf.data();
						x.data.long_.len = buf.size();
						MQTTSNGW::Topic* got = topics.match(&x);
						bool want = gwm::matches(f, n);
						ex::S->transitions++;
						if ((got != nullptr) != want || (got && got != added))
						{
							ex::traceText.push_back("filter " + f + " name " + n);
							ex::violation("filter " + f + (want ? " does not match " : " matches ") + n);
						}
					}
				}
				ex::noteState(ex::hashStr(f));
				ex::S->histories++;
				if (ex::S->histories % 499 == 1)
					ex::sample("filter " + f + v::fmt(" against %zu names", names.size()));
			}
		};
		r.push_back(s);
	}
	return r;
}
