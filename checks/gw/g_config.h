// G14: the clients list and the list of predefined topics.  Every file of a few lines out of an
// alphabet is given to a gateway, which is then probed by every client.
static std::vector<B> fields(B l)
{
	std::vector<B> f(1);
	for (size_t i = 0; i < l.size(); i++)
		if (l[i] == ',')
			f.push_back("");
		else if (!strchr(" \t\r", l[i]))
			f.back() += l[i];
	return f;
}
static std::vector<B> rowsOf(const B& file)
{
	std::vector<B> r;
	std::istringstream is(file);
	B l;
	while (std::getline(is, l))
		if (!l.empty() && l[0] != '#' && l.find_first_not_of(" \t\r") != B::npos)
			r.push_back(l);
	return r;
}
static void readPredef(gwm::Cfg& c, const B& file)
{
	for (auto& l : rowsOf(file))
	{
		auto f = fields(l);
		if (f.size() == 3 && atoi(f[2].c_str()))
			c.predef.push_back({ f[0], f[1], atoi(f[2].c_str()) });
	}
}
static bool parseAddr(const B& s, Addr& a)
{
	size_t p = s.find(':');
	if (p == B::npos || inet_addr(s.substr(0, p).c_str()) == INADDR_NONE || !atoi(s.c_str() + p + 1))
		return false;
	a = gw::addr(s.substr(0, p).c_str(), atoi(s.c_str() + p + 1));
	return true;
}
static void readClients(gwm::Cfg& c, const B& file)
{
	for (auto& l : rowsOf(file))
	{
		auto f = fields(l);
		Addr a;
		if (f.size() < 2 || !parseAddr(f[1], a))
			continue;
		bool qosm1 = false, fwd = false;
		for (size_t i = 2; i < f.size(); i++)
			qosm1 |= f[i] == "QoS-1", fwd |= f[i] == "forwarder";
		if (qosm1 && c.qosm1)
			c.qosm1s.push_back({ f[0], a });
		else
		{
			if (fwd)
				c.fwds.push_back({ f[0], a });
			c.listed.push_back({ f[0], a });		// a forwarder may be a client as well
		}
	}
}
static void files(const std::vector<B>& lines, int max, const std::function<void(const B&, const B&)>& f)
{
	std::function<void(B, B, int, unsigned)> rec = [&](B file, B name, int n, unsigned used) {
		f(file + "\n", name + " newline");
		if (n)
			f(file, name);
		if (n < max)
			for (size_t i = 0; i < lines.size(); i++)
				if (!(used >> i & 1))
					rec(n ? file + "\n" + lines[i] : lines[i], name + v::fmt(" %zu", i), n + 1, used | 1u << i);
	};
	rec("", "lines", 0, 0);
}
static Scns g14()
{
	Scns r;
	bool th = v::thorough();
	{
		static const std::vector<B> lines = { "*,p/all,2", " * , p/al2\t, 3", "c1,p/c1,5", "c1,p/own,2", "d2,p/d2,5", "d2 ,p/d2b, 65534\r", "e3,p/e3,1", "# c1,p/no,4", "", "c1,p/zero,0", "*,\xe3\x81\x8b\xe3\x81\xaa/\xe2\x80\xa6,7", "c1x,p/c1x,6", "#c1,p/no,4" };
		files(lines, th ? 4 : 3, [&](const B& file, const B& name) {
			Scn s = scn("predefined topics, " + name);
			s.conf.set("PredefinedTopic", "YES").set("MaxNumberOfClients", "8");
			s.conf.predefined = file;
			s.cfg.maxClients = 8;
			readPredef(s.cfg, file);
			s.bounds = "every id and name used by three clients";
			std::vector<B> topics;
			for (auto& p : s.cfg.predef)
				topics.push_back(p.name);
			s.body = [topics]() {
				struct
				{
					B id;
					Addr a;
				} who[] = { { "c1", A }, { "d2", Bb }, { "c1x", Cc } };
				for (int again = 0; again < 2; again++)
				{
					for (auto& c : who)
					{
						must(dg("CONNECT " + c.id, c.a, w::connect(c.id, 1 - again, 0, 60)));
						must(br("CONNACK " + c.id, c.id, mq::connack(0)));
						int mid = 10;
						for (int id : { 1, 2, 3, 4, 5, 6, 7, 65534, 0, 258 })
						{
							must(dg(v::fmt("%s PUBLISH to %d", c.id.c_str(), id), c.a, w::publish(0, 1, 0, w::PREDEF, w::b2(id), ++mid, "x")));
							must(dg(v::fmt("%s PUBLISH q-1 to %d", c.id.c_str(), id), c.a, w::publish(0, 3, 0, w::PREDEF, w::b2(id), 0, "y")));
							must(dg(v::fmt("%s SUBSCRIBE %d", c.id.c_str(), id), c.a, w::subscribe(0, 1, ++mid, w::PREDEF, w::b2(id))));
							tryStep(br("SUBACK", c.id, mq::suback(mid, 1)));
						}
						for (auto& t : topics)
							if (c.id != "d2" || again)	// with and without having subscribed at first
								if (W.o.m().byClientId(c.id)->byName(t))
									must(br("message " + t, c.id, mq::publish(0, 0, 0, t, 0, "m")));
						for (auto& t : topics)
							must(dg("REGISTER " + t, c.a, w::reg(0, ++mid, t)));
					}
				}
			};
			r.push_back(s);
		});
	}
	{
		static const std::vector<B> lines = { "c1,10.0.0.1:5001", " d2 , 10.0.0.2:5001 ", "#c1,10.0.0.1:5002", "", "myQoS-1,10.0.0.1:5002", "m1,10.0.0.4:5001,QoS-1", "fw,10.0.1.1:7001,forwarder", "e3,10.0.0.3", "c1b,10.0.0.3:5001,unstableLine", "forwarder2, 10.0.1.2:7002", "m2,10.0.0.5:5001,\tunstableLine, QoS-1\r" };
		files(lines, th ? 4 : 3, [&](const B& file, const B& name) {
			Scn s = scn("clients, " + name);
			s.conf.set("ClientAuthentication", "YES").set("QoS-1", "YES").set("Forwarder", "YES").set("MaxNumberOfClients", "16");
			s.conf.clients = file;
			s.cfg.auth = s.cfg.qosm1 = true;
			s.cfg.maxClients = 16;
			readClients(s.cfg, file);
			s.bounds = "every id from every address, directly and through every forwarder; QoS -1 publishes of all";
			s.body = []() {
				Addr addrs[] = { A, Bb, Cc, X, gw::addr("10.0.0.3", 5001), gw::addr("10.0.0.4", 5001), gw::addr("10.0.0.5", 5001), F1, F2 };
				Ev wait = waitMs("3 s", 3000);
				must(wait);
				tryStep(br("proxy CONNACK", "GW_QoS-1", mq::connack(0)));
				for (auto& a : addrs)
				{
					must(dg("PUBLISH q-1", a, w::publish(0, 3, 0, w::SHORT, "ab", 0, "q")));
					for (const char* i : { "c1", "d2", "e3", "c1b", "myQoS-1", "m1", "m2", "fw", "forwarder2", "c" })
					{
						B id = i;
						Client* c = W.o.m().byClientId(id);
						if (W.o.m().byAddr(a) && W.o.m().byAddr(a) != c)
							continue;		// another client's address, see G08
						must(dg("CONNECT " + id, a, w::connect(id, 1, 0, 60)));
						tryStep(br("CONNACK " + id, id, mq::connack(0)));
						must(dg("PUBLISH " + id, a, w::publish(0, 1, 0, w::SHORT, "ab", 7, id)));
						tryStep(br("PUBACK " + id, id, mq::ack(mq::PUBACK, 7)));
						must(dg("DISCONNECT " + id, a, w::disconnect()));
					}
				}
				for (auto f : { F1, F2, X })
					for (const char* i : { "c1", "d2", "c" })
					{
						B id = i;
						Ev es[] = { dg("CONNECT " + id, A, w::connect(id, 1, 0, 60)), dg("PUBLISH " + id, A, w::publish(0, 1, 0, w::SHORT, "ab", 7, id)), dg("DISCONNECT " + id, A, w::disconnect()) };
						for (auto& e : es)
						{
							must(via(f, "n" + id, e));
							if (&e == es)
								tryStep(br("CONNACK " + id, id, mq::connack(0)));
						}
					}
			};
			r.push_back(s);
		});
	}
	// every character in ids and names, and ids, ports and topic ids of all sizes
	for (int part = 0; part < 6; part++)
	{
		std::vector<B> chars;
		for (int c = 33; c < 127; c++)
			if (c != ',' && c % 6 == part)
				chars.push_back(B(1, c));
		if (part == 0)
			for (auto c : { "\xc3\xa4", "\xe2\x80\xa6", "\xf0\x9f\x98\x80" })
				chars.push_back(c);
		std::vector<std::pair<B, Addr>> who;
		B list, predef = "c,p/c,9\n*,p/all,10\n";
		int n = 0;
		for (auto& c : chars)
			for (auto id : { "n" + c + "x", c + "n", "n" + c })
				if (id[0] != '#')
				{
					int k = n++ * 6 + part, port = 1 + k * 65534 / 300;
					B ip = v::fmt("%d.%d.%d.%d", 1 + k % 223, k * 7 % 256, 255 - k % 256, k % 254 + 1);
					who.push_back({ id, gw::addr(ip.c_str(), port) });
					list += id + "," + ip + v::fmt(":%d", port) + (n % 3 ? "\n" : ",comment\n");
				}
		Scn s = scn(v::fmt("clients, characters %d", part));
		s.conf.set("ClientAuthentication", "YES").set("MaxNumberOfClients", "120");
		s.conf.clients = list;
		s.cfg.auth = true;
		s.cfg.maxClients = 120;
		readClients(s.cfg, list);
		s.bounds = "ids with every printable character, ports from 1 to 65535: each client from its own and from two other addresses";
		s.body = [who]() {
			for (auto& x : who)
			{
				const B& id = x.first;
				for (Addr a : { gw::addr("9.9.9.9", 77), x.second })
				{
					must(dg("CONNECT " + id, a, w::connect(id, 1, 0, 60)));
					tryStep(br("CONNACK " + id, id, mq::connack(0)));
					must(dg("PUBLISH " + id, a, w::publish(0, 1, 0, w::SHORT, "ab", 7, id)));
					tryStep(br("PUBACK " + id, id, mq::ack(mq::PUBACK, 7)));
				}
			}
		};
		r.push_back(s);
		Scn p = scn(v::fmt("predefined topics, characters %d", part));
		n = 0;
		std::vector<int> ids = { 9, 10, 11 };
		for (auto& c : chars)
		{
			int id = 1 + (n++ * 6 + part) * 65533 / 110;
			predef += "*,t" + c + v::fmt("x,%d\n", id) + "c," + c + v::fmt("/y,%d\n", id + 1);
			if (c != "#" && c != "*")
				predef += c + v::fmt(",z,%d\n", id + 2);
			ids.insert(ids.end(), { id, id + 1, id + 2 });
		}
		p.conf.set("PredefinedTopic", "YES").set("MaxNumberOfClients", "120");
		p.conf.predefined = predef;
		p.cfg.maxClients = 120;
		readPredef(p.cfg, predef);
		p.bounds = "names with every printable character, ids from 1 to 65534, each used by the client which is meant and by others";
		std::vector<B> cs = { "c" };
		for (auto& c : chars)
			cs.push_back(c);
		p.body = [cs, ids]() {
			for (size_t i = 0; i < cs.size(); i++)
			{
				Addr a = gw::addr("10.0.5.1", 6000 + i);
				must(dg("CONNECT " + cs[i], a, w::connect(cs[i], 1, 0, 600)));
				must(br("CONNACK " + cs[i], cs[i], mq::connack(0)));
				int mid = 10;
				for (int id : ids)
				{
					must(dg(v::fmt("SUBSCRIBE %d", id), a, w::subscribe(0, 1, ++mid, w::PREDEF, w::b2(id))));
					tryStep(br("SUBACK", cs[i], mq::suback(mid, 1)));
					must(dg(v::fmt("PUBLISH to %d", id), a, w::publish(0, 1, 0, w::PREDEF, w::b2(id), ++mid, "x")));
				}
			}
		};
		r.push_back(p);
	}
	return r;
}
