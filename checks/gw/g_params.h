// G16: every documented parameter of gateway.conf has the effect the documentation gives it.
static Addr brokerOf(int conn)
{
	vos::SockP s = vos::conn(conn);
	return { s->remoteIp, htons(s->remotePort) };
}
static void unset(gw::Config& c, const char* k)
{
	for (size_t i = 0; i < c.params.size(); i++)
		if (c.params[i].first == k)
			c.params.erase(c.params.begin() + i--);
}
// sets a parameter, or removes it ("-")
static void put(Scn& s, const char* k, const B& val)
{
	if (val == "-")
		unset(s.conf, k);
	else
		s.conf.set(k, val);
}
// a scenario of its own, its gateway must not start
static Scn refused(const B& name)
{
	Scn s = scn(name);
	s.unstarted = true;
	s.bounds = "the gateway refuses to start";
	s.body = []() {
		int n = vos::spawn("main", []() { gw::gateway_main_args({}); });
		vos::advance(5000000);
		ex::S->transitions++;
		ex::noteState(ex::hashStr(ex::scenario));
		if (!vos::fiberDone(n))
			ex::violation("the gateway starts");
		if (!vos::outs.empty())
			ex::violation("the gateway sends something though it does not start");
	};
	return s;
}
static Scns g16()
{
	Scns r;
	bool th = v::thorough();
	const Addr M1 = gw::addr("10.0.0.4", 5001);
	// the switches, all combinations
	static const char* names[] = { "QoS-1", "Forwarder", "PredefinedTopic", "ClientAuthentication" };
	static const B some[] = { "-", "NO", "YES", "yes" };
	static const B more[] = { "Yes", "yEs", "no", "No", "Y", "YE", "YESS", "TRUE", "true", "1", "ON", "", "N", "=YES", "YES NO", "#YES" };
	auto switches = [&](const B* val, const B& name) {
		Scn s = scn("switches" + name);
		bool on[4];
		for (int i = 0; i < 4; i++)
		{
			put(s, names[i], val[i]);
			on[i] = strcasecmp(val[i].c_str(), "YES") == 0;
		}
		s.conf.set("MaxNumberOfClients", "16");
		s.cfg.maxClients = 16;
		s.conf.clients = "c1,10.0.0.1:5001\nm1,10.0.0.4:5001,QoS-1\nForwarder1,10.0.1.1:7001,forwarder\nd2,10.0.0.2:5001\n";
		s.conf.predefined = "*,p/all,2\nc1,p/c1,5\nm1,p/m1,6\n";
		s.cfg.qosm1 = on[0];
		s.cfg.auth = on[3];
		if (on[0])
			s.cfg.qosm1s.push_back({ "m1", M1 });
		if (on[1])
			s.cfg.fwds.push_back({ "Forwarder1", F1 });
		if (on[2])
			s.cfg.predef = { { "*", "p/all", 2 }, { "c1", "p/c1", 5 }, { "m1", "p/m1", 6 } };
		if (on[3])
		{
			s.cfg.listed = { { "c1", A }, { "d2", Bb }, { "Forwarder1", F1 } };
			if (!on[0])
				s.cfg.listed.push_back({ "m1", M1 });
		}
		s.bounds = "listed and unlisted clients, directly and through the forwarder, topics of all kinds";
		s.body = []() {
			must(waitMs("3 s", 3000));
			tryStep(br("proxy CONNACK", "GW_QoS-1", mq::connack(0)));
			const Addr m1 = gw::addr("10.0.0.4", 5001);
			auto pubs = [](const Addr& a, const B& n) {
				for (int q : { 3, 1 })
					for (int id : { 2, 5, 6, 9 })
						must(dg(v::fmt("PUBLISH q%d to %d of ", q, id) + n, a, w::publish(0, q, 0, w::PREDEF, w::b2(id), q == 1 ? 7 : 0, n)));
				must(dg("PUBLISH q-1 short of " + n, a, w::publish(0, 3, 0, w::SHORT, "ab", 0, n)));
			};
			struct
			{
				B id;
				Addr a;
			} who[] = { { "c1", A }, { "d2", Bb }, { "e3", Cc }, { "m1", m1 } };
			for (auto& c : who)
			{
				pubs(c.a, c.id);
				must(dg("CONNECT " + c.id, c.a, w::connect(c.id, 1, 0, 60)));
				tryStep(br("CONNACK " + c.id, c.id, mq::connack(0)));
				pubs(c.a, c.id);
				must(dg("SUBSCRIBE 5 of " + c.id, c.a, w::subscribe(0, 1, 21, w::PREDEF, w::b2(5))));
				tryStep(br("SUBACK " + c.id, c.id, mq::suback(21, 1)));
				for (const char* t : { "p/all", "p/c1", "ab", "n/x" })
					tryStep(br(B("message ") + t, c.id, mq::publish(0, 0, 0, t, 0, "m")));
				must(dg("DISCONNECT " + c.id, c.a, w::disconnect()));
			}
			for (const char* i : { "c1", "f4" })
			{
				B id = i;
				Ev es[] = { dg("CONNECT " + id, A, w::connect(id, 1, 0, 60)), dg("PUBLISH " + id, A, w::publish(0, 1, 0, w::SHORT, "ab", 7, id)), dg("PUBLISH predefined " + id, A, w::publish(0, 1, 0, w::PREDEF, w::b2(5), 8, id)),
					dg("DISCONNECT " + id, A, w::disconnect()) };
				for (auto& e : es)
				{
					must(via(F1, "n" + id, e));
					if (&e == es)
						tryStep(br("CONNACK " + id, id, mq::connack(0)));
				}
			}
		};
		r.push_back(s);
	};
	for (int n = 0; n < 256; n++)
	{
		B val[4], name;
		for (int i = 0; i < 4; i++)
			val[i] = some[n >> 2 * i & 3], name += " " + val[i];
		switches(val, name);
	}
	for (int i = 0; i < 4; i++)
		for (auto& m : more)
			for (int o = 0; o < 2; o++)
			{
				B val[] = { some[1 + o], some[1 + o], some[1 + o], some[1 + o] };
				val[i] = m;
				switches(val, v::fmt(", %s=", names[i]) + (m.empty() ? "empty" : m) + v::fmt(", others %s", some[1 + o].c_str()));
			}
	// the broker, and what is told to it
	auto told = [&](const B& host, const B& port, const B& secure, const B& user, const B& pass, const B& version) {
		Scn s = scn("broker " + host.substr(0, 30) + "," + port + "," + secure + " login " + user.substr(0, 30) + "," + pass.substr(0, 30) + " version " + version + v::fmt(" %zu", user.size() + pass.size() + host.size()));
		for (auto& c : s.name)
			if (c == '/')
				c = '|';
		put(s, "BrokerName", host);
		put(s, "BrokerPortNo", port);
		put(s, "BrokerSecurePortNo", secure);
		put(s, "LoginID", user);
		put(s, "Password", pass);
		put(s, "MQTTVersion", version);
		put(s, "QoS-1", "YES");
		s.conf.clients = "m1,10.0.0.4:5001,QoS-1\n";
		s.cfg.qosm1 = true;
		s.cfg.qosm1s.push_back({ "m1", M1 });
		put(s, "MaxNumberOfClients", "8");
		s.cfg.maxClients = 8;
		s.cfg.hasUser = user != "-";
		s.cfg.user = s.cfg.hasUser ? user : "";
		s.cfg.hasPass = pass != "-";
		s.cfg.pass = s.cfg.hasPass ? pass : "";
		s.cfg.version = version == "-" ? 4 : atoi(version.c_str());
		s.bounds = "clients with and without a will, and the QoS -1 proxy";
		s.body = [=]() {
			must(waitMs("3 s", 3000));
			tryStep(br("proxy CONNACK", "GW_QoS-1", mq::connack(0)));
			must(dg("PUBLISH q-1", M1, w::publish(0, 3, 0, w::SHORT, "ab", 0, "q")));
			must(dg("CONNECT", A, w::connect("c1", 1, 0, 60)));
			must(br("CONNACK", "c1", mq::connack(0)));
			must(dg("CONNECT with will", Bb, w::connect("d2", 0, 1, 300)));
			must(dg("WILLTOPIC", Bb, w::willtopic("w/t", 1, 1)));
			must(dg("WILLMSG", Bb, w::willmsg("gone")));
			must(br("CONNACK", "d2", mq::connack(0)));
			must(dg("PUBLISH", A, w::publish(0, 1, 0, w::SHORT, "ab", 7, "x")));
			must(fault("broker closes", "c1", Stim::CLOSE));
			must(dg("CONNECT again", A, w::connect("c1", 0, 0, 60)));
			if (vos::conns() < 4)
				ex::violation("harness: too few connections");
			for (int i = 0; i < vos::conns(); i++)
				if (vos::hostOf(brokerOf(i).ip) != host || ntohs(brokerOf(i).port) != atoi(port.c_str()))
					ex::violation(v::fmt("connection to %s port %d instead of the configured broker", vos::hostOf(brokerOf(i).ip).c_str(), ntohs(brokerOf(i).port)));
		};
		r.push_back(s);
	};
	for (const char* host : { "broker", "a", "10.1.2.3", "192.168.100.200", "mqtt.eclipseprojects.io", "a-b.c_d.example.org" })
		for (const char* port : { "1883", "1", "80", "8883", "65535" })
			told(host, port, port == B("8883") ? "1883" : "8883", "-", "-", "-");
	told(B(45, 'h') + "." + B(50, 'i') + ".net", "1884", "-", "-", "-", "-");
	{
		static const B vals[] = { "-", "u", "user", "with some blanks", "a=b", "#x", "\xc3\xa4\xe2\x82\xac", "x,y;z\"'\\", B(105, 'L') };
		for (auto& u : vals)
			for (auto& p : vals)
				if (u != "-" || p == "-")		// MQTT has no password without a user name
					for (const char* ver : { "-", "3", "4" })
						told("broker", "1883", "8883", u, p, ver);
	}
	// ports and addresses of the gateway
	{
		static const int ports[] = { 1, 255, 1883, 10000, 32768, 65535 };
		for (int port : ports)
			for (int mport : { 2, 256, 1884, 40000, 65534 })
				for (const char* ip : { "224.0.0.1", "225.1.1.1", "239.255.255.250" })
					for (int ttl : { -1, 0, 1, 2, 64, 255 })
					{
						if (!th && (port + mport + ip[2] + ttl + 1) % 3)
							continue;
						Scn s = scn(v::fmt("port %d, multicast %s port %d ttl %d", port, ip, mport, ttl));
						put(s, "GatewayPortNo", v::fmt("%d", port));
						put(s, "MulticastPortNo", v::fmt("%d", mport));
						put(s, "MulticastIP", ip);
						put(s, "MulticastTTL", ttl < 0 ? B("-") : v::fmt("%d", ttl));
						put(s, "KeepAlive", "10");
						s.bounds = "datagrams to both ports, all answers and advertisements";
						Addr group = gw::addr(ip, mport);
						int hops = ttl < 0 ? 1 : ttl;
						s.body = [=]() {
							auto check = [&](const char* what, Addr to, B data, int n) {
								int found = 0;
								for (auto& o : vos::outs)
									if (o.kind == vos::Out::DGRAM)
									{
										if (o.from != port)
											ex::violation(v::fmt("%s was sent from port %d", what, o.from));
										if (Addr { o.ip, o.port } == to && o.data == data)
										{
											found++;
											if ((ntohl(to.ip) >> 28) == 14 && o.ttl != hops)
												ex::violation(v::fmt("%s was sent with a TTL of %d", what, o.ttl));
										}
									}
								if (found != n)
									ex::violation(v::fmt("%s was sent %d times to ", what, found) + gw::show(to));
								ex::noteState(ex::hashStr(what) + port * 7919 + mport * 31 + ttl + ex::hashStr(ip));
								ex::S->transitions++;
								vos::outs.clear();
							};
							int uni = 0, multi = 0, other = 0;
							for (auto& s : vos::sockets())
								if (!s->tcp && s->open)
								{
									bool m = s->port == mport && s->group == B((const char*) &group.ip, 4);
									(m ? multi : s->port == port && !s->mcast ? uni : other)++;
								}
							if (uni != 1 || multi != 1 || other)
								ex::violation(v::fmt("%d sockets listen on the port, %d for multicasts, %d elsewhere", uni, multi, other));
							vos::outs.clear();
							vos::inject(mport, A.ip, A.port, w::sn(w::SEARCHGW, w::b1(0)));
							gw::settle();
							check("GWINFO", group, w::sn(w::GWINFO, w::b1(1)), 1);
							vos::inject(port, A.ip, A.port, w::connect("c1", 1, 0, 60));
							gw::settle();
							vos::outs.clear();
							gw::brokerSend(0, mq::connack(0));
							gw::settle();
							check("CONNACK", A, w::sn(w::CONNACK, w::b1(0)), 1);
							vos::inject(mport, Bb.ip, Bb.port, w::connect("d2", 1, 1, 60));
							gw::settle();
							check("WILLTOPICREQ", Bb, w::sn(w::WILLTOPICREQ, ""), 1);
							vos::advance(12000000);
							check("ADVERTISE", group, w::sn(w::ADVERTISE, w::b1(1) + w::b2(10)), 1);
						};
						r.push_back(s);
					}
	}
	for (const char* k : { "GatewayPortNo", "MulticastPortNo" })
		for (const char* val : { "-", "0", "abc", "" })
		{
			Scn s = refused(B(k) + "=" + val);
			put(s, k, val);
			r.push_back(s);
		}
	for (const char* val : { "-", "10.0.0.1", "240.0.0.1", "223.255.255.255", "host", "" })
	{
		Scn s = refused(B("MulticastIP=") + val);
		put(s, "MulticastIP", val);
		r.push_back(s);
	}
	for (const char* val : { "256", "1000", "-2" })
	{
		Scn s = refused(B("MulticastTTL=") + val);
		put(s, "MulticastTTL", val);
		r.push_back(s);
	}
	// ids and names; the valid ids are in G15
	for (const char* val : { "-", "0", "256", "257", "511", "512", "1000", "65535", "65536", "65537", "-1", "-255", "abc", "" })
	{
		Scn s = refused(B("GatewayID=") + val);
		put(s, "GatewayID", val);
		r.push_back(s);
	}
	{
		Scn s = refused("no GatewayName");
		put(s, "GatewayName", "-");
		r.push_back(s);
	}
	for (const char* n : { "G", "PahoGateway-01", "gate way", "GW_QoS-1", "0123456789012345678901234567890123456789" })
	{
		Scn s = scn(B("GatewayName=") + n);
		put(s, "GatewayName", n);
		put(s, "QoS-1", "YES");
		s.conf.clients = "m1,10.0.0.4:5001,QoS-1\n";
		B id = B(n) + "_QoS-1";
		s.bounds = "name of the QoS -1 proxy";
		s.body = [id]() {
			gw::collect();
			gw::datagram(gw::addr("10.0.0.4", 5001), w::publish(0, 3, 0, w::SHORT, "ab", 0, "q"));
			vos::advance(3000000);
			gw::Seen s = gw::collect();
			for (auto& b : s.broker)
				if (b[0] == 'D' && b.find(id) != B::npos && b.size() > 20 && b[b.find(':') + 1] == 0x10)
				{
					ex::S->transitions++;
					ex::noteState(ex::hashStr(id));
					return;
				}
			ex::violation("the QoS -1 proxy does not connect as " + id + ":" + gw::show(s, W.o.names));
		};
		r.push_back(s);
	}
	// where the lists are
	struct
	{
		const char* param;
		const char* needs;
	} lists[] = { { "ClientsList", "ClientAuthentication" }, { "ClientsList", "QoS-1" }, { "ClientsList", "Forwarder" }, { "PredefinedTopicList", "PredefinedTopic" } };
	for (auto& l : lists)
		for (const char* path : { "-", "none.conf", "no/such/dir.conf", "", "DIR/none.conf" })
			for (int needed = 0; needed < 2; needed++)
			{
				Scn s = refused(B(l.param) + "=" + (*path ? path : "empty") + " " + l.needs + (needed ? " YES" : " NO"));
				for (auto& c : s.name)
					if (c == '/')
						c = '|';
				put(s, l.param, path);
				put(s, l.needs, needed ? "YES" : "NO");
				if (!needed)
				{
					s.unstarted = false;
					s.bounds = "a list which is not needed need not exist";
					s.body = []() {
						must(dg("CONNECT", A, w::connect("c1", 1, 0, 60)));
						must(br("CONNACK", "c1", mq::connack(0)));
						must(dg("PUBLISH", A, w::publish(0, 1, 0, w::SHORT, "ab", 7, "x")));
					};
				}
				r.push_back(s);
			}
	for (const char* path : { "other.conf", "./sub/list", "sub/deeper/my list.conf", "ABS" })
		for (int which = 0; which < 2; which++)
		{
			Scn s = scn(v::fmt("%s in %s", which ? "predefined topics" : "clients", path[0] == 'A' ? "absolute path" : path));
			for (auto& c : s.name)
				if (c == '/')
					c = '|';
			B p = path;
			s.unstarted = true;		// the directory of the list is made first
			s.cfg.auth = !which;
			if (which)
				s.cfg.predef.push_back({ "*", "p/x", 77 });
			else
				s.cfg.listed.push_back({ "c1", A });
			s.bounds = "the list which is named is used";
			s.body = [=]() {
				B path = p;
				if (p == "ABS")
				{
					char cwd[400];
					path = B(getcwd(cwd, sizeof cwd)) + "/abs.list";
				}
				for (size_t i = 1; i < path.size(); i++)
					if (path[i] == '/')
						mkdir(path.substr(0, i).c_str(), 0777);
				gw::put(path.c_str(), which ? "*,p/x,77\n" : "c1,10.0.0.1:5001\n");
				gw::Config c = gw::defaults();
				c.set(which ? "PredefinedTopicList" : "ClientsList", path).set(which ? "PredefinedTopic" : "ClientAuthentication", "YES");
				gw::put("clients.conf", "d2,10.0.0.2:5001\n");
				gw::put("predefinedTopic.conf", "*,p/y,77\n");
				W.mainFiber = gw::launch(c);
				gw::collect();
				must(dg("CONNECT", A, w::connect("c1", 1, 0, 60)));
				tryStep(br("CONNACK", "c1", mq::connack(0)));
				must(dg("PUBLISH", A, w::publish(0, 1, 0, w::PREDEF, w::b2(77), 7, "x")));
				must(dg("CONNECT", Bb, w::connect("d2", 1, 0, 60)));
			};
			r.push_back(s);
		}
	// where gateway.conf is
	{
		struct
		{
			const char* name;
			B dir, file;
			std::vector<B> args;
		} places[] = {
			{ "default", "", "gateway.conf", { } },
			{ "-f in the directory", "", "my.conf", { "-f", "my.conf" } },
			{ "-fmy.conf", "", "my.conf", { "-fmy.conf" } },
			{ "-f relative", "conf", "gw.conf", { "-f", "conf/gw.conf" } },
			{ "-f relative with dots", "conf", "gw.conf", { "-f", "./conf/../conf/gw.conf" } },
			{ "-f absolute", "conf", "x", { "-f", "ABS/conf/x" } },
			{ "twice", "conf", "x", { "-f", "none", "-f", "conf/x" } },
		};
		for (auto& pl : places)
		{
			Scn s = scn(B("configuration ") + pl.name);
			s.unstarted = true;
			s.cfg.gwId = 77;
			s.bounds = "the configuration which is named is used";
			auto p = pl;
			s.body = [p]() {
				char cwd[400];
				B abs = getcwd(cwd, sizeof cwd);
				gw::Config c = gw::defaults();
				c.set("GatewayID", "77");
				B text;
				for (auto& x : c.params)
					text += x.first + "=" + x.second + "\n";
				unlink("gateway.conf");
				mkdir("conf", 0777);
				gw::put(((p.dir.empty() ? "" : p.dir + "/") + p.file).c_str(), text);
				std::vector<std::string> a = p.args;
				for (auto& x : a)
					if (x.compare(0, 3, "ABS") == 0)
						x = abs + x.substr(3);
				W.mainFiber = vos::spawn("main", [a]() { gw::gateway_main_args(a.empty() ? std::vector<std::string> { "" } : a); });
				vos::advance(gw::SETTLE);
				gw::collect();
				must(dg("SEARCHGW", X, w::sn(w::SEARCHGW, w::b1(1))));
				must(dg("CONNECT", A, w::connect("c1", 1, 0, 60)));
				must(br("CONNACK", "c1", mq::connack(0)));
			};
			r.push_back(s);
		}
		Scn s = refused("no configuration");
		s.body = []() {
			unlink("gateway.conf");
			int n = vos::spawn("main", []() { gw::gateway_main_args({}); });
			vos::advance(5000000);
			if (!vos::fiberDone(n) || !vos::outs.empty())
				ex::violation("the gateway starts without a configuration");
		};
		r.push_back(s);
	}
	// how many clients there may be
	for (int n : { 0, 1, 2, 3, 4 })
		for (int listed = 0; listed < 4; listed++)
		{
			bool fits = n >= 2 + listed;
			Scn s = fits ? scn(v::fmt("MaxNumberOfClients=%d and the proxy with %d clients", n, listed)) : refused(v::fmt("MaxNumberOfClients=%d too few for the proxy with %d clients", n, listed));
			put(s, "MaxNumberOfClients", v::fmt("%d", n));
			put(s, "QoS-1", "YES");
			s.cfg.maxClients = n;
			s.cfg.qosm1 = true;
			for (int i = 0; i < listed; i++)
			{
				s.conf.clients += v::fmt("m%d,10.0.0.%d:5001,QoS-1\n", i, 50 + i);
				s.cfg.qosm1s.push_back({ v::fmt("m%d", i), gw::addr(v::fmt("10.0.0.%d", 50 + i).c_str(), 5001) });
			}
			if (fits)
			{
				s.bounds = "the remaining clients, and more";
				s.body = [=]() {
					must(waitMs("3 s", 3000));
					tryStep(br("proxy CONNACK", "GW_QoS-1", mq::connack(0)));
					for (int i = 0; i < listed; i++)
						must(dg("PUBLISH q-1", gw::addr(v::fmt("10.0.0.%d", 50 + i).c_str(), 5001), w::publish(0, 3, 0, w::SHORT, "ab", 0, "q")));
					for (auto& a : { A, Bb, Cc, X })
					{
						B id = "c" + gw::show(a);
						must(dg("CONNECT", a, w::connect(id, 1, 0, 60)));
						tryStep(br("CONNACK", id, mq::connack(0)));
						must(dg("PUBLISH", a, w::publish(0, 1, 0, w::SHORT, "ab", 7, "x")));
					}
				};
			}
			r.push_back(s);
		}
	for (int n : { 1, 2, 3, 4, 5, 10, 30, 100, 101, 150, 255, 256, 300, -1 })
		for (int pattern = 0; pattern < 3; pattern++)
		{
			Scn s = scn(v::fmt("MaxNumberOfClients=%d pattern %d", n, pattern));
			int max = n < 0 ? 100 : n;
			put(s, "MaxNumberOfClients", n < 0 ? B("-") : v::fmt("%d", n));
			s.cfg.maxClients = max;
			if (pattern == 2)
				predef(s, "*", "p/all", 2);
			s.bounds = "as many clients as there may be, more, and others after some have left";
			s.body = [max, pattern]() {
				auto who = [](int i) { return gw::addr(v::fmt("10.3.%d.%d", i / 200, 1 + i % 200).c_str(), 3000 + i); };
				auto come = [&](int i) {
					B id = v::fmt("n%d", i);
					must(dg("CONNECT " + id, who(i), w::connect(id, 1, 0, 600)));
					tryStep(br("CONNACK " + id, id, mq::connack(0)));
				};
				auto work = [&](int i) {
					B id = v::fmt("n%d", i);
					must(dg("PUBLISH " + id, who(i), w::publish(0, 1, 0, w::SHORT, "ab", 7, id)));
					tryStep(br("message " + id, id, mq::publish(0, 0, 0, "ab", 0, id)));
				};
				for (int i = 0; i < max + 3; i++)
					come(i);
				for (int i = 0; i < max + 3; i += pattern == 1 ? 1 : 1 + max / 10)
					work(i);
				if (pattern == 0)
					return;
				for (int i : { max / 2, 0, max - 1 })
				{
					must(dg(v::fmt("DISCONNECT n%d", i), who(i), w::disconnect()));
					come(max + 1);
					come(i);
					work(max + 1);
					work(i);
				}
			};
			r.push_back(s);
		}
	// what so many clients may send at once
	for (int n : { 1, 2, 10, 655, 656, 6553, 6554, 6556, 13107, 13108 })
	{
		Scn s = scn(v::fmt("MaxNumberOfClients=%d, bursts", n));
		put(s, "MaxNumberOfClients", v::fmt("%d", n));
		s.cfg.maxClients = n;
		s.bounds = "ten packets of a client, and of each of up to eight clients, at once, with priority for each of the threads";
		s.body = [n]() {
			int k = std::min(n, 8);
			std::vector<Addr> who;
			for (int i = 0; i < k; i++)
			{
				who.push_back(gw::addr("10.0.6.1", 6000 + i));
				B id = v::fmt("n%d", i);
				must(dg("CONNECT " + id, who[i], w::connect(id, 1, 0, 600)));
				must(br("CONNACK " + id, id, mq::connack(0)));
			}
			auto burst = [&](const std::vector<Addr>& from, int first) {
				for (int j = 0; j < 10; j++)
					for (auto& a : from)
						gw::datagram(a, w::publish(0, 0, 0, w::SHORT, "ab", 0, v::fmt("%d", j)));
				vos::picker = [first](const std::vector<int>& ready, const std::vector<int>&, int cur, const char*) {
					for (int f : ready)
						if (f == first)
							return f;
					for (int f : ready)
						if (f > cur)
							return f;
					return ready[0];
				};
				gw::settle();
				vos::picker = nullptr;
				gw::Seen seen = gw::collect();
				ex::S->transitions++;
				ex::noteState(n * 100 + from.size() * 7 + first);
				std::map<B, int> next;
				for (auto& b : seen.broker)
				{
					size_t p = b.find(':');
					int& at = next[b.substr(0, p)];
					if (b.substr(p + 1) != mq::publish(0, 0, 0, "ab", 0, v::fmt("%d", at)))
						ex::violation(v::fmt("instead of publication %d: ", at) + gw::showBroker(b));
					at++;
				}
				for (auto& x : next)
					if (x.second != 10)
						ex::violation(v::fmt("only %d of ten publications are relayed", x.second));
				if (next.size() != from.size() || !seen.dg.empty())
					ex::violation("publications of some clients are lost:" + gw::show(seen, W.o.names));
			};
			// each of the threads has the priority once
			for (int f = 0; f < vos::fiberCount(); f++)
			{
				burst({ who[0] }, f);
				burst(who, f);
			}
		};
		r.push_back(s);
	}
	return r;
}
