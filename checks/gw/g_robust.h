// ---- G12: malformed datagrams, G13: malformed broker data ----------------------------------------
// Gives every item of a corpus to the gateway in the state which was reached, each in a process which
// is in that state, then the steps of `after`, which show that everyone is still served.  An item
// which leaves the model as it was is followed by the next one in the same process.
static void corpus(const std::vector<Ev>& items, const std::vector<Ev>& after)
{
	const int CHUNK = 48;
	int* next = (int*) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	auto probe = [&]() {
		for (auto& e : after)
			tryStep(e);
		ex::S->histories++;
	};
	// items from k on, until one changes the state
	auto run = [&](int k, int end) {
		for (; k < end; k++)
		{
			uint64_t h = W.o.hash();
			*next = k + 1;
			if (!tryStep(items[k]))
				continue;
			if (W.o.hash() != h)
				break;
			if (ex::traceText.size() > 12)
				ex::traceText.erase(ex::traceText.begin() + 4, ex::traceText.end() - 4);
		}
		probe();
	};
	if (ex::replaying)
	{
		if (!ex::preset.empty())
		{
			int k = ex::preset[0];
			ex::trace.push_back(k);
			run(k, std::min((k / CHUNK + 1) * CHUNK, (int) items.size()));
		}
		return;
	}
	for (int c = 0; c < (int) items.size() && !ex::over(); c += CHUNK)
		ex::branch(-1, [&](int) {
			ex::trace.clear();
			next = (int*) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
			int end = std::min(c + CHUNK, (int) items.size());
			for (int k = c; k < end && !ex::over(); k = *next)
			{
				*next = k + 1;
				pid_t p = fork();
				if (p == 0)
				{
					prctl(PR_SET_PDEATHSIG, SIGKILL);
					ex::kids = 0;
					ex::trace.push_back(k);
					run(k, end);
					_exit(0);
				}
				ex::kids++;
				ex::reap(0);
			}
		});
	ex::reap(0);
}

// every damaged form of the datagram p
static void damaged(std::vector<std::pair<std::string, B>>& out, const std::string& name, const B& p, bool th)
{
	auto add = [&](const std::string& n, const B& b) { out.push_back({ name + ", " + n, b }); };
	auto fixed = [](B b) {
		if (b.size() > 3 && b[0] == 1)
			b[1] = b.size() >> 8, b[2] = b.size();
		else if (!b.empty())
			b[0] = b.size() < 256 ? b.size() : 255;
		return b;
	};
	size_t n = p.size();
	add("as it is", p);
	for (size_t l = 0; l < n; l++)
	{
		if (n > 60 && l > 20 && l + 20 < n && !th)
			continue;
		add(v::fmt("first %zu bytes", l), p.substr(0, l));
		if (l >= 2)
			add(v::fmt("first %zu bytes and that length", l), fixed(p.substr(0, l)));
	}
	for (int x : { 1, 2, 3, 200 })
	{
		add(v::fmt("%d bytes more", x), p + B(x, 'x'));
		if (n + x < 256)
			add(v::fmt("%d bytes more and that length", x), fixed(p + B(x, 'x')));
	}
	if (n < 256)
	{
		std::vector<int> ls = { 0, 1, 2, 3, 4, (int) n - 1, (int) n + 1, 127, 128, 254, 255 };
		if (th)
			for (int l = 0; l < 256; l++)
				ls.push_back(l);
		for (int l : ls)
			if (l != (int) n)
				add(v::fmt("length %d", l), w::b1(l) + p.substr(1));
		// the form with a length of three bytes
		B q = w::b1(1) + w::b2(n + 2) + p.substr(1);
		add("length of 3 bytes", q);
		for (int l : { 0, 1, 2, 3, 4, (int) n, (int) n + 1, (int) n + 3, 255, 256, 0x7fff, 0x8000, 0xffff })
			add(v::fmt("length of 3 bytes, %d", l), w::b1(1) + w::b2(l) + p.substr(1));
		for (size_t l = 1; l < q.size() && l < 12; l++)
		{
			B t = q.substr(0, l);
			add(v::fmt("length of 3 bytes, first %zu bytes", l), t);
			if (l >= 3)
				add(v::fmt("length of 3 bytes, first %zu bytes and that length", l), w::b1(1) + w::b2(l) + t.substr(3));
		}
	}
	for (size_t i = n > 3 && p[0] == 1 ? 3 : 1; i < n; i++)
	{
		if (n > 60 && i > 12 && i + 3 < n && !th)
			continue;
		std::set<int> vs = { 0, 1, 0x7f, 0x80, 0xff, gwm::u8(p, i) ^ 1, gwm::u8(p, i) ^ 0x80, gwm::u8(p, i) ^ 0x60 };
		if (th)
			for (int b = 0; b < 8; b++)
				vs.insert(gwm::u8(p, i) ^ 1 << b);
		for (int x : vs)
		{
			if (x == gwm::u8(p, i))
				continue;
			B c = p;
			c[i] = x;
			add(v::fmt("byte %zu %02x", i, x), c);
		}
	}
}
static std::vector<std::pair<std::string, B>> packets()
{
	std::vector<std::pair<std::string, B>> r = {
		{ "CONNECT", w::connect("c1", 1, 0, 60) }, { "CONNECT keep will", w::connect("c1", 0, 1, 60) }, { "CONNECT without id", w::connect("", 1, 0, 60) },
		{ "CONNECT id of 64", w::connect(B(64, 'i'), 1, 0, 60) }, { "CONNECT id of 65", w::connect(B(65, 'i'), 1, 0, 60) }, { "CONNECT id of 250", w::connect(B(240, 'i'), 0, 1, 60) },
		{ "CONNECT id of 900", w::connect(B(900, 'i'), 0, 1, 60) }, { "CONNECT id with NUL", w::connect(B("a\0b", 3), 1, 0, 60) },
		{ "WILLTOPIC", w::willtopic("wt", 1, 1) }, { "WILLTOPIC without topic", w::willtopic("", 0, 0) }, { "WILLTOPIC empty", w::sn(w::WILLTOPIC, "") }, { "WILLMSG", w::willmsg("gone") }, { "WILLMSG empty", w::willmsg("") },
		{ "REGISTER", w::reg(0, 11, "n/a") }, { "REGISTER without name", w::reg(0, 11, "") }, { "REGISTER long", w::reg(0, 11, lots(300)) },
		{ "REGACK", w::regack(1, 1, 0) }, { "REGACK refused", w::regack(1, 1, 2) },
		{ "PUBLISH short", w::publish(0, 1, 0, w::SHORT, "ab", 7, "x") }, { "PUBLISH normal q0", w::publish(0, 0, 1, w::NORMAL, w::b2(1), 0, "") },
		{ "PUBLISH predefined", w::publish(1, 2, 0, w::PREDEF, w::b2(2), 9, "y") }, { "PUBLISH q-1", w::publish(0, 3, 0, w::SHORT, "ab", 0, "z") },
		{ "PUBLISH type 3", w::publish(0, 1, 0, 3, "ab", 7, "x") }, { "PUBLISH long", w::publish(0, 1, 0, w::SHORT, "ab", 7, lots(1000)) }, { "PUBLISH longest", w::publish(0, 1, 0, w::SHORT, "ab", 7, lots(1015)) },
		{ "PUBACK", w::puback(1, 1, 0) }, { "PUBREC", w::ack(w::PUBREC, 1) }, { "PUBREL", w::ack(w::PUBREL, 1) }, { "PUBCOMP", w::ack(w::PUBCOMP, 1) },
		{ "SUBSCRIBE", w::subscribe(0, 1, 12, w::NORMAL, "s/#") }, { "SUBSCRIBE predefined", w::subscribe(0, 2, 13, w::PREDEF, w::b2(2)) }, { "SUBSCRIBE short", w::subscribe(1, 0, 14, w::SHORT, "ab") },
		{ "SUBSCRIBE type 3", w::subscribe(0, 1, 12, 3, "ab") }, { "SUBSCRIBE long", w::subscribe(0, 1, 12, w::NORMAL, lots(300)) },
		{ "UNSUBSCRIBE", w::unsubscribe(15, w::NORMAL, "s/#") }, { "UNSUBSCRIBE predefined", w::unsubscribe(15, w::PREDEF, w::b2(2)) }, { "UNSUBSCRIBE short", w::unsubscribe(15, w::SHORT, "ab") },
		{ "PINGREQ", w::pingreq() }, { "PINGREQ id", w::pingreq("c1") }, { "DISCONNECT", w::disconnect() }, { "DISCONNECT 10", w::disconnect(10) },
		{ "WILLTOPICUPD", w::sn(w::WILLTOPICUPD, w::b1(0) + "wt") }, { "WILLMSGUPD", w::sn(w::WILLMSGUPD, "m") },
		{ "ADVERTISE", w::sn(w::ADVERTISE, w::b1(1) + w::b2(9)) }, { "SEARCHGW", w::sn(w::SEARCHGW, w::b1(0)) }, { "GWINFO", w::sn(w::GWINFO, w::b1(1)) },
		{ "CONNACK", w::connack(0) }, { "WILLTOPICREQ", w::sn(w::WILLTOPICREQ, "") }, { "WILLMSGREQ", w::sn(w::WILLMSGREQ, "") }, { "SUBACK", w::suback(1, 1, 12, 0) },
		{ "UNSUBACK", w::ack(w::UNSUBACK, 12) }, { "PINGRESP", w::pingresp() }, { "WILLTOPICRESP", w::sn(w::WILLTOPICRESP, w::b1(0)) }, { "WILLMSGRESP", w::sn(w::WILLMSGRESP, w::b1(0)) },
	};
	for (int t = 0; t < 256; t++)
	{
		r.push_back({ v::fmt("type %02x empty", t), w::sn(t, "") });
		r.push_back({ v::fmt("type %02x with 7 bytes", t), w::sn(t, B("\x01\x00\x02\x00\x01\x61\x62", 7)) });
	}
	return r;
}
static Scns g12()
{
	Scns r;
	bool th = v::thorough();
	// the bystander's service, then the sender's
	std::vector<Ev> after = {
		dg("PUBLISH of the bystander", Bb, w::publish(0, 1, 0, w::SHORT, "ok", 77, "by")),
		br("PUBACK", "d2", mq::ack(mq::PUBACK, 77)),
		br("message for the bystander", "d2", mq::publish(0, 0, 0, "ok", 0, "by")),
		dg("PINGREQ of the sender", A, w::pingreq()),
		br("message for the sender", "c1", mq::publish(0, 0, 0, "ok", 0, "x")),
		dg("CONNECT of the sender", A, w::connect("c1", 1, 0, 60)),
		br("CONNACK", "c1", mq::connack(0)),
	};
	std::vector<Ev> bystander = { dg("CONNECT d2", Bb, w::connect("d2", 1, 0, 60)), br("CONNACK", "d2", mq::connack(0)) };
	Ev con = dg("CONNECT c1", A, w::connect("c1", 1, 0, 60)), ack = br("CONNACK", "c1", mq::connack(0));
	Ev reg = dg("REGISTER", A, w::reg(0, 1, "n/a"));
	Ev sleep = dg("DISCONNECT 10", A, w::disconnect(10)), msg = br("message", "c1", mq::publish(0, 1, 0, "n/a", 5, "m")), msg2 = br("message n/b", "c1", mq::publish(0, 0, 0, "n/b", 0, "m"));
	Ev sub = dg("SUBSCRIBE n/#", A, w::subscribe(0, 1, 3, w::NORMAL, "n/#")), suba = br("SUBACK", "c1", mq::suback(3, 1)), ping = dg("PINGREQ", A, w::pingreq());
	struct
	{
		const char* name;
		std::vector<Ev> pre;
		int way;		// 0 direct, 1 through a forwarder, 2 the encapsulation itself
	} st[] = {
		{ "from a stranger", {}, 0 },
		{ "from an active client", { con, ack, reg, sub, suba }, 0 },
		{ "from a connecting client", { con }, 0 },
		{ "awaiting the will topic", { dg("CONNECT will", A, w::connect("c1", 1, 1, 60)) }, 0 },
		{ "awaiting the will message", { dg("CONNECT will", A, w::connect("c1", 1, 1, 60)), dg("WILLTOPIC", A, w::willtopic("wt", 0, 0)) }, 0 },
		{ "from a disconnected client", { con, ack, dg("DISCONNECT", A, w::disconnect()) }, 0 },
		{ "from a sleeping client", { con, ack, reg, sub, suba, sleep, msg, msg2 }, 0 },
		{ "from a client awake", { con, ack, reg, sub, suba, sleep, msg2, ping, msg }, 0 },
		{ "through a forwarder", { con, ack, reg }, 1 },
		{ "encapsulations", { con, ack }, 2 },
	};
	for (auto& x : st)
	{
		Scn s = scn(x.name);
		int way = x.way;
		predef(s, "*", "p/all", 2);
		s.prefix = bystander;
		std::vector<Ev> aft = after;
		if (way)
			forwarders(s, 1);
		for (auto& e : x.pre)
			s.prefix.push_back(way ? via(F1, "\x07", e) : e);
		if (way)
			for (auto& e : aft)
				e = via(F1, "\x07", e);
		if (way)		// the bystander is direct
			aft[0] = after[0];
		s.body = [=]() {
			std::vector<std::pair<std::string, B>> ps;
			for (auto& p : packets())
			{
				if (way == 2)
				{
					if (p.second.size() > 20 || p.first.compare(0, 4, "type") == 0)
						continue;
					damaged(ps, p.first, w::encap("\x07", p.second), th);
				}
				else if (p.first.compare(0, 4, "type") == 0)
					ps.push_back(p);
				else
					damaged(ps, p.first, p.second, th);
			}
			if (way == 2)
				for (int l = 0; l < 256; l++)
				{
					ps.push_back({ v::fmt("node id of %d bytes only", l), w::b1(l) + w::b1(w::ENCAPS) + B(l, 'n') });
					ps.push_back({ v::fmt("encapsulation in encapsulation %d", l), w::encap("\x07", w::encap(B(l < 253 ? l : 0, 'n'), w::pingreq())) });
				}
			std::vector<Ev> items;
			for (auto& p : ps)
			{
				B d = way == 1 ? w::encap("\x07", p.second) : p.second;
				if (!d.empty() && d.size() <= 1024)
					items.push_back(dg(p.first, way ? F1 : A, d));
			}
			corpus(items, aft);
		};
		r.push_back(s);
	}
	return r;
}

// ---- G13 ---------------------------------------------------------------------------------------
static Ev raw(const std::string& n, const B& id, const B& d) { return br(n, id, d); }
// every way to cut s[from..] into at most cuts + 1 pieces, which arrive one after the other
static void pieces(const B& id, const B& s, size_t from, int cuts, const std::vector<Ev>& after)
{
	auto rest = [&](int) {
		tryStep(raw(v::fmt("bytes from %zu on", from), id, s.substr(from)));
		for (auto& e : after)
			tryStep(e);
		ex::S->histories++;
	};
	if (ex::replaying)
	{
		if (ex::trace.size() >= ex::preset.size())
			return;
		int c = ex::preset[ex::trace.size()];
		ex::trace.push_back(c);
		if (c == 0)
			rest(0);
		else
		{
			tryStep(raw(v::fmt("bytes %zu to %d", from, c), id, s.substr(from, c - from)));
			pieces(id, s, c, cuts - 1, after);
		}
		return;
	}
	ex::branch(0, rest);
	for (size_t c = from + 1; c < s.size() && cuts > 0 && !ex::over(); c++)
	{
		if (s.size() > 200 && c > 40 && c + 40 < s.size() && c % 97)
			continue;
		ex::branch(c, [&](int) {
			tryStep(raw(v::fmt("bytes %zu to %zu", from, c), id, s.substr(from, c - from)));
			pieces(id, s, c, cuts - 1, after);
		});
	}
}
// every damaged form of the packet p, which has a length of one byte
static void mqDamaged(std::vector<std::pair<std::string, B>>& out, const std::string& name, const B& p, bool th)
{
	auto add = [&](const std::string& n, const B& b) { out.push_back({ name + ", " + n, b }); };
	auto len = [](size_t n) {
		B r;
		do
			r += w::b1(n % 128 | (n >= 128 ? 128 : 0)), n /= 128;
		while (n);
		return r;
	};
	add("as it is", p);
	if (gwm::u8(p, 1) & 128)
		return;
	B body = p.substr(2);
	size_t n = body.size();
	for (size_t l = 0; l < n; l++)
		add(v::fmt("first %zu bytes of the body", l), p.substr(0, 1) + len(l) + body.substr(0, l));
	for (int x : { 1, 2, 200 })
		add(v::fmt("%d bytes more", x), p.substr(0, 1) + len(n + x) + body + B(x, 'x'));
	for (int f = 0; f < 256; f++)
		if (f != gwm::u8(p, 0) && (th || (f & 15) == (gwm::u8(p, 0) & 15) || (f >> 4) == gwm::u8(p, 0) >> 4))
			add(v::fmt("first byte %02x", f), w::b1(f) + p.substr(1));
	std::set<size_t> ls;
	for (size_t l = 0; l < n + 6; l++)
		ls.insert(l);
	for (size_t l : { 127, 128, 255, 256, 1024, 16383, 16384, 65535, 65536, 2097151 })
		ls.insert(l);
	for (size_t l : ls)
		if (l != n)
			add(v::fmt("length %zu", l), p.substr(0, 1) + len(l) + body);
	add("length in two bytes", p.substr(0, 1) + w::b1(n | 128) + w::b1(0) + body);
	add("length in three bytes", p.substr(0, 1) + w::b1(n | 128) + w::b1(128) + w::b1(0) + body);
	add("length in four bytes", p.substr(0, 1) + w::b1(n | 128) + w::b1(128) + w::b1(128) + w::b1(0) + body);
	add("length which does not end", p.substr(0, 1) + B(8, '\xff') + body);
	for (size_t i = 2; i < p.size(); i++)
	{
		std::set<int> vs = { 0, 1, 2, 3, 4, 0x7f, 0x80, 0xff, gwm::u8(p, i) ^ 1, gwm::u8(p, i) ^ 0x80 };
		if (th)
			for (int b = 0; b < 256; b++)
				vs.insert(b);
		for (int x : vs)
			if (x != gwm::u8(p, i))
			{
				B c = p;
				c[i] = x;
				add(v::fmt("byte %zu %02x", i, x), c);
			}
	}
}
static std::vector<std::pair<std::string, B>> mqPackets()
{
	std::vector<std::pair<std::string, B>> r = {
		{ "CONNACK 0", mq::connack(0) }, { "CONNACK 5", mq::connack(5) }, { "PUBLISH short q0", mq::publish(0, 0, 0, "ab", 0, "x") }, { "PUBLISH known q1", mq::publish(1, 1, 1, "n/a", 5, "xy") },
		{ "PUBLISH new q2", mq::publish(0, 2, 0, "n/new", 6, "") }, { "PUBLISH unwanted q1", mq::publish(0, 1, 0, "q/q", 7, "z") }, { "PUBLISH topic of one character", mq::publish(0, 1, 0, "a", 7, "z") },
		{ "PUBACK", mq::ack(mq::PUBACK, 2) }, { "PUBREC", mq::ack(mq::PUBREC, 2) }, { "PUBREL", mq::ack(mq::PUBREL, 5) }, { "PUBCOMP", mq::ack(mq::PUBCOMP, 2) },
		{ "SUBACK", mq::suback(4, 1) }, { "SUBACK refused", mq::suback(4, 0x80) }, { "UNSUBACK", mq::unsuback(4) }, { "PINGRESP", mq::pingresp() }, { "DISCONNECT", mq::disconnect() },
	};
	for (int t = 0; t < 16; t++)
		for (int n : { 0, 1, 2, 3, 4, 5, 20 })
			r.push_back({ v::fmt("type %d with %d bytes", t, n), mq::pk(t, t == 3 ? 2 : 0, B("\0\3ab/cdefghijklmnopqrst", n)) });
	for (int q = 0; q < 3; q++)
		for (int n : { 119, 120, 121, 122, 123, 124, 125, 240, 247, 248, 249, 250, 251, 1014, 1015, 1016, 1017, 1020, 1030, 16370, 16380, 16390, 65526, 65527, 65536, 65540, 131080 })
			for (const char* t : { "ab", "n/a", "n/new" })
				r.push_back({ v::fmt("PUBLISH q%d %s of %d bytes", q, t, n), mq::publish(0, q, 0, t, q ? 9 : 0, lots(n)) });
	for (int n : { 2, 3, 246, 247, 248, 249, 250, 1000, 1015, 1016, 1017, 1018, 1020, 2000, 20000 })
	{
		r.push_back({ v::fmt("PUBLISH topic of %d", n), mq::publish(0, 1, 0, "n/" + B(n - 2, 't'), 9, "x") });
		r.push_back({ v::fmt("PUBLISH topic of %d, another", n), mq::publish(0, 1, 0, B(n, 't'), 9, lots(1000)) });
	}
	return r;
}
static Scns g13()
{
	Scns r;
	bool th = v::thorough();
	std::vector<Ev> bystander = { dg("CONNECT d2", Bb, w::connect("d2", 1, 0, 60)), br("CONNACK", "d2", mq::connack(0)) };
	Ev con = dg("CONNECT c1", A, w::connect("c1", 1, 0, 60)), ack = br("CONNACK", "c1", mq::connack(0));
	Ev reg = dg("REGISTER", A, w::reg(0, 1, "n/a")), pub = dg("PUBLISH", A, w::publish(0, 1, 0, w::SHORT, "ab", 2, "p"));
	Ev sub = dg("SUBSCRIBE n/#", A, w::subscribe(0, 1, 3, w::NORMAL, "n/#")), suba = br("SUBACK", "c1", mq::suback(3, 1)), sub2 = dg("SUBSCRIBE s/#", A, w::subscribe(0, 1, 4, w::NORMAL, "s/#"));
	Ev sleep = dg("DISCONNECT 10", A, w::disconnect(10)), ping = dg("PINGREQ", A, w::pingreq());
	Ev msg = br("message", "c1", mq::publish(0, 1, 0, "n/a", 5, "m")), msg2 = br("message n/b", "c1", mq::publish(0, 0, 0, "n/b", 0, "m"));
	std::vector<Ev> served = { br("message for the bystander", "d2", mq::publish(0, 0, 0, "ok", 0, "by")), br("message for c1", "c1", mq::publish(0, 1, 0, "ok", 8, "x")), dg("PUBLISH of c1", A, w::publish(0, 1, 0, w::SHORT, "ok", 77, "by")) };

	// every cut of streams of whole packets
	struct
	{
		const char* name;
		std::vector<Ev> pre;
		B data;
		int quick, thorough;
	} streams[] = {
		{ "cuts: CONNACK and messages", { con }, mq::connack(0) + mq::publish(0, 1, 1, "ab", 5, "xyz") + mq::pingresp(), 2, 4 },
		{ "cuts: acknowledgements", { con, ack, reg, pub, sub, sub2 }, mq::ack(mq::PUBACK, 2) + mq::suback(3, 1) + mq::suback(4, 0x80) + mq::unsuback(9) + mq::ack(mq::PUBREL, 6), 2, 3 },
		{ "cuts: messages", { con, ack, reg, sub, suba }, mq::publish(0, 2, 0, "n/a", 0x0d0a, B("\0\r\n0\x82\x80", 6)) + mq::publish(1, 0, 0, "n/new", 0, "") + mq::publish(0, 0, 0, "ab", 0, "q"), 2, 3 },
		{ "cuts: length of two bytes", { con, ack, reg, sub, suba }, mq::publish(0, 1, 0, "n/a", 7, lots(122)) + mq::publish(0, 1, 0, "ab", 8, "z"), 1, 2 },
		{ "cuts: length of three bytes", { con, ack, reg, sub, suba }, mq::publish(0, 1, 0, "n/a", 7, lots(16500)) + mq::publish(0, 1, 0, "ab", 8, "z"), 1, 2 },
		{ "cuts: for a sleeping client", { con, ack, reg, sub, suba, sleep }, mq::publish(0, 2, 0, "n/a", 7, "m") + mq::ack(mq::PUBREL, 7) + mq::publish(0, 1, 0, "n/b", 8, "n"), 2, 3 },
		{ "cuts: the last packet is damaged", { con, ack, reg, sub, suba }, mq::pingresp() + mq::publish(0, 1, 0, "n/a", 7, "m") + mq::pk(mq::SUBACK, 0, "ab"), 2, 3 },
	};
	for (auto& x : streams)
	{
		Scn s = scn(x.name);
		s.prefix = bystander;
		s.prefix.insert(s.prefix.end(), x.pre.begin(), x.pre.end());
		B data = x.data;
		int cuts = th ? x.thorough : x.quick;
		s.body = [=]() { pieces("c1", data, 0, cuts, served); };
		r.push_back(s);
		// at once, but read in small portions
		s.name = "portions" + s.name.substr(4);
		s.body = [=]() {
			for (size_t k = 1; k <= 64 && k <= data.size() + 1; k++)
			{
				if (ex::replaying && (ex::preset.empty() || ex::preset[0] != (int) k))
					continue;
				auto go = [&](int) {
					vos::recvCap = k;
					tryStep(raw(v::fmt("all, read %zu bytes at a time", k), "c1", data));
					for (auto& e : served)
						tryStep(e);
					ex::S->histories++;
				};
				if (ex::replaying)
				{
					ex::trace.push_back(k);
					go(k);
				}
				else
					ex::branch(k, go);
			}
		};
		r.push_back(s);
	}
	// two connections whose bytes arrive in turns
	{
		Scn s = scn("bytes of two connections in turns");
		s.prefix = bystander;
		for (auto& e : { con, ack })
			s.prefix.push_back(e);
		B p = mq::publish(0, 0, 0, "ab", 0, "x") , q = mq::publish(0, 0, 0, "cd", 0, "y");
		auto next = [](const char* id, B data, size_t n) {
			return brf(v::fmt("%zu bytes", n), id, [=](Model& m, Client& c) {
				if (vos::conn(c.conn)->fin)
					return B();
				size_t pos = c.rx.size();
				for (auto& l : m.late)
					if (l.conn == c.conn)
						pos = (pos + l.data.size()) % data.size();
				return data.substr(pos, n);
			});
		};
		for (size_t n : { (size_t) 1, (size_t) 3, (size_t) 7 })
		{
			s.alpha.push_back(next("c1", p, n));
			s.alpha.push_back(next("d2", q, n));
		}
		s.alpha.push_back(fault("broker closes c1", "c1", Stim::CLOSE));
		s.alpha.push_back(dg("PUBLISH of the bystander", Bb, w::publish(0, 1, 0, w::SHORT, "ok", 77, "by")));
		s.depth = th ? 6 : 3;
		s.deep = th ? 9 : 6;
		r.push_back(s);
	}
	// damaged packets
	std::vector<Ev> after = served;
	for (auto& e : { fault("broker closes c1", "c1", Stim::CLOSE), br("message for the bystander", "d2", mq::publish(0, 1, 0, "ok", 9, "by")), dg("PUBLISH of the bystander", Bb, w::publish(0, 1, 0, w::SHORT, "ok", 77, "by")),
		br("PUBACK", "d2", mq::ack(mq::PUBACK, 77)), ping, con, ack, br("message for c1", "c1", mq::publish(0, 0, 0, "ok", 0, "x")) })
		after.push_back(e);
	struct
	{
		const char* name;
		std::vector<Ev> pre;
		bool fwd;
	} st[] = {
		{ "damaged: while connecting", { con }, false },
		{ "damaged: for an active client", { con, ack, reg, pub, sub, suba, sub2 }, false },
		{ "damaged: for a sleeping client", { con, ack, reg, pub, sub, suba, sub2, sleep, msg }, false },
		{ "damaged: for a client awake", { con, ack, reg, sub, suba, sleep, msg2, ping }, false },
		{ "damaged: while a topic is registered", { con, ack, reg, sub, suba, msg2 }, false },
		{ "damaged: through a forwarder", { con, ack, reg, pub, sub, suba, sub2 }, true },
	};
	for (auto& x : st)
	{
		Scn s = scn(x.name);
		s.prefix = bystander;
		bool fwd = x.fwd;
		if (fwd)
			forwarders(s, 1);
		for (auto& e : x.pre)
			s.prefix.push_back(fwd ? via(F1, "\x07", e) : e);
		s.body = [=]() {
			std::vector<std::pair<std::string, B>> ps;
			for (auto& p : mqPackets())
				if (p.second.size() < 40 && p.first.compare(0, 4, "type"))
					mqDamaged(ps, p.first, p.second, th);
				else
					ps.push_back(p);
			std::vector<Ev> items;
			for (auto& p : ps)
				items.push_back(raw(p.first, "c1", p.second));
			std::vector<Ev> aft;
			for (auto& e : after)
				aft.push_back(fwd && (e.name == ping.name || e.name == con.name || e.name == "PUBLISH of c1") ? via(F1, "\x07", e) : e);
			corpus(items, aft);
		};
		r.push_back(s);
	}
	return r;
}
