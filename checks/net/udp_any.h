// X03: the UDP and UDP6 drivers.
#include "net.h"
#include <arpa/inet.h>
#include <sys/un.h>
using MQTTSNGW::SensorNetAddress;
#undef X
static const int UNI = 10000, MULTI = 1883;
#if V6
typedef sockaddr_in6 Sa;
static const char* GROUP = "ff1e:feed:caca:dead::feed";
static const char* OTHERGROUP = "ff03::1";
#else
typedef sockaddr_in Sa;
static const char* GROUP = "225.1.1.1";
static const char* OTHERGROUP = "239.255.255.250";
#endif
static Sa sa(const char* ip, int port, int scope = 0)
{
	Sa a;
	memset(&a, 0, sizeof a);
#if V6
	a.sin6_family = AF_INET6;
	a.sin6_port = htons(port);
	a.sin6_scope_id = scope;
	inet_pton(AF_INET6, ip, &a.sin6_addr);
#else
	a.sin_family = AF_INET;
	a.sin_port = htons(port);
	inet_pton(AF_INET, ip, &a.sin_addr);
#endif
	return a;
}
static int portOf(const Sa& a)
{
#if V6
	return ntohs(a.sin6_port);
#else
	return ntohs(a.sin_port);
#endif
}
static B show(const Sa& a)
{
	char s[64];
#if V6
	return B("[") + inet_ntop(AF_INET6, &a.sin6_addr, s, sizeof s) + "]:" + v::fmt("%d", portOf(a)) + (a.sin6_scope_id ? v::fmt(" scope %d", a.sin6_scope_id) : "");
#else
	return B(inet_ntop(AF_INET, &a.sin_addr, s, sizeof s)) + ":" + v::fmt("%d", portOf(a));
#endif
}
static B lots(int n)
{
	B s;
	for (int i = 0; i < n; i++)
		s += (char) (i * 31 + i / 256 + 5);
	return s;
}
static std::vector<Sa> peers()
{
#if V6
	return { sa("2001:db8::1", 5001), sa("2001:db8::1", 5002), sa("2001:db8::2", 5001), sa("fe80::1", 5001, 3), sa("::1", 256), sa("2001:db8:0:0:1::1", 5001) };
#else
	return { sa("10.0.0.1", 5001), sa("10.0.0.1", 5002), sa("10.0.0.2", 5001), sa("1.0.0.10", 5001), sa("192.168.255.254", 256), sa("10.0.0.1", 35091) };
#endif
}
static vos::SockP bound(int port)
{
	for (auto& s : vos::sockets())
		if (s->port == port && s->open)
			return s;
	return nullptr;
}
static void arrive(int port, const Sa& from, const B& data)
{
	vos::SockP s = bound(port);
	if (!s)
		ex::violation(v::fmt("no socket for port %d", port));
	vos::Sock::Dg d;
	d.ip = 0, d.port = 0;
	d.data = data;
	d.raw.assign((const char*) &from, sizeof from);
	s->dgrams.push_back(d);
}
struct Sent
{
	Sa to;
	B data;
	int from, ttl;
};
static std::vector<Sent> sent()
{
	std::vector<Sent> r;
	for (auto& o : vos::outs)
		if (o.kind == vos::Out::DGRAM)
		{
			Sent s;
			memset(&s.to, 0, sizeof s.to);
#if V6
			memcpy(&s.to, o.raw.data(), std::min(o.raw.size(), sizeof s.to));
#else
			s.to.sin_family = AF_INET;
			s.to.sin_addr.s_addr = o.ip;
			s.to.sin_port = o.port;
#endif
			s.data = o.data;
			s.from = o.from;
			s.ttl = o.ttl;
			r.push_back(s);
		}
	vos::outs.clear();
	return r;
}
static B conf(const B& group = GROUP, int hops = 2, const B& extra = "")
{
#if V6
	return v::fmt("MulticastIPv6=%s\nMulticastIPv6PortNo=%d\nGatewayIPv6PortNo=%d\nMulticastHops=%d\n", group.c_str(), MULTI, UNI, hops) + extra;
#else
	return v::fmt("MulticastIP=%s\nMulticastPortNo=%d\nGatewayPortNo=%d\nMulticastTTL=%d\n", group.c_str(), MULTI, UNI, hops) + extra;
#endif
}
static void unicastTo(SensorNetAddress* a, const Sa& expected, const B& data)
{
	sent();
	Exact e(data);
	auto c = call([&]() { return net->unicast(e.p, e.n, a); });
	vos::quiesce();
	auto s = sent();
	if (!c->done())
		ex::violation("unicast() does not return");
	if (s.size() != 1 || memcmp(&s[0].to, &expected, sizeof expected) || s[0].data != data || s[0].from != UNI)
		ex::violation("unicast() to " + show(expected) + ": " + (s.empty() ? B("nothing was sent") : v::fmt("%zu sent, the first of %zu bytes from port %d to ", s.size(), s[0].data.size(), s[0].from) + show(s[0].to)));
	if (c->rc < 0)
		ex::violation("unicast() reports a failure");
}
static void broadcast(const B& data, const char* group = GROUP, int hops = 2)
{
	sent();
	Exact e(data);
	auto c = call([&]() { return net->broadcast(e.p, e.n); });
	vos::quiesce();
	auto s = sent();
	Sa g = sa(group, MULTI);
	if (s.size() != 1 || memcmp(&s[0].to, &g, sizeof g) || s[0].data != data)
		ex::violation("broadcast(): " + (s.empty() ? B("nothing was sent") : v::fmt("%zu sent, the first of %zu bytes to ", s.size(), s[0].data.size()) + show(s[0].to)));
	if (s[0].ttl != hops)
		ex::violation(v::fmt("broadcast() goes %d hops, not %d", s[0].ttl, hops));
	if (c->rc < 0)
		ex::violation("broadcast() reports a failure");
}
// everything which arrived was read, in order for each socket
static std::deque<std::pair<Sa, B>> due[2];
static SensorNetAddress last;
static Sa lastSa;
static bool haveLast;
static void readAll()
{
	vos::advance(3000000);
	while (!got.empty())
	{
		Got g = got.front();
		got.pop_front();
		bool found = false;
		for (int i = 0; i < 2 && !found; i++)
			if (!due[i].empty() && due[i].front().second == g.data)
			{
				Sa f = due[i].front().first;
				SensorNetAddress a;
				// the address says where an answer goes
				last = g.from;
				lastSa = f;
				haveLast = found = true;
				due[i].pop_front();
			}
		if (!found)
			ex::violation(v::fmt("%zu bytes were read which did not arrive, or not in this order: ", g.data.size()) + hex(g.data));
	}
	for (int i = 0; i < 2; i++)
		if (!due[i].empty())
			ex::violation(v::fmt("a datagram of %zu bytes is not read", due[i].front().second.size()));
}
static void runSteps(int depth, bool th)
{
	std::vector<Sa> ps = peers();
	struct Op
	{
		B name;
		std::function<void()> f;
	};
	static int serial;
	std::vector<Op> ops;
	for (int k = 0; k < 2; k++)
		for (size_t p = 0; p < ps.size(); p++)
		{
			if (k && p > 2)
				continue;
			ops.push_back({ "datagram to the " + B(k ? "multicast" : "unicast") + " port from " + show(ps[p]), [=]() {
				B d = v::fmt("%c%c", 3, 0x16) + v::fmt("%d", serial++);
				arrive(k ? MULTI : UNI, ps[p], d);
				due[k].push_back({ ps[p], d });
				readAll();
				unicastTo(&last, ps[p], "answer");
			} });
		}
	ops.push_back({ "three datagrams at once", [=]() {
		for (int i = 0; i < 3; i++)
		{
			B d = v::fmt("d%d", serial++);
			arrive(i == 1 ? MULTI : UNI, ps[i], d);
			due[i == 1].push_back({ ps[i], d });
		}
		readAll();
	} });
	ops.push_back({ "an empty datagram, and another one", [=]() {
		arrive(UNI, ps[1], "");
		B d = v::fmt("d%d", serial++);
		arrive(UNI, ps[0], d);
		due[0].push_back({ ps[0], d });
		readAll();
		unicastTo(&last, ps[0], "answer");
	} });
	ops.push_back({ "broadcast", [=]() { broadcast("news"); } });
	ops.push_back({ "answer to the last one", [=]() {
		if (haveLast)
			unicastTo(&last, lastSa, "answer");
	} });
	struct
	{
		const char* call;
		int err;
	} fails[] = { { "poll", EINTR }, { "recvfrom", EINTR }, { "recvfrom", ECONNREFUSED }, { "recvfrom", EAGAIN } };
	for (auto& f : fails)
		ops.push_back({ B("datagram, ") + f.call + v::fmt(" fails with %d first", f.err), [=]() {
			auto n = std::make_shared<int>(1);
			B call = f.call;
			int err = f.err;
			vos::faulter = [=](const char* c) { return c == call && *n > 0 ? (--*n, err) : 0; };
			B d = v::fmt("d%d", serial++);
			arrive(UNI, ps[2], d);
			due[0].push_back({ ps[2], d });
			readAll();
			vos::faulter = nullptr;
			unicastTo(&last, ps[2], "answer");
		} });
	ops.push_back({ "unicast which fails", [=]() {
		if (!haveLast)
			return;
		auto n = std::make_shared<int>(1);
		vos::faulter = [=](const char* c) { return !strcmp(c, "sendto") && *n > 0 ? (--*n, EHOSTUNREACH) : 0; };
		Exact e("x");
		auto c = call([&]() { return net->unicast(e.p, e.n, &last); });
		vos::quiesce();
		vos::faulter = nullptr;
		if (!c->done() || c->rc >= 0)
			ex::violation("unicast() of what could not be sent reports success");
		sent();
	} });
	ops.push_back({ "ten seconds", [=]() {
		long r = readCalls;
		vos::advance(10000000);
		readAll();
		if (readCalls - r > 8)
			ex::violation("read() does not wait for data");
	} });
	std::function<void(int)> go = [&](int level) {
		if (level == depth)
		{
			ex::S->histories++;
			return;
		}
		auto one = [&](int i) {
			step(ops[i].name);
			ops[i].f();
			go(level + 1);
		};
		if (ex::replaying)
		{
			if (ex::trace.size() < ex::preset.size())
			{
				int i = ex::preset[ex::trace.size()];
				ex::trace.push_back(i);
				one(i);
			}
			return;
		}
		for (size_t i = 0; i < ops.size() && !ex::over(); i++)
			ex::branch(i, one);
	};
	go(0);
}
// branches run at the same time: each has a directory of its own
static void ownDir()
{
	gw::scratch += v::fmt("/%d", (int) getpid());
	mkdir(gw::scratch.c_str(), 0777);
}
static Scns x03()
{
	Scns r;
	bool th = v::thorough();
	Scn s;
	s.plain = true;
	const B V = V6 ? "UDP6: " : "UDP: ";
	s.name = V + "sequences";
	s.bounds = v::fmt("all sequences of %d of 18 steps: datagrams, bursts, failing calls, answers, broadcasts", th ? 4 : 3);
	s.body = [=]() {
		openNet(conf());
		startReader();
		runSteps(th ? 4 : 3, th);
	};
	r.push_back(s);
	s.name = V + "payloads";
	s.bounds = "every length from 1 to 1024 in both directions, four longer ones received";
	s.body = [=]() {
		openNet(conf());
		startReader();
		std::vector<Sa> ps = peers();
		for (int n = 1; n <= 1024; n++)
		{
			B d;
			for (int i = 0; i < n; i++)
				d += (char) (i * 7 + n);
			step(v::fmt("payload of %d bytes", n));
			arrive(n & 1 ? UNI : MULTI, ps[n % ps.size()], d);
			due[!(n & 1)].push_back({ ps[n % ps.size()], d });
			readAll();
			unicastTo(&last, ps[n % ps.size()], d);
			broadcast(d);
		}
		// longer ones than the gateway's buffer: what fits, and nothing is written beyond it
		for (int n : { 1025, 1500, 9000, 65507 })
		{
			step(v::fmt("payload of %d bytes", n));
			arrive(UNI, ps[0], lots(n));
			due[0].push_back({ ps[0], lots(n).substr(0, 1024) });
			readAll();
		}
		ex::S->histories++;
	};
	r.push_back(s);
	s.name = V + "groups and hops";
	s.bounds = "two groups x six numbers of hops";
	s.body = [=]() {
		for (const char* g : { GROUP, OTHERGROUP })
			for (int h : { 0, 1, 2, 16, 64, 255 })
				ex::branch(-1, [&](int) {
					step(B("group ") + g + v::fmt(", %d hops", h));
					ownDir();
					openNet(conf(g, h));
					startReader();
					bool joined = false;
					for (auto& s : vos::sockets())
					{
						Sa a = sa(g, 0);
#if V6
						joined |= s->port == MULTI && s->group.compare(0, 16, (const char*) &a.sin6_addr, 16) == 0;
#else
						joined |= s->port == MULTI && s->group.compare(0, 4, (const char*) &a.sin_addr, 4) == 0;
#endif
					}
					if (!joined)
						ex::violation("the group is not joined with the multicast port");
					broadcast("news", g, h);
					arrive(MULTI, peers()[0], "search");
					due[1].push_back({ peers()[0], "search" });
					readAll();
					unicastTo(&last, peers()[0], "answer");
					ex::S->histories++;
				});
	};
	r.push_back(s);
	s.name = V + "opening fails";
	s.bounds = "every socket, bind and setsockopt fails, one at a time";
	s.body = [=]() {
		for (const char* callName : { "socket", "bind", "setsockopt" })
			for (int k = 0; k < 12; k++)
				ex::branch(-1, [&](int) {
					step(v::fmt("%s number %d fails", callName, k + 1));
					static int n, failed, opt;
					n = k;
					failed = 0;
					vos::faulter = [=](const char* c) {
						if (strcmp(c, callName) || n-- != 0)
							return 0;
						failed = 1;
						return EACCES;
					};
					ownDir();
					if (chdir(gw::scratch.c_str()))
						_exit(2);
					gw::put("gateway.conf", conf());
					auto* p = new Conf();
					MQTTSNGW::theProcess = p;
					static int state;
					state = 0;
					// memory is as it comes, not zero
					void* mem = malloc(sizeof(MQTTSNGW::SensorNetwork));
					memset(mem, 0x55, sizeof(MQTTSNGW::SensorNetwork));
					vos::spawn("main", [p, mem]() {
						p->initialize(3, gw::argv());
						auto* x = new (mem) MQTTSNGW::SensorNetwork();
						try
						{
							x->initialize();
							state = 1;
							net = x;
						}
						catch (std::exception& e)
						{
							state = 2;
							step(B("initialize() throws: ") + e.what());
							x->~SensorNetwork();
						}
					});
					vos::quiesce();
					vos::faulter = nullptr;
					if (state == 0)
						ex::violation("initialize() neither returns nor throws");
					if (!failed && state == 2)
						ex::violation("initialize() throws though nothing failed");
					if (state == 1)
					{
						// what it can do without may have failed, but then everything works
						startReader();
						for (int port : { UNI, MULTI })
						{
							arrive(port, peers()[0], "hello");
							due[port == MULTI].push_back({ peers()[0], "hello" });
							readAll();
							unicastTo(&last, peers()[0], "answer");
						}
						broadcast("news");
					}
					ex::S->histories++;
				});
	};
	r.push_back(s);
	s.name = V + "addresses";
	s.bounds = "texts of addresses, all pairs, senders differing in one bit";
	s.body = [=]() {
		openNet(conf());
		// as text: accepted if valid, and the same as the sender's
		struct T
		{
			const char* ip;
			bool ok;
		};
#if V6
		std::vector<T> ips = { { "2001:db8::1", true }, { "::1", true }, { "::", true }, { "fe80::1", true }, { "2001:db8:1:2:3:4:5:6", true }, { "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", true },
			{ "::ffff:10.0.0.1", true }, { "10.0.0.1", false }, { "", false }, { ":", false }, { "1", false }, { "2001:db8::1::2", false }, { "2001:db8::g", false }, { "12345::", false } };
#else
		std::vector<T> ips = { { "10.0.0.1", true }, { "1.2.3.4", true }, { "192.168.255.254", true }, { "0.0.0.1", true }, { "256.1.1.1", false }, { "", false }, { "x", false }, { "1.2.3.4.5", false }, { "10.0.0.-1", false } };
#endif
		std::vector<T> ports = { { "1", true }, { "80", true }, { "255", true }, { "256", true }, { "5001", true }, { "32768", true }, { "65535", true }, { "0", false }, { "", false }, { "x", false }, { "-1", false } };
		std::vector<std::pair<SensorNetAddress, Sa>> all;
		for (auto& i : ips)
			for (auto& p : ports)
			{
				std::string t = V6 ? B("[") + i.ip + "]:" + p.ip : B(i.ip) + ":" + p.ip;
				if (!V6 && !strcmp(p.ip, "-1"))
					continue;
				step("address " + t);
				SensorNetAddress a;
				int rc = a.setAddress(&t);
				if ((rc == 0) != (i.ok && p.ok))
					ex::violation("the address " + t + (rc == 0 ? " is accepted" : " is refused"));
				if (rc)
					continue;
				Sa e = sa(i.ip, atoi(p.ip));
				unicastTo(&a, e, "to a client of the list");
				char* buf = new char[64];
				B printed = a.sprint(buf);
				if (printed != show(e))
					ex::violation("the address " + t + " is shown as " + printed);
				delete[] buf;
				all.push_back({ a, e });
			}
		for (B t : { B(""), B("x"), B("10.0.0.1"), B("["), B("]"), B("[]"), B("[]:"), B(":"), B("[::1]"), B("::1"), B("5001") })
		{
			SensorNetAddress a;
			std::string s = t;
			step("address '" + t + "'");
			if (a.setAddress(&s) == 0 && t != "::1")
				ex::violation("the address '" + t + "' is accepted");
		}
		for (auto& x : all)
			for (auto& y : all)
			{
				ex::S->transitions++;
				if (x.first.isMatch(&y.first) != (memcmp(&x.second, &y.second, sizeof x.second) == 0))
					ex::violation(show(x.second) + " and " + show(y.second) + (x.first.isMatch(&y.first) ? " are taken for the same" : " are taken for different ones"));
			}
		// a sender is recognised as the client of the list; any bit makes another one
		startReader();
		for (auto& x : all)
		{
			B d = "from " + show(x.second);
			step(d);
			arrive(UNI, x.second, d);
			due[0].push_back({ x.second, d });
			readAll();
			if (!last.isMatch(&x.first))
				ex::violation("the sender " + show(x.second) + " is not recognised");
			for (size_t bit = 0; bit < 8 * sizeof(Sa); bit++)
			{
				Sa y = x.second;
				((unsigned char*) &y)[bit / 8] ^= 1 << bit % 8;
#if V6
				bool part = bit / 8 >= offsetof(sockaddr_in6, sin6_addr) && bit / 8 < offsetof(sockaddr_in6, sin6_addr) + 16;
				part |= bit / 8 >= offsetof(sockaddr_in6, sin6_port) && bit / 8 < offsetof(sockaddr_in6, sin6_port) + 2;
#else
				bool part = bit / 8 >= 2 && bit / 8 < 8;
#endif
				if (!part || (!th && all.size() > 20 && &x - &all[0] > 20))
					continue;
				ex::S->transitions++;
				got.clear();
				arrive(UNI, y, "other");
				vos::quiesce();
				if (got.size() != 1 || got[0].from.isMatch(const_cast<SensorNetAddress*>(&x.first)))
					ex::violation("the sender " + show(y) + " is taken for " + show(x.second));
				got.clear();
			}
		}
		ex::S->histories++;
	};
	r.push_back(s);
	return r;
}
NET_MAIN({ V6 ? "X04" : "X03", x03 })
#include "main.h"
