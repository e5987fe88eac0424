// X05: the Bluetooth RFCOMM driver.  Devices connect to the channels of the gateway and send packets.
#include "net.h"
#include <bluetooth/bluetooth.h>
#include <bluetooth/rfcomm.h>
using MQTTSNGW::SensorNetAddress;
static const char* OWN = "60:57:18:06:8B:72";
static const char* DEV[] = { "00:11:22:33:44:55", "00:11:22:33:44:56", "AA:BB:CC:DD:EE:FF" };
static B packet(int serial, size_t len = 0)		// a well formed PUBLISH with a number in it
{
	B p = B("\x0c\x00\x00\x01\x00\x00", 6) + v::fmt("%d", serial);
	while (p.size() + 1 < len)
		p += (char) (p.size() * 7 + serial);
	if (p.size() + 1 < 256)
		return B(1, (char) (p.size() + 1)) + p;
	size_t n = p.size() + 3;
	if (len)
	{
		p.resize(len - 3);
		n = len;
	}
	return B("\x01", 1) + (char) (n >> 8) + (char) n + p;
}
struct Link
{
	int dev, chan;
	vos::SockP s;
	bool accepted = false, over = false;
	SensorNetAddress addr;		// with which its last packet was handed over
	bool haveAddr = false;
};
typedef std::shared_ptr<Link> LinkP;
static std::map<int, std::deque<LinkP>> channels;		// first: the one which is connected
static int serial, connections;
static vos::SockP listener(int chan)
{
	for (auto& s : vos::sockets())
		if (s->listening && s->open && s->family == AF_BLUETOOTH && s->local.size() >= sizeof(sockaddr_rc) && ((const sockaddr_rc*) s->local.data())->rc_channel == chan)
			return s;
	return nullptr;
}
static LinkP first(int chan)
{
	auto& q = channels[chan];
	return q.empty() ? LinkP() : q.front();
}
static void readFor(int64_t us = 3000000)
{
	vos::advance(us);
}
// packets which must have been read, in any order between the channels
static void expect(std::vector<std::pair<LinkP, B>> due, const char* what)
{
	readFor();
	while (!got.empty())
	{
		Got g = got.front();
		got.pop_front();
		size_t i = 0;
		while (i < due.size() && due[i].second != g.data)
			i++;
		if (i == due.size())
			ex::violation(B("handed over after ") + what + ": " + hex(g.data));
		for (size_t k = 0; k < i; k++)
			if (due[k].first == due[i].first)
				ex::violation("packets of one device are handed over in another order");
		char t[64];
		B want = B(DEV[due[i].first->dev]) + v::fmt(".%d", due[i].first->chan);
		if (g.from.sprint(t) != want)
			ex::violation("a packet of " + want + " is handed over as one of " + t);
		due[i].first->addr = g.from;
		due[i].first->haveAddr = true;
		due.erase(due.begin() + i);
	}
	if (!due.empty())
		ex::violation(v::fmt("%zu packets are not handed over after ", due.size()) + what);
}
// what each connection was sent since the last call
static std::map<int, B> sentTo()
{
	std::map<int, B> r;
	for (auto& o : vos::outs)
		if (o.kind == vos::Out::DATA)
			r[o.conn] += o.data;
	vos::outs.clear();
	return r;
}
static int uni(SensorNetAddress* a, const B& data)
{
	sentTo();
	Exact e(data);
	auto c = call([&]() { return net->unicast(e.p, e.n, a); });
	vos::quiesce();
	if (!c->done())
		ex::violation("unicast() does not return");
	return c->rc;
}
static void answer(LinkP l)
{
	B d = v::fmt("answer %d", serial++);
	int rc = uni(&l->addr, d);
	auto s = sentTo();
	LinkP now = first(l->chan);		// perhaps a later connection of the same device
	bool up = now && !now->over && now->dev == l->dev;
	if (!up && (!s.empty() || rc >= 0))
		ex::violation(B("a packet for ") + DEV[l->dev] + v::fmt(".%d", l->chan) + ", which is not connected any more" + (s.empty() ? ", counts as sent" : ", is sent to another device"));
	if (up && (s.size() != 1 || s.begin()->first != now->s->conn || s.begin()->second != d))
		ex::violation(B("a packet for ") + DEV[l->dev] + v::fmt(".%d", l->chan) + (s.empty() ? " is not sent" : " goes to another device or is altered"));
	if (up && rc < 0)
		ex::violation("unicast() reports a failure");
}
static LinkP dial(int dev, int chan)
{
	vos::SockP ls = listener(chan);
	if (!ls)
		ex::violation(v::fmt("the gateway does not listen on channel %d", chan));
	auto l = std::make_shared<Link>();
	l->dev = dev;
	l->chan = chan;
	l->s = std::make_shared<vos::Sock>();
	l->s->tcp = l->s->connected = true;
	l->s->family = AF_BLUETOOTH;
	l->s->conn = 1000 + connections++;
	sockaddr_rc a;
	memset(&a, 0, sizeof a);
	a.rc_family = AF_BLUETOOTH;
	a.rc_channel = chan;
	str2ba(DEV[dev], &a.rc_bdaddr);
	ls->pending.push_back({ l->s, B((const char*) &a, sizeof a) });
	channels[chan].push_back(l);
	return l;
}
static void hangUp(LinkP l, bool rst)
{
	(rst ? l->s->rst : l->s->fin) = true;
	l->over = true;
	readFor();
	if (l->s->open)
		ex::violation("a connection which has ended is not closed");
	auto& q = channels[l->chan];
	q.pop_front();
	readFor(1000000);
}
static std::vector<LinkP> known;		// links whose address the gateway has

struct Op
{
	B name;
	std::function<void()> f;
};
static std::vector<Op> ops(bool th)
{
	std::vector<Op> o;
	static const int CH[] = { 1, 2, 30 };
	for (int c : CH)
	{
		for (int d = 0; d < (c == 1 ? 2 : 1) + th; d++)
			o.push_back({ v::fmt("device %d connects to channel %d", d, c), [=]() {
				dial(d, c);
				readFor(1000000);
			} });
		o.push_back({ v::fmt("packet on channel %d", c), [=]() {
			if (LinkP l = first(c))
			{
				B p = packet(serial++);
				l->s->rx += p;
				expect({ { l, p } }, "one packet");
				known.push_back(l);
				answer(l);
			}
		} });
		if (c != 30)
			for (int rst = 0; rst < 2; rst++)
				o.push_back({ v::fmt(rst ? "channel %d is reset" : "channel %d is hung up", c), [=]() {
					if (LinkP l = first(c))
						hangUp(l, rst);
				} });
	}
	o.push_back({ "a packet on every channel at once", [=]() {
		std::vector<std::pair<LinkP, B>> due;
		for (int c : CH)
			if (LinkP l = first(c))
			{
				B p = packet(serial++);
				l->s->rx += p;
				due.push_back({ l, p });
			}
		expect(due, "packets on several channels");
	} });
	o.push_back({ "a device connects and sends at once, another one sends", [=]() {
		std::vector<std::pair<LinkP, B>> due;
		LinkP a = first(2);
		dial(2, 1);
		for (LinkP l : { a, first(1) })
			if (l)
			{
				B p = packet(serial++);
				l->s->rx += p;
				due.push_back({ l, p });
			}
		expect(due, "packets");
	} });
	o.push_back({ "three packets together on channel 1", [=]() {
		if (LinkP l = first(1))
		{
			std::vector<std::pair<LinkP, B>> due;
			for (int i = 0; i < 3; i++)
			{
				B p = packet(serial++, i == 1 ? 300 : 0);
				l->s->rx += p;
				due.push_back({ l, p });
			}
			expect(due, "several packets together");
		}
	} });
	o.push_back({ "a packet in two parts on channel 1, one on channel 2 between them", [=]() {
		LinkP l = first(1), k = first(2);
		B p = packet(serial++, 300), q = packet(serial++);
		if (l)
			l->s->rx += p.substr(0, 120);
		readFor(1500000);
		if (k)
		{
			k->s->rx += q;
			expect({ { k, q } }, "a packet while another one is incomplete");
		}
		if (l)
		{
			l->s->rx += p.substr(120);
			expect({ { l, p } }, "the rest of a packet");
			answer(l);
		}
	} });
	o.push_back({ "half a packet on channel 2, then it is hung up", [=]() {
		if (LinkP l = first(2))
		{
			l->s->rx += packet(serial++).substr(0, 5);
			readFor(1500000);
			hangUp(l, false);
			expect({}, "half a packet");
		}
	} });
	o.push_back({ "answers to all devices which have sent something", [=]() {
		for (auto& l : known)
			answer(l);
	} });
	o.push_back({ "broadcast", [=]() {
		sentTo();
		B d = v::fmt("news %d", serial++);
		Exact e(d);
		auto c = call([&]() { return net->broadcast(e.p, e.n); });
		vos::quiesce();
		auto s = sentTo();
		if (!c->done())
			ex::violation("broadcast() does not return");
		for (auto& ch : channels)
			if (!ch.second.empty())
			{
				int n = ch.second.front()->s->conn;
				if (s[n] != d)
					ex::violation(v::fmt("the device on channel %d does not get a broadcast", ch.first));
				s.erase(n);
			}
		if (!s.empty())
			ex::violation("a broadcast is sent to a device which is not connected");
	} });
	o.push_back({ "broadcast to a device which has just gone", [=]() {
		LinkP l = first(1);
		if (!l)
			return;
		l->s->rst = true;
		sentTo();
		Exact e("x");
		auto c = call([&]() { return net->broadcast(e.p, e.n); });
		vos::quiesce();
		sentTo();
		hangUp(l, true);
	} });
	o.push_back({ "ten seconds", [=]() {
		long r = readCalls;
		readFor(10000000);
		if (readCalls - r > 40)
			ex::violation("read() does not wait for data");
		expect({}, "ten seconds");
	} });
	return o;
}
static B conf() { return v::fmt("RFCOMMAddress=%s.*\n", OWN); }
static void ownDir()
{
	gw::scratch += v::fmt("/%d", (int) getpid());
	mkdir(gw::scratch.c_str(), 0777);
}
static Scns x05()
{
	Scns r;
	bool th = v::thorough();
	Scn s;
	s.plain = true;
	int depth = th ? 4 : 3;
	size_t n = ops(th).size();
	for (size_t k = 0; k < 2 * n; k++)
	{
		size_t first = k / 2;
		bool busy = k & 1;
		s.name = "sequences, first " + v::fmt("%zu", first) + (busy ? ", busy" : "");
		s.bounds = v::fmt("all sequences of %d of %zu steps", depth, n) + (busy ? ", after devices have connected to two channels and sent packets, and another one waits" : "") + ", which begin with: " + ops(th)[first].name;
		s.body = [=]() {
			openNet(conf());
			startReader();
			auto o = ops(th);
			if (busy)
			{
				for (int c : { 1, 2 })
				{
					LinkP l = dial(c - 1, c);
					B p = packet(serial++);
					l->s->rx += p;
					expect({ { l, p } }, "a packet");
					known.push_back(l);
				}
				dial(2, 1);
				readFor(1000000);
			}
			std::function<void(int)> go = [&](int level) {
				if (level == depth)
				{
					ex::S->histories++;
					return;
				}
				auto one = [&](int i) {
					step(o[i].name);
					o[i].f();
					go(level + 1);
				};
				if (level == 0)
				{
					one(first);
					return;
				}
				if (ex::replaying)
				{
					if (ex::trace.size() < ex::preset.size())
					{
						int i = ex::preset[ex::trace.size()];
						ex::trace.push_back(i);
						one(i);
					}
					return;
				}
				for (size_t i = 0; i < o.size() && !ex::over(); i++)
					ex::branch(i, one);
			};
			go(0);
		};
		r.push_back(s);
	}
	s.name = "payloads";
	s.bounds = "every length from 2 to 1024 in both directions, on every channel, cut at every place";
	s.body = [=]() {
		openNet(conf());
		startReader();
		for (int c = 1; c <= 30; c++)
		{
			step(v::fmt("channel %d", c));
			LinkP l = dial(c % 3, c);
			B p = packet(serial++);
			l->s->rx += p;
			expect({ { l, p } }, "a packet");
			answer(l);
		}
		for (int len = 9; len <= 1024; len++)
		{
			if (len > 255 && len < 258)
				continue;
			step(v::fmt("packet of %d bytes", len));
			LinkP l = first(1 + len % 30);
			B p = packet(len, len), q = packet(-len);
			l->s->rx += p + q;
			expect({ { l, p }, { l, q } }, "two packets");
			int cut = len % (p.size() - 1) + 1;
			l->s->rx += p.substr(0, cut);
			readFor(1100000);
			l->s->rx += p.substr(cut) + q;
			expect({ { l, p }, { l, q } }, "two packets in other parts");
			int rc = uni(&l->addr, p);
			auto s = sentTo();
			if (rc < 0 || s.size() != 1 || s[l->s->conn] != p)
				ex::violation("the packet is not sent");
		}
		for (int size : { 2, 3, 7, 300, 301 })
			for (int cut = 1; cut < size; cut++)
			{
				LinkP l = first(1 + cut % 30);
				B p = size < 9 ? B(1, (char) size) + B(size - 1, '\x16') : packet(serial++, size);
				step(v::fmt("packet of %d bytes, %d first", size, cut));
				l->s->rx += p.substr(0, cut);
				readFor(1100000);
				l->s->rx += p.substr(cut);
				expect({ { l, p } }, "its rest");
			}
		ex::S->histories++;
	};
	r.push_back(s);
	s.name = "rubbish";
	s.bounds = "all strings of up to 3 (thorough: 4) of 9 bytes, then the device connects again; memory, other devices";
	s.body = [=]() {
		openNet(conf());
		startReader();
		static const unsigned char ab[] = { 0, 1, 2, 3, 4, 5, 0x16, 0x7f, 0xff };
		int n = sizeof ab, total = 0, max = th ? 4 : 3;
		dial(1, 2);
		for (int len = 1; len <= max; len++)
		{
			int count = 1;
			for (int i = 0; i < len; i++)
				count *= n;
			for (int k = 0; k < count; k++)
			{
				B d;
				for (int i = 0, x = k; i < len; i++, x /= n)
					d += (char) ab[x % n];
				for (int tail : { 0, 1500 })
				{
					step("rubbish " + hex(d) + v::fmt(" and %d bytes", tail));
					LinkP l = dial(0, 1);
					l->s->rx += d + B(tail, '\xff');
					readFor(2000000);
					got.clear();
					LinkP o = first(2);
					B p = packet(serial++);
					o->s->rx += p;
					readFor();
					bool found = false;
					for (auto& g : got)
						found |= g.data == p;
					if (!found)
						ex::violation("a packet of another device is not handed over");
					got.clear();
					l->over = true;
					if (l->s->open)
						l->s->fin = true;
					readFor(4000000);
					if (l->s->open)
						ex::violation("a connection which has ended is not closed");
					channels[1].clear();
					got.clear();
					l = dial(0, 1);
					p = packet(serial++);
					l->s->rx += p;
					expect({ { l, p } }, "rubbish of an earlier connection");
					hangUp(l, false);
					total++;
				}
			}
		}
		ex::S->histories += total;
	};
	r.push_back(s);
	s.name = "opening";
	s.bounds = "own addresses; socket and bind fail for one, some or all channels";
	s.body = [=]() {
		for (const char* callName : { "", "socket", "bind" })
			for (int k = 0; k < 33; k++)
				ex::branch(-1, [&](int) {
					int fails = k < 30 ? 1 << 30 : 0;
					step(B("opening ") + (*callName ? B(callName) + (k < 30 ? v::fmt(" number %d fails", k + 1) : k == 30 ? B(" always fails") : k == 31 ? B(" fails from the second on") : B(" fails all but the last time")) : B()));
					static int count, failed;
					count = failed = 0;
					vos::faulter = [=](const char* c) {
						if (strcmp(c, callName))
							return 0;
						count++;
						bool f = k < 30 ? count == k + 1 : k == 30 ? true : k == 31 ? count > 1 : count < 30;
						failed += f;
						return f ? EADDRINUSE : 0;
					};
					ownDir();
					if (chdir(gw::scratch.c_str()))
						_exit(2);
					gw::put("gateway.conf", conf());
					auto* p = new Conf();
					MQTTSNGW::theProcess = p;
					static int state;
					state = 0;
					vos::spawn("main", [p]() {
						p->initialize(3, gw::argv());
						auto* x = new MQTTSNGW::SensorNetwork();
						try
						{
							x->initialize();
							state = 1;
							net = x;
						}
						catch (std::exception&)
						{
							state = 2;
							delete x;
						}
					});
					vos::quiesce();
					vos::faulter = nullptr;
					if (state == 0)
						ex::violation("initialize() neither returns nor throws");
					if (state == 2 && !failed)
						ex::violation("initialize() throws though nothing failed");
					if (state == 1)
					{
						if (failed >= 30)
							ex::violation("no channel can be used, but initialize() does not say so");
						startReader();
						int up = 0;
						for (int c = 1; c <= 30; c++)
							if (listener(c))
							{
								bdaddr_t own;
								str2ba(OWN, &own);
								if (bacmp(&((const sockaddr_rc*) listener(c)->local.data())->rc_bdaddr, &own))
									ex::violation("the gateway listens with another address");
								up++;
								LinkP l = dial(0, c);
								B p = packet(serial++);
								l->s->rx += p;
								expect({ { l, p } }, "a packet");
								answer(l);
							}
						if (up != 30 - failed)
							ex::violation(v::fmt("%d channels can be used, not %d", up, 30 - failed));
						long r = readCalls;
						readFor(10000000);
						if (readCalls - r > 40)
							ex::violation("read() does not wait for data");
					}
					ex::S->histories++;
				});
	};
	r.push_back(s);
	s.name = "addresses";
	s.bounds = "texts of addresses, all pairs of them, as unicast addresses without a connection";
	s.body = [=]() {
		openNet(conf());
		startReader();
		std::vector<std::pair<SensorNetAddress, B>> all;
		for (const char* dev : DEV)
			for (const char* ch : { "*", "1", "2", "9", "10", "29", "30", "31", "32", "100", "255", "256", "257", "65535", "65536", "65537", "65566", "-1", "-30", "99999999" })
			{
				B t = B(dev) + "." + ch;
				step("address " + t);
				SensorNetAddress a;
				int rc = a.setAddress(&t), n = atoi(ch);
				bool ok = *ch == '*' || (n >= 1 && n <= 30);
				if ((rc == 0) != ok)
					ex::violation("the address " + t + (rc == 0 ? " is accepted" : " is refused"));
				if (rc)
					continue;
				char buf[64];
				B shown = *ch == '*' ? B(dev) + ".0" : t;
				if (a.sprint(buf) != shown)
					ex::violation("the address " + t + " is shown as " + buf);
				all.push_back({ a, t });
			}
		for (B t : { B(""), B("."), B("x"), B(".1"), B("00:11:22:33:44:55"), B("00:11:22:33:44.1"), B("00:11:22:33:44:5.1"), B("00:11:22:33:44:GG.1"), B("00-11-22-33-44-55.1"), B("0.1"), B("00:11:22:33:44:55:66.1"), B("00:00:00:00:00:00.1") })
		{
			step("address '" + t + "'");
			SensorNetAddress a;
			B c = t;
			if (a.setAddress(&c) == 0)
				ex::violation("the address '" + t + "' is accepted");
		}
		for (auto& x : all)
			for (auto& y : all)
			{
				ex::S->transitions++;
				if (x.first.isMatch(&y.first) != (x.second == y.second))
					ex::violation(x.second + " and " + y.second + (x.first.isMatch(&y.first) ? " are taken for the same" : " are taken for different ones"));
			}
		// nobody is connected
		for (auto& x : all)
		{
			step("packet for " + x.second + ", nobody is connected");
			int rc = uni(&x.first, "hello");
			if (rc >= 0 || !sentTo().empty())
				ex::violation("a packet for a device which is not connected counts as sent");
		}
		for (auto& x : all)
			if (x.second.back() != '*')
			{
				B t = x.second;
				int d = 0, c = atoi(t.c_str() + 18);
				while (t.compare(0, 17, DEV[d]))
					d++;
				LinkP l = dial(d, c);
				B p = packet(serial++);
				l->s->rx += p;
				expect({ { l, p } }, "a packet");
				for (auto& y : all)
				{
					ex::S->transitions++;
					if (l->addr.isMatch(&y.first) != (&x == &y))
						ex::violation("the sender " + t + " is taken for " + y.second);
					int rc = uni(&y.first, "hello");
					auto s = sentTo();
					if (&x == &y ? rc < 0 || s.size() != 1 || s.begin()->first != l->s->conn : rc >= 0 || !s.empty())
						ex::violation("while " + t + " is connected, a packet for " + y.second + (s.empty() ? " is not sent" : " is sent"));
				}
				answer(l);
				hangUp(l, false);
			}
		ex::S->histories++;
	};
	r.push_back(s);
	return r;
}
NET_MAIN({ "X05", x05 })
#include "main.h"
