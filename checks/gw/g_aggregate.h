// G11: the aggregating gateway.  Its own small reference: clients share one broker connection; what is
// specified is who gets what, not which message ids the gateway uses on the shared connection, which
// are learned and must not be in use for something else.  Clients answer REGISTER at once.
namespace agg
{
static const int N = 3;
static const Addr ADDR[N] = { A, Bb, Cc };
static const char* ID[N] = { "c1", "c2", "c3" };
struct Cl
{
	bool known = false, active = false, asleep = false, waitTopic = false, waitMsg = false;
	bool clean = true;
	std::map<int, B> names;					// topic ids the client has been given
	std::map<int, B> predef;
	std::set<B> subs;
	std::vector<std::string> stored;
};
struct Req
{
	int client, mid;
	char kind;								// s u 1 2, and 3: QoS 2 which has been received, 4: released
	int tid;								// of SUBSCRIBE, PUBLISH: the topic id to be answered with; -1: whatever the client has for name
	B name;
	bool old = false;						// of a session which has ended: answered or not
};
struct World
{
	Cl c[N];
	std::map<int, Req> out;					// by message id on the shared connection
	std::set<int> brokerIn;					// ids of the broker's QoS 2 messages which it may release
	std::map<B, int> brokerSubs;			// what the broker was asked for and not asked to end
	int conn = -1, proxy = -1;				// the shared connection, the one of the QoS -1 proxy
	bool fwd[N] = {};						// reached through forwarder F1
	std::set<std::pair<int, int>> ended;	// QoS 2 publications of sessions which have ended, by client and message id
	std::set<B> topics;						// of the broker's publications
	std::string state() const
	{
		std::string s;
		for (auto& x : c)
		{
			s += v::fmt("|%d%d%d%d%d%d", x.known, x.active, x.asleep, x.waitTopic, x.waitMsg, x.clean);
			for (auto& n : x.names)
				s += v::fmt(",%d=", n.first) + n.second;
			for (auto& n : x.subs)
				s += "," + n;
			for (auto& n : x.stored)
				s += ";" + n;
		}
		for (auto& r : out)
			s += v::fmt("/%d,%d,%c%d", r.second.client, r.second.mid, r.second.kind, r.second.old);
		for (int b : brokerIn)
			s += v::fmt("b%d", b);
		return s;
	}
};
static World M;
static int mainFiber;

static void toGw(int c, const B& p)
{
	if (M.fwd[c])
		gw::datagram(F1, w::encap(ID[c], p));
	else
		gw::datagram(ADDR[c], p);
}
// whose datagram it is; takes the encapsulation off
static int whose(const Addr& a, B& p)
{
	for (int c = 0; c < N; c++)
		if (!M.fwd[c] && ADDR[c] == a)
			return c;
		else if (M.fwd[c] && a == F1 && p.size() > 5 && (unsigned char) p[1] == w::ENCAPS && p[0] == 5 && p.substr(3, 2) == ID[c])
		{
			p = p.substr(5);
			return c;
		}
	ex::violation("a datagram to " + gw::show(a) + ", who is nobody: " + w::showSn(p));
	return -1;
}

static bool matches(const B& f, const B& t)
{
	size_t i = 0, j = 0;
	while (true)
	{
		size_t a = f.find('/', i), b = t.find('/', j);
		B fl = f.substr(i, a == B::npos ? B::npos : a - i), tl = t.substr(j, b == B::npos ? B::npos : b - j);
		if (fl == "#")
			return true;
		if (fl != "+" && fl != tl)
			return false;
		if (a == B::npos || b == B::npos)
			return (a == B::npos && b == B::npos) || (b == B::npos && f.substr(a) == "/#");
		i = a + 1, j = b + 1;
	}
}
static int tid(int c, const B& name)
{
	for (auto& n : M.c[c].names)
		if (n.second == name)
			return n.first;
	return 0;
}
// what the gateway did in a step, in readable form: per client and for the broker
struct Got
{
	std::vector<std::string> cl[N], br;
	std::vector<B> brRaw;
};
static int u16(const B& b, size_t i) { return i + 1 < b.size() ? (unsigned char) b[i] << 8 | (unsigned char) b[i + 1] : -1; }
static std::string msg(const B& name, int qos, int retain, const B& data) { return "message " + name + v::fmt(" q%d r%d ", qos, retain) + data; }
static void take(Got& g)
{
	for (int round = 0; round < 20; round++)
	{
		gw::Seen s = gw::collect();
		bool more = false;
		for (auto& d : s.dg)
		{
			for (auto p : d.second)
			{
				int c = whose(d.first, p);
				size_t o = p.size() > 3 && p[0] == 1 ? 4 : 2;
				int type = p.size() >= o ? (unsigned char) p[o - 1] : -1;
				B b = p.size() >= o ? p.substr(o) : "";
				Cl& k = M.c[c];
				if (type == w::REGISTER)
				{
					int id = u16(b, 0);
					if (id <= 0 || id == 0xffff || k.names.count(id) || k.predef.count(id))
						ex::violation(v::fmt("REGISTER with topic id %d, which is no new one of ", id) + ID[c]);
					k.names[id] = b.substr(4);
					toGw(c, w::regack(id, u16(b, 2), 0));
					more = true;
				}
				else if (type == w::PUBLISH)
				{
					int f = (unsigned char) b[0], tt = f & 3, id = u16(b, 1), qos = f >> 5 & 3;
					// what comes before the SUBACK has the topic id the SUBACK will have
					if (tt == w::NORMAL && id > 0 && id < 0xffff && !k.names.count(id) && !k.predef.count(id))
						for (auto& q : M.out)
							if (q.second.client == c && q.second.kind == 's' && q.second.tid < 0 && M.topics.count(q.second.name))
								k.names[id] = q.second.name;
					B name = tt == w::SHORT ? b.substr(1, 2) : tt == w::PREDEF ? (k.predef.count(id) ? k.predef[id] : "?") : k.names.count(id) ? k.names[id] : "?";
					if (qos && u16(b, 3) == 0)
						ex::violation("a message without message id");
					g.cl[c].push_back(msg(name, qos, f >> 4 & 1, b.substr(5)));
				}
				else
					g.cl[c].push_back(w::showSn(p));
			}
		}
		for (auto& p : s.broker)
		{
			size_t i = p.find(':');
			if (p[0] == 'D' && p.substr(0, i) == v::fmt("D%d", M.proxy))
			{
				if (p.substr(i + 1) == mq::pingreq())
					gw::brokerSend(M.proxy, mq::pingresp());
				else
				{
					g.br.push_back("proxy " + w::showMq(p.substr(i + 1)));
					g.brRaw.push_back("");
				}
				continue;
			}
			if (p[0] != 'D' || p.substr(0, i) != v::fmt("D%d", M.conn))
			{
				g.br.push_back(gw::showBroker(p));
				g.brRaw.push_back("");
				continue;
			}
			B b = p.substr(i + 1);
			if (b == mq::pingreq())
			{
				gw::brokerSend(M.conn, mq::pingresp());
				continue;
			}
			g.br.push_back(w::showMq(b));
			g.brRaw.push_back(b);
		}
		if (!more)
			return;
		gw::settle();
	}
}

struct Op
{
	std::string name;
	// does it and fills in what is expected, false: not possible; learn looks at the packets for the broker
	std::function<bool(Got& want, std::function<void(Got&)>& learn)> run;
};
static std::string show(const Got& g)
{
	std::string s;
	for (int i = 0; i < N; i++)
		for (auto& x : g.cl[i])
			s += std::string(" ->") + ID[i] + " " + x;
	for (auto& x : g.br)
		s += " ->broker " + x;
	return s.empty() ? " nothing" : s;
}
static bool step(const Op& op)
{
	Got want, got;
	std::function<void(Got&)> learn;
	if (!op.run(want, learn))
		return false;
	ex::traceText.push_back(op.name);
	alarm(40);
	gw::settle();
	take(got);
	alarm(0);
	ex::traceText.back() += " =>" + show(got);
	if (ex::traceText.size() > 60)
		ex::traceText.erase(ex::traceText.begin() + 20);
	ex::S->transitions++;
	if (vos::fiberDone(mainFiber))
		ex::violation("the gateway ended after " + op.name);
	if (learn)
		learn(got);
	std::string e = show(want), g = show(got);
	if (e != g)
		ex::violation("after " + op.name + ": expected" + e + "; got" + g);
	ex::noteState(ex::hashStr(M.state()));
	return true;
}

// the request is relayed with an id which is not in use for another one
static void relayed(Got& got, Got& want, const Req& r, std::function<B(int)> packet)
{
	for (size_t i = 0; i < got.brRaw.size(); i++)
	{
		B& b = got.brRaw[i];
		if (b.empty())
			continue;
		int t = (unsigned char) b[0] >> 4, n = -1;
		size_t h = 2;
		while (h < b.size() && (b[h - 1] & 0x80))
			h++;
		n = t == mq::PUBLISH ? u16(b, h + 2 + u16(b, h)) : u16(b, h);
		auto o = M.out.find(n);
		if (n <= 0)
			ex::violation("a request with message id 0: " + got.br[i]);
		if (o != M.out.end() && !(o->second.client == r.client && o->second.mid == r.mid))
			ex::violation(v::fmt("message id %d is in use for a request of %s: ", n, ID[o->second.client]) + got.br[i]);
		for (auto& q : M.out)
			if (q.second.client == r.client && q.second.mid == r.mid && q.first != n && !q.second.old)
				ex::violation(v::fmt("the repeated request has message id %d, before it was %d", n, q.first));
		M.out[n] = r;
		want.br.push_back(w::showMq(packet(n)));
		return;
	}
	want.br.push_back(w::showMq(packet(0)));
}
static bool busy(int c, int mid, char kind)
{
	if (M.ended.count({ c, mid }))
		return true;
	for (auto& q : M.out)
		if (q.second.client == c && q.second.mid == mid && q.second.kind != kind)
			return true;
	return false;
}

static void publication(Got& want, const B& topic, int qos, int retain, const B& data)
{
	M.topics.insert(topic);
	for (int i = 0; i < N; i++)
	{
		Cl& k = M.c[i];
		bool sub = false;
		for (auto& f : k.subs)
			sub |= matches(f, topic);
		if (!sub || !k.known)
			continue;
		std::string m = msg(topic, qos, retain, data);
		if (k.active)
			want.cl[i].push_back(m);
		else if (k.asleep)
			k.stored.push_back(m);
	}
}

static void newSession(int c, int clean)
{
	Cl& k = M.c[c];
	k.clean = clean;
	if (!clean)
		return;
	k.subs.clear(), k.names.clear(), k.stored.clear();
	for (auto& q : M.out)
		if (q.second.client == c)
			q.second.old = true;
}
static Op connect(int c, int clean)
{
	return { v::fmt("%s: CONNECT %s", ID[c], clean ? "clean" : "keep"), [=](Got& want, std::function<void(Got&)>&) {
		Cl& k = M.c[c];
		toGw(c, w::connect(ID[c], clean, 0, 60));
		want.cl[c].push_back(w::showSn(w::connack(0)));
		if (k.asleep)
		{
			for (auto& m : k.stored)
				want.cl[c].push_back(m);
			k.stored.clear();
		}
		else
		{
			newSession(c, clean);
		}
		k.known = k.active = true;
		k.asleep = k.waitTopic = k.waitMsg = false;
		return true;
	} };
}
static Op connectWill(int c)
{
	return { v::fmt("%s: CONNECT with a will", ID[c]), [=](Got& want, std::function<void(Got&)>&) {
		Cl& k = M.c[c];
		if (k.asleep)
			return false;
		toGw(c, w::connect(ID[c], 1, 1, 60));
		want.cl[c].push_back(w::showSn(w::sn(w::WILLTOPICREQ, "")));
		newSession(c, 1);
		k.known = k.waitTopic = true;
		k.active = k.waitMsg = false;
		return true;
	} };
}
static Op willtopic(int c)
{
	return { v::fmt("%s: WILLTOPIC", ID[c]), [=](Got& want, std::function<void(Got&)>&) {
		Cl& k = M.c[c];
		if (!k.waitTopic)
			return false;
		toGw(c, w::willtopic("gone", 1, 0));
		want.cl[c].push_back(w::showSn(w::sn(w::WILLMSGREQ, "")));
		k.waitTopic = false, k.waitMsg = true;
		return true;
	} };
}
static Op willmsg(int c)
{
	return { v::fmt("%s: WILLMSG", ID[c]), [=](Got& want, std::function<void(Got&)>&) {
		Cl& k = M.c[c];
		if (!k.waitMsg)
			return false;
		toGw(c, w::willmsg("bye"));
		want.cl[c].push_back(w::showSn(w::connack(0)));
		k.waitMsg = false, k.active = true;
		return true;
	} };
}
static Op disconnect(int c, int dur = -1)
{
	return { v::fmt("%s: DISCONNECT %d", ID[c], dur), [=](Got& want, std::function<void(Got&)>&) {
		Cl& k = M.c[c];
		if (!k.active && !k.asleep)
			return false;
		toGw(c, w::disconnect(dur));
		want.cl[c].push_back(w::showSn(w::disconnect()));
		k.active = false;
		k.asleep = dur > 0;
		return true;
	} };
}
static Op pingreq(int c)
{
	return { v::fmt("%s: PINGREQ", ID[c]), [=](Got& want, std::function<void(Got&)>&) {
		Cl& k = M.c[c];
		if (!k.active && !k.asleep)
			return false;
		toGw(c, w::pingreq(k.asleep ? ID[c] : ""));
		for (auto& m : k.stored)
			want.cl[c].push_back(m);
		k.stored.clear();
		want.cl[c].push_back(w::showSn(w::pingresp()));
		return true;
	} };
}
static Op reg(int c, int mid, const B& name)
{
	return { v::fmt("%s: REGISTER %d ", ID[c], mid) + name, [=](Got& want, std::function<void(Got&)>& learn) {
		if (!M.c[c].active)
			return false;
		toGw(c, w::reg(0, mid, name));
		Got* wp = &want;
		learn = [=](Got& got) {
			int id = tid(c, name);
			if (!id && got.cl[c].size() == 1)
			{
				int n = strtol(got.cl[c][0].substr(11, 4).c_str(), nullptr, 16);
				if (n > 0 && n < 0xffff && !M.c[c].names.count(n) && !M.c[c].predef.count(n))
					M.c[c].names[id = n] = name;
			}
			wp->cl[c].push_back(w::showSn(w::regack(id, mid, 0)));
		};
		return true;
	} };
}
// the topic of a packet as the client names it: type, bytes, id to be answered with, name
struct Topic
{
	int tt;
	B bytes, name;
	int id;
};
static Topic topicOf(int c, const B& name)
{
	if (name.size() == 2 && name.find_first_of("+#") == B::npos)
		return { w::SHORT, name, name, (unsigned char) name[0] << 8 | (unsigned char) name[1] };
	for (auto& p : M.c[c].predef)
		if (p.second == name)
			return { w::PREDEF, w::b2(p.first), name, p.first };
	return { w::NORMAL, w::b2(tid(c, name)), name, tid(c, name) };
}
static Op subscribe(int c, int mid, const B& filter, int qos, int dup = 0)
{
	return { v::fmt("%s: SUBSCRIBE %d%s q%d ", ID[c], mid, dup ? " dup" : "", qos) + filter, [=](Got& want, std::function<void(Got&)>& learn) {
		if (!M.c[c].active || busy(c, mid, 's'))
			return false;
		Topic t = topicOf(c, filter);
		toGw(c, w::subscribe(dup, qos, mid, t.tt, t.tt == w::NORMAL ? filter : t.bytes));
		Got* wp = &want;
		M.c[c].subs.insert(filter);
		Req r = { c, mid, 's', t.tt == w::NORMAL ? -1 : t.id, filter };
		learn = [=](Got& got) { relayed(got, *wp, r, [=](int n) { return mq::subscribe(n, filter, qos); }); };
		return true;
	} };
}
static Op unsubscribe(int c, int mid, const B& filter)
{
	return { v::fmt("%s: UNSUBSCRIBE %d ", ID[c], mid) + filter, [=](Got& want, std::function<void(Got&)>& learn) {
		if (!M.c[c].active || busy(c, mid, 'u'))
			return false;
		Topic t = topicOf(c, filter);
		toGw(c, w::unsubscribe(mid, t.tt, t.tt == w::NORMAL ? filter : t.bytes));
		bool others = false;
		for (int i = 0; i < N; i++)
			others |= i != c && M.c[i].subs.count(filter);
		bool mine = M.c[c].subs.erase(filter);
		if (others)
		{
			// they would lose it
			want.cl[c].push_back(w::showSn(w::ack(w::UNSUBACK, mid)));
			return true;
		}
		Got* wp = &want;
		Req r = { c, mid, 'u', 0, filter };
		learn = [=](Got& got) {
			if (!mine && got.br.empty())		// nothing to end
				wp->cl[c].push_back(w::showSn(w::ack(w::UNSUBACK, mid)));
			else
				relayed(got, *wp, r, [=](int n) { return mq::unsubscribe(n, filter); });
		};
		return true;
	} };
}
static Op publish(int c, int mid, const B& name, int qos, int retain = 0, int dup = 0, size_t len = 1)
{
	return { v::fmt("%s: PUBLISH %d q%d%s ", ID[c], mid, qos, dup ? " dup" : "") + name, [=](Got& want, std::function<void(Got&)>& learn) {
		char kind = qos == 1 ? '1' : '2';
		if (!M.c[c].active || (qos && busy(c, mid, kind)))
			return false;
		Topic t = topicOf(c, name);
		if (!t.id)
			return false;
		B data = B(len - 1, 'x') + ID[c][1];
		toGw(c, w::publish(dup, qos, retain, t.tt, t.bytes, qos ? mid : 0, data));
		if (!qos)
		{
			want.br.push_back(w::showMq(mq::publish(0, 0, retain, name, 0, data)));
			return true;
		}
		Got* wp = &want;
		Req r = { c, mid, kind, t.id, name };
		learn = [=](Got& got) { relayed(got, *wp, r, [=](int n) { return mq::publish(dup, qos, retain, name, n, data); }); };
		return true;
	} };
}
// the client releases its QoS 2 publication
static Op pubrel(int c, int mid)
{
	return { v::fmt("%s: PUBREL %d", ID[c], mid), [=](Got& want, std::function<void(Got&)>&) {
		if (!M.c[c].active)
			return false;
		int n = 0;
		for (auto& q : M.out)
			if (q.second.client == c && q.second.mid == mid && (q.second.kind == '3' || q.second.kind == '4'))
				n = q.first, q.second.kind = '4';
		if (!n && busy(c, mid, 0))
			return false;
		toGw(c, w::ack(w::PUBREL, mid));
		if (n)
			want.br.push_back(w::showMq(mq::ack(mq::PUBREL, n)));
		else
			want.cl[c].push_back(w::showSn(w::ack(w::PUBCOMP, mid)));
		return true;
	} };
}
static Op toClient(int c, const B& name, const B& p)
{
	return { std::string(ID[c]) + ": " + name, [=](Got& want, std::function<void(Got&)>&) {
		if (!M.c[c].active)
			return false;
		toGw(c, p);
		if (p == w::ack(w::PUBREC, 900))
			want.cl[c].push_back(w::showSn(w::ack(w::PUBREL, 900)));
		return true;
	} };
}
// the broker answers the outstanding request of a client; k: the first, second.. such request
static Op answer(int c, int mid, int code = 0)
{
	return { v::fmt("broker answers %s's %d with %d", ID[c], mid, code), [=](Got& want, std::function<void(Got&)>& learn) {
		for (auto& q : M.out)
		{
			int n = q.first;
			Req r = q.second;
			if (r.client != c || r.mid != mid)
				continue;
			Cl& k = M.c[c];
			bool up = k.active;
			Got* wp = &want;
			if (r.old)
			{
				auto a = r.kind == 's' ? mq::suback(n, code) : r.kind == 'u' ? mq::unsuback(n) : mq::ack(r.kind == '1' ? mq::PUBACK : r.kind == '4' ? mq::PUBCOMP : mq::PUBREC, n);
				gw::brokerSend(M.conn, a);
				if (r.kind >= '2' && r.kind <= '4')
					M.ended.insert({ c, mid });
				M.out.erase(n);
				learn = [=](Got& got) {
					if (got.cl[c].size() == 1)
						wp->cl[c] = got.cl[c];
				};
				return true;
			}
			switch (r.kind)
			{
			case 's':
				gw::brokerSend(M.conn, mq::suback(n, code));
				M.out.erase(n);
				learn = [=](Got& got) {
					int id = r.tid;
					if (id < 0)
					{
						id = tid(c, r.name);
						if (!id && got.cl[c].size() == 1 && r.name.find_first_of("+#") == B::npos)
						{
							// flags, topic id
							int x = strtol(got.cl[c][0].substr(got.cl[c][0].find('[') + 7, 4).c_str(), nullptr, 16);
							if (x > 0 && x < 0xffff && !M.c[c].names.count(x) && !M.c[c].predef.count(x))
								M.c[c].names[id = x] = r.name;
						}
						else if (r.name.find_first_of("+#") != B::npos)
							id = 0;
					}
					wp->cl[c].push_back(w::showSn(code == 0x80 ? w::suback(0, id, mid, 2) : w::suback(code, id, mid, 0)));
				};
				return up;
			case 'u':
				gw::brokerSend(M.conn, mq::unsuback(n));
				M.out.erase(n);
				want.cl[c].push_back(w::showSn(w::ack(w::UNSUBACK, mid)));
				return up;
			case '1':
				gw::brokerSend(M.conn, mq::ack(mq::PUBACK, n));
				M.out.erase(n);
				want.cl[c].push_back(w::showSn(w::puback(r.tid, mid, 0)));
				return up;
			case '2':
			case '3':
				gw::brokerSend(M.conn, mq::ack(mq::PUBREC, n));
				q.second.kind = '3';
				want.cl[c].push_back(w::showSn(w::ack(w::PUBREC, mid)));
				return up;
			case '4':
				gw::brokerSend(M.conn, mq::ack(mq::PUBCOMP, n));
				M.out.erase(n);
				want.cl[c].push_back(w::showSn(w::ack(w::PUBCOMP, mid)));
				return up;
			}
		}
		return false;
	} };
}
static Op message(const B& topic, int mid, int qos, int retain = 0, size_t len = 1)
{
	return { v::fmt("broker: PUBLISH %d q%d ", mid, qos) + topic, [=](Got& want, std::function<void(Got&)>&) {
		if (qos == 2 && M.brokerIn.count(mid))
			return false;
		B data = B(len - 1, 'y') + "!";
		gw::brokerSend(M.conn, mq::publish(0, qos, retain, topic, mid, data));
		if (qos)
			want.br.push_back(w::showMq(mq::ack(qos == 1 ? mq::PUBACK : mq::PUBREC, mid)));
		if (qos == 2)
			M.brokerIn.insert(mid);
		publication(want, topic, qos, retain, data);
		return true;
	} };
}
static Op release(int mid)
{
	return { v::fmt("broker: PUBREL %d", mid), [=](Got& want, std::function<void(Got&)>&) {
		if (!M.brokerIn.count(mid))
			return false;
		M.brokerIn.erase(mid);
		gw::brokerSend(M.conn, mq::ack(mq::PUBREL, mid));
		want.br.push_back(w::showMq(mq::ack(mq::PUBCOMP, mid)));
		return true;
	} };
}

// a QoS -1 client: nothing to do with the shared connection
static Op qosm1Pub()
{
	return { "m1: PUBLISH q-1", [=](Got& want, std::function<void(Got&)>&) {
		gw::datagram(gw::addr("10.0.0.7", 6001), w::publish(0, 3, 0, w::SHORT, "ab", 0, "m1"));
		want.br.push_back("proxy " + w::showMq(mq::publish(0, 0, 0, "ab", 0, "m1")));
		return true;
	} };
}

static void explore(const std::vector<Op>& ops, int level, int depth)
{
	if (level >= depth)
	{
		ex::S->histories++;
		if (ex::S->histories % 997 == 1 && ex::S->nSamples < 12)
		{
			std::string t = ex::scenario + ":";
			for (auto& x : ex::traceText)
				t += " | " + x.substr(0, 160);
			ex::sample(t.substr(0, 1000));
		}
		return;
	}
	if (ex::replaying && ex::trace.size() >= ex::preset.size())
		return;
	for (size_t i = 0; i < ops.size(); i++)
	{
		if (ex::replaying)
		{
			if (ex::preset[ex::trace.size()] != (int) i)
				continue;
			ex::trace.push_back(i);
			if (step(ops[i]))
				explore(ops, level + 1, depth);
			return;
		}
		ex::branch(i, [&](int i) {
			if (step(ops[i]))
				explore(ops, level + 1, depth);
		});
		if (ex::over())
			return;
	}
}
// the gateway has started: it connects within seconds
static void begin(bool predef, bool proxy = false)
{
	mainFiber = gwd::W.mainFiber;
	for (int i = 0; i < 40 && (M.conn < 0 || (proxy && M.proxy < 0)); i++)
	{
		vos::advance(500000);
		for (auto& b : gw::collect().broker)
			if (b[0] == 'D' && ((unsigned char) b[b.find(':') + 1]) == mq::CONNECT << 4)
				(b.find("QoS-1") != B::npos ? M.proxy : M.conn) = atoi(b.c_str() + 1);
	}
	if (M.conn < 0 || (proxy && M.proxy < 0))
		ex::violation("the aggregating gateway does not connect to the broker within 20 s");
	gw::collect();
	gw::brokerSend(M.conn, mq::connack(0));
	if (proxy)
		gw::brokerSend(M.proxy, mq::connack(0));
	gw::settle();
	if (predef)
		for (int i = 0; i < N; i++)
			M.c[i].predef = { { 2, "p/all" }, { 3, i == 0 ? B("p/one") : B("p/oth") } };
	Got g;
	take(g);
	if (show(g) != " nothing" && !proxy)
		ex::violation("the CONNACK of the aggregator:" + show(g));
}
static void go(const std::vector<Op>& prefix, const std::vector<Op>& ops, int depth, bool predef = false, bool adapters = false)
{
	M.fwd[1] = M.fwd[2] = adapters;
	begin(predef, adapters);
	for (auto& o : prefix)
		if (!step(o))
			ex::violation("harness: prefix step " + o.name + " not possible");
	explore(ops, 0, depth);
}
} // namespace agg

static Scns g11()
{
	Scns r;
	bool th = v::thorough();
	using namespace agg;
	auto add = [&](const char* name, std::vector<Op> prefix, std::vector<Op> ops, int quick, int thorough, bool predef = false, bool adapters = false) {
		Scn s = scn(name);
		if (adapters)
		{
			forwarders(s, 1);
			s.conf.set("QoS-1", "YES");
			s.conf.clients += "m1,10.0.0.7:6001,QoS-1\n";
		}
		s.conf.set("AggregatingGateway", "YES").set("MaxNumberOfClients", "8");
		if (predef)
		{
			s.conf.set("PredefinedTopic", "YES");
			s.conf.predefined = "*,p/all,2\nc1,p/one,3\nc2,p/oth,3\nc3,p/oth,3\n";
		}
		int d = th ? thorough : quick;
		s.bounds = v::fmt("%zu kinds of step, all sequences to depth %d", ops.size(), d);
		s.body = [=]() { go(prefix, ops, d, predef, adapters); };
		r.push_back(s);
	};
	std::vector<Op> three = { agg::connect(0, 1), agg::connect(1, 1), agg::connect(2, 1) }, two(three.begin(), three.begin() + 2);
	auto with = [](std::vector<Op> a, std::vector<Op> b) {
		a.insert(a.end(), b.begin(), b.end());
		return a;
	};
	add("subscriptions", three, {
		agg::subscribe(0, 5, "t/1", 1), agg::subscribe(1, 5, "t/1", 1), agg::subscribe(1, 6, "t/#", 1), agg::subscribe(2, 5, "+/2", 0), agg::subscribe(0, 7, "ab", 2),
		answer(0, 5, 1), answer(1, 5, 1), answer(1, 6, 1), answer(2, 5, 0), answer(0, 7, 2),
		message("t/1", 31, 1), message("t/2", 32, 0), message("ab", 33, 2),
		agg::unsubscribe(0, 8, "t/1"), agg::unsubscribe(1, 8, "t/1"), agg::unsubscribe(1, 9, "t/#"), answer(0, 8), answer(1, 8), answer(1, 9),
	}, 4, 5);
	add("fan-out", with(three, { agg::subscribe(0, 5, "t/1", 1), answer(0, 5, 1), agg::subscribe(1, 5, "t/1", 2), answer(1, 5, 2), agg::subscribe(2, 5, "t/1", 0), answer(2, 5, 0),
			agg::subscribe(1, 6, "t/#", 1), answer(1, 6, 1) }), {
		message("t/1", 31, 1), message("t/1", 32, 2, 1), message("t/2", 0, 0), message("t/2", 34, 2), release(32), release(34),
		agg::unsubscribe(0, 8, "t/1"), agg::unsubscribe(1, 8, "t/1"), agg::unsubscribe(2, 8, "t/1"), agg::unsubscribe(1, 9, "t/#"),
		answer(0, 8), answer(1, 8), answer(2, 8), answer(1, 9),
		toClient(0, "PUBACK", w::puback(1, 31, 0)), toClient(1, "PUBREC 900", w::ack(w::PUBREC, 900)), toClient(1, "PUBCOMP", w::ack(w::PUBCOMP, 900)),
		agg::connect(0, 1), agg::connect(1, 0), agg::disconnect(2), agg::connect(2, 1), agg::connect(2, 0), agg::subscribe(0, 7, "t/1", 1), answer(0, 7, 1),
	}, 4, 5);
	add("publications", with(three, { agg::reg(0, 3, "n/a"), agg::reg(1, 3, "n/b"), agg::reg(2, 3, "n/a") }), {
		agg::publish(0, 5, "ab", 1), agg::publish(1, 5, "ab", 1), agg::publish(0, 5, "ab", 1, 0, 1), agg::publish(0, 6, "n/a", 2), agg::publish(1, 6, "n/b", 2, 1), agg::publish(2, 5, "n/a", 1, 0, 0, 251),
		agg::publish(2, 0, "n/a", 0), agg::publish(1, 6, "n/b", 2, 1, 1),
		answer(0, 5), answer(1, 5), answer(0, 6), answer(1, 6), answer(2, 5), agg::pubrel(0, 6), agg::pubrel(1, 6), agg::pubrel(0, 99),
	}, 4, 5);
	add("mixed requests", two, {
		agg::publish(0, 5, "ab", 1), agg::subscribe(1, 5, "s/x", 1), agg::unsubscribe(0, 6, "zz"), agg::publish(1, 6, "cd", 2), agg::subscribe(0, 7, "s/x", 2), agg::subscribe(1, 5, "s/x", 1, 1),
		answer(0, 5), answer(1, 5, 1), answer(0, 6), answer(1, 6), answer(0, 7, 2), answer(0, 7, 0x80), agg::pubrel(1, 6), message("s/x", 31, 1), agg::unsubscribe(0, 8, "no/such"),
	}, 4, 5);
	add("predefined", three, {
		agg::subscribe(0, 5, "p/all", 1), agg::subscribe(1, 5, "p/oth", 1), agg::subscribe(2, 5, "p/all", 1), answer(0, 5, 1), answer(1, 5, 1), answer(2, 5, 1),
		message("p/all", 31, 1), message("p/oth", 0, 0), message("p/one", 0, 0), agg::publish(0, 6, "p/one", 1), agg::publish(1, 6, "p/oth", 1), answer(0, 6), answer(1, 6),
		agg::unsubscribe(0, 8, "p/all"), answer(0, 8), agg::connect(0, 1),
	}, 4, 5, true);
	add("sessions", {}, {
		agg::connect(0, 1), agg::connect(0, 0), agg::connect(1, 1), connectWill(0), agg::willtopic(0), agg::willmsg(0), agg::disconnect(0), agg::pingreq(0), agg::subscribe(0, 5, "t/1", 1), answer(0, 5, 1),
		agg::publish(0, 6, "ab", 1), answer(0, 6), message("t/1", 31, 1),
	}, 5, 6);
	add("asleep", with(two, { agg::subscribe(0, 5, "t/1", 1), answer(0, 5, 1), agg::subscribe(1, 5, "t/#", 1), answer(1, 5, 1), message("t/1", 30, 0) }), {
		agg::disconnect(0, 10), agg::pingreq(0), agg::connect(0, 1), message("t/1", 31, 1), message("t/1", 32, 2), message("t/1", 0, 0), release(32), agg::disconnect(1), agg::disconnect(0), agg::publish(1, 6, "ab", 1), answer(1, 6),
	}, 5, 7);
	// what the broker answers does not matter here
	add("filters come and go", with(three, { agg::reg(0, 3, "t/1"), agg::reg(1, 3, "t/1"), agg::subscribe(0, 5, "t/1", 1), agg::subscribe(1, 5, "+/2", 1), agg::subscribe(2, 5, "t/#", 1), agg::subscribe(2, 6, "ab", 1) }), {
		agg::unsubscribe(0, 11, "t/1"), agg::unsubscribe(1, 11, "+/2"), agg::unsubscribe(2, 11, "t/#"), agg::unsubscribe(2, 12, "ab"), agg::connect(2, 1),
		agg::subscribe(1, 6, "t/1", 1), agg::subscribe(2, 13, "+/2", 1), agg::subscribe(0, 6, "ab", 1), agg::subscribe(1, 7, "t/+", 1),
		message("t/1", 31, 1), message("t/2", 32, 0), message("ab", 33, 0),
	}, 4, 5);
	add("forwarded and QoS -1 clients", three, {
		agg::subscribe(0, 5, "t/1", 1), agg::subscribe(1, 5, "t/1", 2), agg::subscribe(2, 5, "t/#", 1), answer(0, 5, 1), answer(1, 5, 2), answer(2, 5, 1), message("t/1", 31, 1), message("t/2", 32, 2), release(32),
		agg::publish(1, 6, "ab", 1), agg::publish(2, 6, "ab", 2), answer(1, 6), answer(2, 6), agg::pubrel(2, 6), qosm1Pub(), agg::unsubscribe(1, 8, "t/1"), answer(1, 8), agg::disconnect(1, 10), agg::pingreq(1), agg::connect(2, 1),
	}, 4, 5, false, true);
	// message ids: every id comes round while one request is outstanding
	{
		Scn s = scn("all message ids");
		s.conf.set("AggregatingGateway", "YES").set("MaxNumberOfClients", "8");
		s.bounds = "132000 publications while a subscription and a QoS 2 publication are unanswered: every message id twice";
		s.body = [=]() {
			begin(false);
			for (auto& o : with(two, { agg::subscribe(0, 5, "t/1", 1), agg::publish(1, 6, "cd", 2), answer(1, 6) }))
				agg::step(o);
			std::set<int> used;
			for (auto& q : M.out)
				used.insert(q.first);
			for (int i = 0; i < 13200; i++)
			{
				for (int k = 0; k < 10; k++)
					toGw(k & 1, w::publish(0, 1, 0, w::SHORT, "ab", 100 + k, "x"));
				vos::advance(20000);
				gw::Seen g = gw::collect();
				int n = 0;
				for (auto& b : g.broker)
				{
					B p = b.substr(b.find(':') + 1);
					if (p == mq::pingreq())
					{
						gw::brokerSend(M.conn, mq::pingresp());
						continue;
					}
					int id = u16(p, 6);
					if (p != mq::publish(0, 1, 0, "ab", id, "x"))
						ex::violation("not the PUBLISH expected: " + gw::showBroker(b));
					if (id <= 0 || used.count(id))
						ex::violation(v::fmt("message id %d, which is in use", id));
					n++;
					used.insert(id);
					gw::brokerSend(M.conn, mq::ack(mq::PUBACK, id));
				}
				if (n != 10)
					ex::violation(v::fmt("%d of 10 publications were relayed", n));
				vos::advance(20000);
				g = gw::collect();
				for (int c = 0; c < 2; c++)
				{
					auto& d = g.dg[ADDR[c]];
					for (int k = 0; k < 5; k++)
						if (d.size() != 5 || d[k] != w::puback(0x6162, 100 + 2 * k + c, 0))
							ex::violation("the PUBACKs are not right");
				}
				used.clear();
				for (auto& q : M.out)
					used.insert(q.first);
				ex::S->transitions++;
			}
			for (auto& o : { answer(0, 5, 1), agg::pubrel(1, 6), answer(1, 6), message("t/1", 31, 1) })
				if (!agg::step(o))
					ex::violation("harness: " + o.name);
		};
		r.push_back(s);
	}
	// requests which are never answered do not use the table up
	{
		Scn s = scn("unanswered requests");
		s.conf.set("AggregatingGateway", "YES").set("MaxNumberOfClients", "8");
		s.bounds = "1152 UNSUBSCRIBEs which the broker does not answer; each is relayed, and so are PUBLISHes and SUBSCRIBEs between them, whose answers come";
		s.body = [=]() {
			begin(false);
			for (auto& o : two)
				agg::step(o);
			for (int i = 0; i < 1200; i++)
			{
				// (a client has at most 20 publications and subscriptions in flight: MAX_INFLIGHTMESSAGES)
				int c = i & 1;
				bool answered = i % 50 == 49 || i % 50 == 0;
				agg::step(!answered ? agg::unsubscribe(c, 1000 + i, "zz") : i % 100 < 50 ? agg::publish(c, 1000 + i, "ab", 1) : agg::subscribe(c, 1000 + i, "t/1", 1));
				if (answered)
					agg::step(answer(c, 1000 + i, 1));
				if (M.out.size() > 400)
					M.out.erase(M.out.begin());
			}
		};
		r.push_back(s);
	}
	// the shared connection is lost and replaced: then everything works again
	{
		Scn s = scn("connection lost");
		s.conf.set("AggregatingGateway", "YES").set("MaxNumberOfClients", "8");
		s.bounds = "the broker closes or resets the shared connection with requests outstanding; repeated and new requests after it has been replaced";
		s.body = [=]() {
			begin(false);
			for (auto& o : with(two, { agg::subscribe(0, 5, "t/1", 1), agg::publish(1, 6, "cd", 1) }))
				agg::step(o);
			for (int i = 0; i < 2; i++)
			{
				(i ? vos::conn(M.conn)->rst : vos::conn(M.conn)->fin) = true;
				M.conn = -1;
				begin(false);
				for (auto& o : { agg::subscribe(0, 5, "t/1", 1), agg::publish(1, 6, "cd", 1, 0, 1), answer(1, 6), answer(0, 5, 1), agg::publish(1, 6, "cd", 1), message("t/1", 31, 1), agg::subscribe(0, 5, "t/1", 1) })
					if (!agg::step(o))
						ex::violation("harness: " + o.name);
			}
		};
		r.push_back(s);
	}
	return r;
}

// ---- the aggregating gateway and damaged packets (scenarios of G12 and G13) ------------------------
namespace agg
{
struct Drained
{
	std::map<Addr, std::vector<B>> cl;
	std::vector<B> br;						// on the shared connection
};
static Drained drain()
{
	Drained r;
	for (int round = 0; round < 20; round++)
	{
		alarm(40);
		gw::settle();
		alarm(0);
		if (vos::fiberDone(mainFiber))
			ex::violation("the gateway ended");
		gw::Seen s = gw::collect();
		bool any = false;
		for (auto& d : s.dg)
			for (auto p : d.second)
			{
				// the answer to SEARCHGW is for everyone
				if (d.first == gw::addr("225.1.1.1", gw::MPORT) && p.size() > 1 && (p[1] == w::GWINFO || p[1] == w::ADVERTISE))
					continue;
				int c = whose(d.first, p);
				r.cl[ADDR[c]].push_back(p);
				size_t o = p.size() > 3 && p[0] == 1 ? 4 : 2;
				if (p.size() >= o + 4 && p[o - 1] == w::REGISTER)
				{
					toGw(c, w::regack(u16(p, o), u16(p, o + 2), 0));
					any = true;
				}
			}
		for (auto& b : s.broker)
			if (b.substr(0, b.find(':')) == v::fmt("D%d", M.conn))
			{
				B p = b.substr(b.find(':') + 1);
				if (p == mq::pingreq())
				{
					gw::brokerSend(M.conn, mq::pingresp());
					any = true;
				}
				else
					r.br.push_back(p);
			}
		if (!any)
			break;
	}
	return r;
}
// c's PUBLISH goes to the broker and is answered; a message for its topic comes
static void served(int c, const char* who, bool subscribe)
{
	auto bad = [&](const std::string& s) { ex::violation(v::fmt("%s is no longer served: ", who) + s); };
	auto relayedId = [&](const Drained& d, std::function<B(int)> packet) {
		for (auto& p : d.br)
			for (size_t i = 0; i + 1 < p.size(); i++)
				if (p == packet(u16(p, i)))
					return u16(p, i);
		return 0;
	};
	auto has = [&](Drained& d, const B& p) { return std::count(d.cl[ADDR[c]].begin(), d.cl[ADDR[c]].end(), p) == 1; };
	if (subscribe)
	{
		toGw(c, w::subscribe(0, 1, 70 + c, w::SHORT, "ok"));
		Drained d = drain();
		int n = relayedId(d, [](int n) { return mq::subscribe(n, "ok", 1); });
		if (n <= 0)
			bad("SUBSCRIBE is not relayed");
		gw::brokerSend(M.conn, mq::suback(n, 1));
		d = drain();
		if (!has(d, w::suback(1, 0x6f6b, 70 + c, 0)))
			bad("no SUBACK");
	}
	B data = v::fmt("by%d", c);
	toGw(c, w::publish(0, 1, 0, w::SHORT, "ok", 80 + c, data));
	Drained d = drain();
	int n = relayedId(d, [&](int n) { return mq::publish(0, 1, 0, "ok", n, data); });
	if (n <= 0)
		bad("PUBLISH is not relayed");
	gw::brokerSend(M.conn, mq::ack(mq::PUBACK, n));
	d = drain();
	if (!has(d, w::puback(0x6f6b, 80 + c, 0)))
		bad("no PUBACK");
	gw::brokerSend(M.conn, mq::publish(0, 0, 0, "ok", 0, "news"));
	d = drain();
	if (!has(d, w::publish(0, 0, 0, w::SHORT, "ok", 0, "news")))
		bad("a message is not delivered");
}
static void chunks(int n, int size, std::function<void(int)> item)
{
	auto run = [&](int c) {
		for (int k = c; k < std::min(c + size, n); k++)
			item(k);
		ex::S->histories++;
	};
	if (ex::replaying)
	{
		if (!ex::preset.empty())
		{
			ex::trace.push_back(ex::preset[0]);
			run(ex::preset[0]);
		}
		return;
	}
	for (int c = 0; c < n && !ex::over(); c += size)
		ex::branch(c, run);
}
static void note(const std::string& s)
{
	ex::traceText.push_back(s);
	if (ex::traceText.size() > 20)
		ex::traceText.erase(ex::traceText.begin() + 2, ex::traceText.end() - 16);
	ex::S->transitions++;
}
static void enter(int c, int state)
{
	if (state == 0)
		return;
	toGw(c, w::connect(ID[c], 1, state == 2 || state == 3, 60));
	drain();
	if (state == 3)
	{
		toGw(c, w::willtopic("wt", 1, 0));
		drain();
	}
	if (state < 4)
		return;
	toGw(c, w::subscribe(0, 1, 5, w::NORMAL, "n/#"));
	toGw(c, w::subscribe(0, 1, 6, w::NORMAL, "n/a"));
	Drained d = drain();
	for (auto& p : d.br)
		if ((unsigned char) p[0] == 0x82)
			gw::brokerSend(M.conn, mq::suback(u16(p, 2), 1));
	drain();
	if (state < 5)
		return;
	toGw(c, w::disconnect(10));
	drain();
	gw::brokerSend(M.conn, mq::publish(0, 1, 0, "n/a", 5, "m"));
	drain();
}
} // namespace agg

static void aggScn(Scns& r, const std::string& name, std::function<void()> body)
{
	Scn s = scn(name.c_str());
	s.conf.set("AggregatingGateway", "YES").set("MaxNumberOfClients", "8").set("PredefinedTopic", "YES");
	s.conf.predefined = "*,p/all,2\n";
	s.body = body;
	r.push_back(s);
}
static Scns g12all()
{
	using namespace agg;
	Scns r = g12();
	bool th = v::thorough();
	const char* states[] = { "stranger", "client", "client awaiting the will topic", "client awaiting the will message", "subscriber", "sleeping client" };
	for (int st = 0; st < 6; st++)
		aggScn(r, v::fmt("aggregating gateway, from a %s", states[st]), [=]() {
			begin(false);
			toGw(1, w::connect("c2", 1, 0, 60));
			drain();
			served(1, "the bystander", true);
			std::vector<std::pair<std::string, B>> ps;
			for (auto& p : packets())
				if (p.first.compare(0, 4, "type") == 0)
					ps.push_back(p);
				else
					damaged(ps, p.first, p.second, th);
			ps.erase(std::remove_if(ps.begin(), ps.end(), [](const std::pair<std::string, B>& p) { return p.second.empty() || p.second.size() > 1024; }), ps.end());
			chunks(ps.size(), 48, [&](int k) {
				enter(0, st);
				note(ps[k].first + " " + v::hex(ps[k].second.data(), ps[k].second.size()));
				toGw(0, ps[k].second);
				drain();
				served(1, "the bystander", false);
				if (k % 48 == 47 || k + 1 == (int) ps.size())
				{
					toGw(0, w::connect("c1", 1, 0, 60));
					Drained d = drain();
					auto& v = d.cl[ADDR[0]];
					if (std::find(v.begin(), v.end(), w::connack(0)) == v.end())
						ex::violation("the sender cannot connect");
					// what a sleeping client is sent when it comes back may be followed by the CONNECT which ends its sleep only
					toGw(0, w::connect("c1", 1, 0, 60));
					drain();
					served(0, "the sender", true);
				}
			});
		});
	return r;
}
static Scns g13all()
{
	using namespace agg;
	Scns r = g13();
	bool th = v::thorough();
	for (int st = 4; st < 6; st++)
		aggScn(r, st == 4 ? "aggregating gateway, damaged: for a subscriber" : "aggregating gateway, damaged: for a sleeping client", [=]() {
			begin(false);
			toGw(1, w::connect("c2", 1, 0, 60));
			drain();
			served(1, "the bystander", true);
			std::vector<std::pair<std::string, B>> ps;
			for (auto& p : mqPackets())
				if (p.second.size() < 40 && p.first.compare(0, 4, "type"))
					mqDamaged(ps, p.first, p.second, th);
				else
					ps.push_back(p);
			chunks(ps.size(), 24, [&](int k) {
				enter(0, st);
				note(ps[k].first + " " + v::hex(ps[k].second.data(), ps[k].second.size(), 60));
				gw::brokerSend(M.conn, ps[k].second);
				drain();
				// what follows cannot be told from the damaged packet: the broker ends the connection
				vos::conn(M.conn)->fin = true;
				M.conn = -1;
				begin(false);
				served(1, "the bystander", true);
			});
		});
	return r;
}
