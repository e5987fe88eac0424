// Reference model of the gateway (transparent mode), written from the MQTT-SN and
// MQTT protocols.  It is given the same packets as the real gateway and predicts what every client
// and the broker must be sent.  Ids the gateway may choose freely (topic ids, REGISTER message ids)
// are taken over from what is observed and must satisfy the properties.
#ifndef GW_MODEL_H
#define GW_MODEL_H
#include "gwenv.h"
#include <memory>

namespace gwm
{
using w::B;
using gw::Addr;

inline int u8(const B& s, size_t i) { return (unsigned char) s[i]; }
inline int u16(const B& s, size_t i) { return u8(s, i) << 8 | u8(s, i + 1); }

struct Model;
// an expected packet; two bytes at `hole` may have any value which `adopt` accepts ("" = accepted)
struct Exp
{
	B bytes;
	int hole = -1;
	std::function<std::string(Model&, int)> adopt;
	bool early = false;		// may overtake what was sent before it
};

// topic matching of MQTT 3.1.1 section 4.7
inline bool matches(const B& filter, const B& name)
{
	auto split = [](const B& s) {
		std::vector<B> v;
		size_t p = 0, q;
		while ((q = s.find('/', p)) != B::npos)
			v.push_back(s.substr(p, q - p)), p = q + 1;
		v.push_back(s.substr(p));
		return v;
	};
	std::vector<B> f = split(filter), n = split(name);
	size_t i = 0;
	for (; i < f.size(); i++)
	{
		if (f[i] == "#")
			return true;
		if (i >= n.size() || (f[i] != "+" && f[i] != n[i]))
			return false;
	}
	return i == n.size();
}

struct Predef
{
	B client;		// "*": every client
	B name;
	int id;
};
struct Listed		// line of the clients list
{
	B id;
	Addr addr;
};
struct Fwd
{
	B id;
	Addr addr;
};
struct Cfg
{
	int gwId = 1, maxClients = 4, version = 4;
	bool hasUser = false, hasPass = false, auth = false;
	B user, pass;
	std::vector<Predef> predef;
	std::vector<Listed> listed;
	std::vector<Fwd> fwds;
	Addr mcast;
	bool qosm1 = false;				// the QoS -1 proxy, and its clients
	std::vector<Listed> qosm1s;
};

struct Topic
{
	int type, id;		// id 0: not observed yet
	B name;
	bool operator==(const Topic& o) const { return type == o.type && id == o.id && name == o.name; }
};
enum St { DISC, CONNECTING, ACTIVE, ASLEEP, AWAKE };
struct Held			// PUBLISH waiting for a REGACK
{
	int mid;		// message id of the REGISTER
	B topic;
	int dup, qos, retain, msgId;
	B payload;
};
struct SubWait
{
	int tid;			// topic id to report, -1: that of the topic `name`
	B name;
};
struct Client
{
	B id;
	Addr addr { 0, 0 };
	int fwd = -1;
	B node;
	St st = DISC;
	bool waitTopic = false, waitMsg = false, clean = false, hold = false;
	bool proxy = false;	// of the gateway itself
	int64_t since = 0;	// the proxy's CONNECT
	int conn = -1;
	w::m::Con con;
	B rx;				// bytes of a packet from the broker which is not complete yet
	std::vector<Topic> topics;
	std::map<int, SubWait> subs;
	std::map<int, SubWait> pubs;
	std::deque<B> stored;
	std::vector<Held> held;
	Topic* byName(const B& n)
	{
		for (auto& t : topics)
			if (t.name == n)
				return &t;
		return nullptr;
	}
	Topic* byId(int type, int id)
	{
		for (auto& t : topics)
			if (t.type == type && t.id == id && id)
				return &t;
		return nullptr;
	}
};

static const int MAX_STORED = 20, MAX_TOPICS = 50, MAX_WAIT = 21;

struct Model
{
	Cfg cfg;
	std::vector<Client> cl;
	int conns = 0;			// TCP connections opened so far
	bool brokerUp = true;
	std::set<int> failing;	// connections on which sending fails
	struct Late
	{
		int conn;
		B data;
		bool close;
	};
	int64_t now = 0;		// ms
	int64_t checked = 0;	// when the proxy's connection was looked at
	std::deque<Late> late;	// what is not read while another connection is within a packet
	bool racing = false;	// several packets at once: what meets the end of its session may be lost with it
	std::set<B> ended;

	// ---- result of the current step ---------------------------------------------------------
	std::map<Addr, std::vector<Exp>> dg;
	std::map<int, std::vector<B>> broker;		// per connection: "O", "D<packet>", "C"; -1: refused
	std::set<std::string> devs;					// recorded findings this history has met
	// choice script: which of the recorded deviations are taken
	std::vector<bool>* script = nullptr;
	size_t scriptPos = 0;

	void init(const Cfg& c)
	{
		cfg = c;
		if (c.qosm1)
		{
			Client x;
			x.id = "GW_QoS-1";
			x.proxy = true;
			x.con.id = x.id;
			x.con.keep = 900;
			x.con.clean = x.clean = true;
			x.con.version = c.version;
			cl.push_back(x);
		}
		for (auto& l : c.qosm1s)
		{
			Client x;
			x.id = l.id;
			x.addr = l.addr;
			cl.push_back(x);
		}
		for (auto& l : c.listed)
		{
			if (!c.auth)
				break;
			Client x;
			x.id = l.id;
			x.addr = l.addr;
			cl.push_back(x);
		}
		for (auto& p : c.predef)
			if (p.client != "*")
			{
				Client* x = byClientId(p.client);
				if (!x)
				{
					if (c.auth)
						continue;
					Client n;
					n.id = p.client;
					cl.push_back(n);
					x = &cl.back();
				}
				x->topics.push_back({ w::PREDEF, p.id, p.name });
			}
	}

	// true or false: both are allowed
	bool choose()
	{
		if (!script)
			return false;
		if (scriptPos == script->size())
			script->push_back(false);
		return (*script)[scriptPos++];
	}
	// true: behave as the recorded finding `key` says instead of as the property says
	bool dev(const char* key)
	{
		if (!v::R().known.count(key) || !script)
			return false;
		if (scriptPos == script->size())
			script->push_back(false);
		bool d = (*script)[scriptPos++];
		if (d)
			devs.insert(key);
		return d;
	}

	Client* byAddr(const Addr& a)
	{
		for (auto& c : cl)
			if (c.fwd < 0 && c.addr == a)
				return &c;
		return nullptr;
	}
	Client* byNode(int fwd, const B& node)
	{
		for (auto& c : cl)
			if (c.fwd == fwd && c.node == node)
				return &c;
		return nullptr;
	}
	Client* byClientId(const B& id)
	{
		for (auto& c : cl)
			if (c.id == id)
				return &c;
		return nullptr;
	}
	Client* byConn(int n)
	{
		for (auto& c : cl)
			if (c.conn == n)
				return &c;
		return nullptr;
	}
	int index(Client* c) { return c - &cl[0]; }

	// The proxy sees to its connection every two seconds or so: is it time to connect?
	bool due()
	{
		Client* p = cfg.qosm1 ? byClientId("GW_QoS-1") : nullptr;
		if (!p || (p->st != DISC && p->st != CONNECTING))
			return false;
		// an answer is waited for for ten seconds
		if (p->st == CONNECTING && (now - p->since < 6000 || (now - p->since < 13000 && !choose())))
			return false;
		p->st = CONNECTING;
		return true;
	}
	void proxyConnect()
	{
		Client* p = byClientId("GW_QoS-1");
		disconnected(*p);
		p->con.hasUser = cfg.hasUser;
		p->con.hasPass = cfg.hasPass;
		p->con.user = cfg.user;
		p->con.pass = cfg.pass;
		if (!toBroker(*p, w::m::connect(p->con)) && !brokerUp && choose())
			p->st = CONNECTING;		// tried again later
		p->since = now;
	}
	// a stimulus, and some time in which the gateway is idle; the proxy may have been about to connect
	void step(const std::function<void()>& f, int64_t ms)
	{
		bool look = cfg.qosm1 && choose(), d = look && due();
		f();
		now += ms;
		if (d)
			proxyConnect();
		if (!cfg.qosm1)
			return;
		int least = ms / 2000, most = ms / 1000 + 1;
		if (!look && now - checked > 4000)
			least = std::max(least, 1);
		for (int i = 0; i < most; i++)
			if (i < least || choose())
			{
				look = true;
				if (due())
					proxyConnect();
			}
			else
				break;
		if (look)
			checked = now;
	}

	// ---- output --------------------------------------------------------------------------------
	void toClient(Client& c, const B& b, int hole = -1, std::function<std::string(Model&, int)> adopt = nullptr)
	{
		Exp e;
		if (c.proxy)
			return;
		e.bytes = b;
		e.hole = hole;
		e.adopt = adopt;
		Addr a = c.addr;
		if (c.fwd >= 0)
		{
			B h = w::encap(c.node, "");
			e.bytes = h + b;
			if (hole >= 0)
				e.hole += h.size();
			a = cfg.fwds[c.fwd].addr;
		}
		dg[a].push_back(e);
	}
	// a packet which contains the id of topic `name` at offset `off`
	void toClientTid(Client& c, const B& b, int off, const B& name)
	{
		Topic* t = c.byName(name);
		if (t && t->id)
		{
			B x = b;
			x[off] = t->id >> 8;
			x[off + 1] = t->id;
			toClient(c, x);
			return;
		}
		int ci = index(&c);
		toClient(c, b, off, [ci, name](Model& m, int id) -> std::string {
			Client& c = m.cl[ci];
			if (id == 0 || id == 0xffff)
				return v::fmt("topic id %d given for %s", id, w::txt(name).c_str());
			for (auto& t : c.topics)
				if (t.type == w::NORMAL && t.id == id && t.name != name)
					return v::fmt("topic id %d given for %s already stands for %s", id, w::txt(name).c_str(), w::txt(t.name).c_str());
			Topic* t = c.byName(name);
			if (t && !t->id)
				t->id = id;
			else if (t && t->id != id)
				return v::fmt("two topic ids for %s", w::txt(name).c_str());
			return "";
		});
	}
	void disconnected(Client& c)
	{
		if (racing)
			ended.insert(c.id);
		c.st = DISC;
		c.waitTopic = c.waitMsg = false;
	}
	void closeConn(Client& c)
	{
		if (c.conn >= 0)
			broker[c.conn].push_back("C");
		c.conn = -1;
		c.rx.clear();
	}
	// hands a packet for the broker to the client's connection
	bool toBroker(Client& c, const B& p)
	{
		int type = u8(p, 0) >> 4;
		if (type == w::m::CONNECT && c.conn >= 0)
		{
			closeConn(c);
			disconnected(c);	// the session ends with its connection
		}
		if (c.conn < 0)
		{
			if (type != w::m::CONNECT)
			{
				disconnected(c);	// only CONNECT opens a connection
				return false;
			}
			if (!brokerUp)
			{
				broker[-1].push_back("F");
				return false;
			}
			c.conn = conns++;
			broker[c.conn].push_back("O");
		}
		if (failing.count(c.conn))
		{
			closeConn(c);
			disconnected(c);
			return false;
		}
		broker[c.conn].push_back("D" + p);
		if (type == w::m::CONNECT)
			c.st = CONNECTING;
		else if (type == w::m::DISCONNECT)
		{
			closeConn(c);
			disconnected(c);
		}
		return true;
	}

	// ---- datagrams -----------------------------------------------------------------------------
	void datagram(const Addr& from, const B& d)
	{
		int type;
		B body;
		if (!split(d, type, body))
			return;
		if (type == w::ADVERTISE || type == w::GWINFO)
			return;
		if (type == w::SEARCHGW && body.empty())
			return;
		if (type == w::SEARCHGW)
		{
			Exp e;
			e.bytes = w::sn(w::GWINFO, w::b1(cfg.gwId));
			dg[cfg.mcast].push_back(e);
			return;
		}
		if (type == w::ENCAPS)
		{
			int f = -1;
			for (size_t i = 0; i < cfg.fwds.size(); i++)
				if (cfg.fwds[i].addr == from)
					f = i;
			if (f < 0)
				return;
			size_t h = u8(d, 0);
			B node = d.substr(3, h - 3), inner = d.substr(h);
			if (!split(inner, type, body))
				return;
			Client* c = byNode(f, node);
			if (c && type == w::CONNECT && body.size() >= 4 && u8(body, 1) == 1 && body.substr(4) != c->id && !dev("connect-other-id"))
			{
				c->fwd = -1;		// another client is at this node now
				c = nullptr;
			}
			if (!c && type == w::CONNECT)
			{
				if (body.size() < 4 || u8(body, 1) != 1)
					return;
				B id = body.substr(4);
				c = byClientId(id);
				if (!c && !cfg.auth)
					c = create(id, Addr { 0, 0 });
				if (!c)
					return;
				c->fwd = f;
				c->node = node;
			}
			if (c)
				fromClient(*c, type, body);
			return;
		}
		for (auto& q : cfg.qosm1s)
			if (q.addr == from)
			{
				Client* p = byClientId("GW_QoS-1");
				if (type == w::PUBLISH && (u8(body, 0) >> 5 & 3) == 3 && p->st != DISC)
					onPublish(*byAddr(from), body, p);
				return;
			}
		Client* c = byAddr(from);
		if (c && type == w::CONNECT && body.size() >= 4 && u8(body, 1) == 1 && body.substr(4) != c->id && !dev("connect-other-id"))
		{
			if (cfg.auth)
				return;
			c->addr = Addr { 0, 0 };		// another client has this address now
			c = nullptr;
		}
		if (!c)
		{
			if (type != w::CONNECT || body.size() < 4 || u8(body, 1) != 1)
				return;
			B id = body.substr(4);
			c = byClientId(id);
			if (c)
			{
				if (cfg.auth && !(c->addr == from))
					return;		// a listed client may only come from its own address
				c->addr = from;
				c->fwd = -1;
			}
			else if (!cfg.auth)
				c = create(id, from);
			if (!c)
				return;
		}
		fromClient(*c, type, body);
	}
	Client* create(const B& id, const Addr& a)
	{
		if ((int) cl.size() + (cfg.qosm1 ? 1 : 0) >= cfg.maxClients)	// the proxy is two clients
			return nullptr;
		Client n;
		n.id = id;
		n.addr = a;
		cl.push_back(n);
		return &cl.back();
	}
	static bool split(const B& d, int& type, B& body)
	{
		if (d.size() < 2)
			return false;
		size_t n = u8(d, 0), o = 1;
		if (n == 1)
		{
			if (d.size() < 4)
				return false;
			n = u16(d, 1);
			o = 3;
		}
		type = u8(d, o);
		if (type == w::ENCAPS)
			return o == 1 && n >= 3 && n <= d.size();
		if (n != d.size() || n <= o)
			return false;
		body = d.substr(o + 1);
		size_t least = 0;
		switch (type)
		{
		case w::SEARCHGW: least = 1; break;
		case w::CONNECT: case w::REGISTER: least = 4; break;
		case w::REGACK: case w::PUBLISH: case w::PUBACK: least = 5; break;
		case w::PUBREC: case w::PUBREL: case w::PUBCOMP: least = 2; break;
		case w::SUBSCRIBE: case w::UNSUBSCRIBE: least = 3; break;
		}
		if (body.size() < least || (type == w::CONNECT && u8(body, 1) != 1))
			return false;
		if ((type == w::PUBLISH || type == w::SUBSCRIBE || type == w::UNSUBSCRIBE) && (body[0] & 3) == 3)
			return false;
		// there is no NUL in names
		size_t str = type == w::CONNECT || type == w::REGISTER ? 4 : type == w::WILLTOPIC || type == w::WILLTOPICUPD ? 1 :
			(type == w::SUBSCRIBE || type == w::UNSUBSCRIBE) && body.size() && (body[0] & 3) != w::PREDEF ? 3 : B::npos;
		if (str < body.size() && body.find('\0', str) != B::npos)
			return false;
		return true;
	}

	void fromClient(Client& c, int type, const B& b)
	{
		if (c.st == DISC && type != w::CONNECT && !(type == w::WILLTOPIC && (c.waitTopic || c.waitMsg)) && !(type == w::WILLMSG && c.waitMsg))
		{
			if (racing && ended.count(c.id) && choose())
				return;
			toClient(c, w::disconnect());
			for (auto& d : dg)
				if (racing && !d.second.empty() && d.first == (c.fwd >= 0 ? cfg.fwds[c.fwd].addr : c.addr))
					d.second.back().early = true;
			return;
		}
		std::deque<B> wake;
		bool wakePing = false;
		St before = c.st;
		switch (type)
		{
		case w::CONNECT:
			if (b.size() < 4 || u8(b, 1) != 1)
				return;
			if (c.st == ASLEEP || c.st == AWAKE)
			{
				toClient(c, w::connack(0));
				wake.swap(c.stored);
				break;
			}
			onConnect(c, b);
			break;
		case w::WILLTOPIC:
			if (!(c.waitTopic || c.waitMsg))
				return;
			// a packet without flags stands for flags of 0 and an empty topic
			c.con.willTopic = b.empty() ? B() : b.substr(1);
			c.con.willQos = b.empty() ? 0 : u8(b, 0) >> 5 & 3;
			c.con.willRetain = b.empty() ? 0 : u8(b, 0) >> 4 & 1;
			c.waitTopic = false;
			c.waitMsg = true;
			toClient(c, w::sn(w::WILLMSGREQ, ""));
			break;
		case w::WILLMSG:
			if (!c.waitMsg)
				return;
			c.con.willMsg = b;
			c.waitMsg = false;
			toBroker(c, w::m::connect(c.con));
			break;
		case w::DISCONNECT:
		{
			int dur = b.size() == 2 ? u16(b, 0) : 0;
			if (before == ACTIVE || before == ASLEEP || before == AWAKE)
				c.st = dur ? ASLEEP : c.st;
			if (dur == 0)
			{
				toBroker(c, w::m::disconnect());
				if (before != CONNECTING)
					disconnected(c);
			}
			toClient(c, w::disconnect());
			return;
		}
		case w::WILLTOPICUPD:
			toClient(c, w::sn(w::WILLTOPICRESP, w::b1(3)));
			break;
		case w::WILLMSGUPD:
			toClient(c, w::sn(w::WILLMSGRESP, w::b1(3)));
			break;
		case w::PINGREQ:
			if ((c.st == ASLEEP || c.st == AWAKE) && !c.stored.empty())
			{
				wake.swap(c.stored);
				wakePing = true;
			}
			else
			{
				c.hold = false;
				toBroker(c, w::m::pingreq());
			}
			break;
		case w::PUBLISH:
			onPublish(c, b);
			break;
		case w::PUBACK:
			if (c.st == ACTIVE && b.size() >= 5 && u8(b, 4) == 0)
				toBroker(c, w::m::ack(w::m::PUBACK, u16(b, 2)));
			break;
		case w::PUBREC:
		case w::PUBREL:
		case w::PUBCOMP:
			if (c.st == ACTIVE && b.size() >= 2)
				toBroker(c, w::m::ack(type == w::PUBREC ? w::m::PUBREC : type == w::PUBREL ? w::m::PUBREL : w::m::PUBCOMP, u16(b, 0)));
			break;
		case w::REGISTER:
			if ((c.st == ACTIVE || c.st == AWAKE) && b.size() >= 4)
				onRegister(c, u16(b, 2), b.substr(4));
			break;
		case w::REGACK:
			if ((c.st == ACTIVE || c.st == AWAKE) && b.size() >= 5)
				onRegack(c, u16(b, 2), u8(b, 4));
			break;
		case w::SUBSCRIBE:
		case w::UNSUBSCRIBE:
			onSubscribe(c, type, b);
			break;
		default:
			break;
		}
		if ((before == ASLEEP || before == AWAKE) && c.st != DISC)
		{
			if (type == w::CONNECT)
				c.st = ACTIVE;
			else if (type == w::PINGREQ)
				c.st = AWAKE;
			else if (type == w::PINGRESP)
				c.st = ASLEEP;
		}
		// kept messages are now handled as if they arrived in the new state
		for (auto& p : wake)
			fromBroker(c, p);
		if (wakePing)
		{
			// the wake-up is concluded after the last message, or after its REGACK
			if (c.held.empty())
			{
				c.hold = false;
				toBroker(c, w::m::pingreq());
			}
			else
				c.hold = true;
		}
	}

	void onConnect(Client& c, const B& b)
	{
		int f = u8(b, 0);
		disconnected(c);
		c.con = w::m::Con();
		c.con.id = c.id;
		c.con.version = cfg.version;
		c.con.keep = u16(b, 2);
		c.con.will = f >> 3 & 1;
		c.con.hasUser = cfg.hasUser;
		c.con.hasPass = cfg.hasPass;
		c.con.user = cfg.user;
		c.con.pass = cfg.pass;
		c.con.clean = c.clean = f >> 2 & 1;
		if (c.clean)
		{
			c.subs.clear();
			c.pubs.clear();
			c.stored.clear();
			c.held.clear();
			c.hold = false;
			eraseNormal(c);
		}
		if (c.con.will)
		{
			c.waitTopic = true;
			toClient(c, w::sn(w::WILLTOPICREQ, ""));
		}
		else
			toBroker(c, w::m::connect(c.con));
	}
	static void eraseNormal(Client& c)
	{
		std::vector<Topic> t;
		for (auto& x : c.topics)
			if (x.type == w::PREDEF)
				t.push_back(x);
		c.topics = t;
	}
	const Predef* common(int id)
	{
		for (auto& p : cfg.predef)
			if (p.client == "*" && p.id == id)
				return &p;
		return nullptr;
	}
	Topic* addTopic(Client& c, const B& name, int id)
	{
		Topic* t = c.byName(name);
		if (t)
			return t;
		if ((int) c.topics.size() >= MAX_TOPICS)
			return nullptr;
		c.topics.push_back({ id ? w::PREDEF : w::NORMAL, id, name });
		return &c.topics.back();
	}

	void onPublish(Client& c, const B& b, Client* via = nullptr)
	{
		if (b.size() < 5)
			return;
		int f = u8(b, 0), qos = f >> 5 & 3, tt = f & 3, tid = u16(b, 1), mid = u16(b, 3);
		B topic;
		if (tt == 3 || (tt == w::NORMAL && qos == 3))
			return;
		if (tt == w::SHORT)
			topic = b.substr(1, 2);
		else
		{
			Topic* t = c.byId(tt, tid);
			if (!t && tt == w::PREDEF)
			{
				const Predef* p = common(tid);
				if (p)
					t = addTopic(c, p->name, p->id);
			}
			if (t && t->name.find_first_of("+#") != B::npos)
				t = nullptr;		// nothing can be published to a filter
			if (!t && qos == 3)
				return;
			if ((qos == 0 || qos == 3) && mid)
				return;
			if (!t)
			{
				toClient(c, w::puback(tid, mid, 2));
				return;
			}
			topic = t->name;
		}
		if (mid && (qos == 1 || qos == 2) && (int) c.pubs.size() < MAX_WAIT)
			c.pubs[mid] = { tid, "" };
		toBroker(via ? *via : c, w::m::publish(f >> 7, qos == 3 ? 0 : qos, f >> 4 & 1, topic, mid, b.substr(5)));
	}
	void onRegister(Client& c, int mid, const B& name)
	{
		Topic* t = addTopic(c, name, 0);
		if (!t)
		{
			toClient(c, w::regack(0, mid, 1));	// congestion
			return;
		}
		toClientTid(c, w::regack(0, mid, 0), 2, name);
	}
	void deliver(Client& c, const Held& h)
	{
		Topic* t = c.byName(h.topic);
		int tt = t ? t->type : w::NORMAL;
		B p = w::publish(h.dup, h.qos, h.retain, tt, w::b2(0), h.msgId, h.payload);
		toClientTid(c, p, p[0] == 1 ? 5 : 3, h.topic);
	}
	void onRegack(Client& c, int mid, int rc)
	{
		for (size_t i = 0; i < c.held.size(); i++)
			if (c.held[i].mid == mid)
			{
				Held h = c.held[i];
				c.held.erase(c.held.begin() + i);
				if (rc == 0)
					deliver(c, h);
				break;
			}
		if (c.hold && c.held.empty())
		{
			c.hold = false;
			toBroker(c, w::m::pingreq());
		}
	}
	void onSubscribe(Client& c, int type, const B& b)
	{
		if (b.size() < 3)
			return;
		int f = u8(b, 0), qos = f >> 5 & 3, tt = f & 3, mid = u16(b, 1);
		B rest = b.substr(3), topic;
		if (mid == 0 || (tt != w::NORMAL && rest.size() < 2) || tt == 3)
			return;
		bool sub = type == w::SUBSCRIBE;
		SubWait sw { -1, "" };
		if (tt == w::SHORT)
		{
			topic = rest.substr(0, 2);
			sw.tid = u16(rest, 0);
		}
		else if (tt == w::PREDEF)
		{
			int id = u16(rest, 0);
			Topic* t = c.byId(tt, id);
			if (!t && sub)
			{
				const Predef* p = common(id);
				if (p)
					t = addTopic(c, p->name, p->id);
			}
			if (!t)
			{
				toClient(c, sub ? w::suback(qos, id, mid, 2) : w::ack(w::UNSUBACK, mid));
				return;
			}
			topic = t->name;
			sw.name = topic;
		}
		else
		{
			topic = rest;
			Topic* t = sub ? addTopic(c, topic, 0) : c.byName(topic);
			if (!t)
			{
				toClient(c, sub ? w::suback(qos, 0, mid, 2) : w::ack(w::UNSUBACK, mid));
				return;
			}
			sw.name = topic;
			if (topic.find_first_of("+#") != B::npos)
				sw.tid = 0;
		}
		if (sub)
		{
			if ((int) c.subs.size() < MAX_WAIT)
				c.subs[mid] = sw;
			toBroker(c, w::m::subscribe(mid, topic, qos));
		}
		else
			toBroker(c, w::m::unsubscribe(mid, topic));
	}

	// ---- the broker ------------------------------------------------------------------------------
	int within()		// the connection which is within a packet, or -1
	{
		for (auto& c : cl)
			if (c.conn >= 0 && !c.rx.empty())
				return c.conn;
		return -1;
	}
	// whatever the broker sends, cut anywhere
	void brokerBytes(int conn, const B& d)
	{
		int w = within();
		bool between = false;
		if (w >= 0 && w != conn && (!late.empty() || dev("broker-stall")))
			late.push_back({ conn, d, false });
		else
			between = take(conn, d);
		lately(between);
	}
	void brokerClose(int conn)
	{
		int w = within();
		if (w >= 0 && w != conn && (!late.empty() || dev("broker-stall")))
			late.push_back({ conn, "", true });
		else
			closed(conn);
		lately(false);
	}
	// between two packets of the connection the others may be read
	void lately(bool between)
	{
		while (!late.empty())
		{
			int w = within();
			if (w >= 0 && w != late.front().conn && !(between && choose()))
				return;
			Late l = late.front();
			late.pop_front();
			if (l.close)
				closed(l.conn);
			else
				take(l.conn, l.data);
		}
	}
	void closed(int conn)
	{
		Client* c = byConn(conn);
		if (!c)
			return;
		closeConn(*c);
		disconnected(*c);
	}
	bool take(int conn, const B& d)		// was there a whole packet?
	{
		Client* c = byConn(conn);
		if (!c)
			return false;
		std::vector<B> ps;
		B rx = c->rx + d;
		bool bad = false;
		while (!bad && rx.size() >= 2)
		{
			size_t i = 1, n = 0;
			for (; i < 4 && i < rx.size(); i++)
			{
				n |= (size_t) (u8(rx, i) & 127) << 7 * (i - 1);
				if (!(u8(rx, i) & 128))
					break;
			}
			if (i == rx.size())
				break;
			if (i == 4)
				bad = true;		// no packet is that long
			else if (rx.size() < i + 1 + n)
				break;
			else if (!wellFormed(rx.substr(0, i + 1 + n), i + 1))
				bad = true;
			else
			{
				ps.push_back(rx.substr(0, i + 1 + n));
				rx.erase(0, i + 1 + n);
			}
		}
		c->rx = bad ? "" : rx;
		// the connection may be given up before what came together with the damaged packet is handled
		int ci = index(c), given = 0;
		auto giveUp = [&]() {
			if (given == 0)
				closeConn(cl[ci]);
			else
				disconnected(cl[ci]);
			given++;
		};
		for (auto& p : ps)
		{
			while (bad && given < 2 && choose())
				giveUp();
			fromBroker(cl[ci], p);
		}
		while (bad && given < 2)
			giveUp();
		return !ps.empty();
	}
	static bool wellFormed(const B& p, size_t h)
	{
		size_t n = p.size() - h;
		int qos = u8(p, 0) >> 1 & 3;
		switch (u8(p, 0) >> 4)
		{
		case w::m::CONNACK: case w::m::PUBACK: case w::m::PUBREC: case w::m::PUBREL: case w::m::PUBCOMP: case w::m::UNSUBACK:
			return n >= 2;
		case w::m::SUBACK:
			return n >= 3;
		case w::m::PUBLISH:
			return qos < 3 && n >= 2 && u16(p, h) > 0 && n >= 2 + (size_t) u16(p, h) + (qos ? 2 : 0) && p.substr(h + 2, u16(p, h)).find('\0') == B::npos;
		}
		return true;
	}
	static B mqBody(const B& p)
	{
		size_t i = 1;
		while (u8(p, i) & 128)
			i++;
		return p.substr(i + 1);
	}
	void fromBroker(Client& c, const B& p)
	{
		int type = u8(p, 0) >> 4;
		B b = mqBody(p);
		switch (type)
		{
		case w::m::CONNACK:
		{
			int rc = u8(b, 1);
			toClient(c, w::connack(rc == 0 ? 0 : rc == 3 ? 1 : rc <= 5 ? 3 : 3));
			if (rc == 0)
				c.st = ACTIVE;
			else
				disconnected(c);
			break;
		}
		case w::m::PINGRESP:
			toClient(c, w::pingresp());
			if (c.st == AWAKE)
				c.st = ASLEEP;
			break;
		case w::m::PUBLISH:
			brokerPublish(c, p, b);
			break;
		case w::m::PUBACK:
		{
			int mid = u16(b, 0);
			auto it = c.pubs.find(mid);
			if (it != c.pubs.end())
			{
				toClient(c, w::puback(it->second.tid, mid, 0));
				c.pubs.erase(it);
			}
			break;
		}
		case w::m::PUBREC:
		case w::m::PUBREL:
		case w::m::PUBCOMP:
			if (c.st == ACTIVE || c.st == AWAKE)
				toClient(c, w::ack(type == w::m::PUBREC ? w::PUBREC : type == w::m::PUBREL ? w::PUBREL : w::PUBCOMP, u16(b, 0)));
			else if (c.st == ASLEEP && type == w::m::PUBREL)
				toBroker(c, w::m::ack(w::m::PUBCOMP, u16(b, 0)));
			break;
		case w::m::SUBACK:
		{
			int mid = u16(b, 0), rc = u8(b, 2);
			auto it = c.subs.find(mid);
			if (it == c.subs.end())
				break;
			SubWait s = it->second;
			c.subs.erase(it);
			B out = w::suback(rc == 0x80 ? 0 : rc, 0, mid, rc == 0x80 ? 2 : 0);
			if (s.tid >= 0)
			{
				out[3] = s.tid >> 8;
				out[4] = s.tid;
				toClient(c, out);
			}
			else
				toClientTid(c, out, 3, s.name);
			break;
		}
		case w::m::UNSUBACK:
			toClient(c, w::ack(w::UNSUBACK, u16(b, 0)));
			break;
		default:
			break;
		}
	}
	void brokerPublish(Client& c, const B& p, const B& b)
	{
		if (c.st != ACTIVE && c.st != ASLEEP && c.st != AWAKE)
			return;
		int f = u8(p, 0) & 15, qos = f >> 1 & 3;
		size_t tl = u16(b, 0);
		B topic = b.substr(2, tl);
		Held h;
		h.dup = f >> 3;
		h.qos = qos;
		h.retain = f & 1;
		h.topic = topic;
		h.msgId = qos ? u16(b, 2 + tl) : 0;
		h.payload = b.substr(2 + tl + (qos ? 2 : 0));
		auto ack = [&]() {
			if (qos == 1)
				toBroker(c, w::m::ack(w::m::PUBACK, h.msgId));
			else if (qos == 2)
				toBroker(c, w::m::ack(w::m::PUBREC, h.msgId));
		};
		if (h.payload.size() + 9 > 1024 || topic.size() + 8 > 1024)
		{
			ack();		// no MQTT-SN packet can carry it
			return;
		}
		if (c.st == ASLEEP)
		{
			ack();
			if ((int) c.stored.size() < MAX_STORED)
				c.stored.push_back(p);
			return;
		}
		if (tl == 2)
		{
			toClient(c, w::publish(h.dup, qos, h.retain, w::SHORT, topic, h.msgId, h.payload));
			return;
		}
		Topic* t = c.byName(topic);
		if (t)
		{
			// a topic whose REGISTER is not answered yet is not used
			bool pending = false;
			for (auto& x : c.held)
				if (x.topic == topic)
					pending = true;
			if (!pending || dev("publish-before-regack"))
			{
				deliver(c, h);
				return;
			}
			h.mid = -1;
			for (auto& x : c.held)
				if (x.topic == topic)
					h.mid = x.mid;
			c.held.push_back(h);
			return;
		}
		bool m = false;
		for (auto& x : c.topics)
			if (matches(x.name, topic))
				m = true;
		if (!m && c.clean)
		{
			ack();
			return;
		}
		t = addTopic(c, topic, 0);
		if (!t)
			return;
		// REGISTER with a message id the gateway chooses, then wait for its REGACK
		size_t idx = c.held.size();
		h.mid = 0;
		c.held.push_back(h);
		int ci = index(&c);
		// the topic id is a new one: both it and the message id are adopted
		B reg = w::reg(0, 0, topic);
		int off = reg[0] == 1 ? 4 : 2;
		toClient(c, reg, off, [ci, topic, idx](Model& m, int packed) -> std::string {
			Client& c = m.cl[ci];
			int id = packed >> 16 & 0xffff, mid = packed & 0xffff;
			if (id == 0 || id == 0xffff)
				return v::fmt("topic id %d given for %s", id, w::txt(topic).c_str());
			for (auto& t : c.topics)
				if (t.type == w::NORMAL && t.id == id && t.name != topic)
					return v::fmt("topic id %d given for %s already stands for %s", id, w::txt(topic).c_str(), w::txt(t.name).c_str());
			Topic* t = c.byName(topic);
			if (t)
				t->id = id;
			for (auto& h : c.held)
				if (h.mid == mid)
					return v::fmt("message id %d used for two outstanding REGISTERs", mid);
			for (auto& h : c.held)
				if (h.topic == topic && h.mid <= 0)
					h.mid = mid;
			return "";
		});
		dg[c.fwd >= 0 ? cfg.fwds[c.fwd].addr : c.addr].back().hole = -2 - dg[c.fwd >= 0 ? cfg.fwds[c.fwd].addr : c.addr].back().hole;	// four-byte hole
	}

	// ---- comparison ------------------------------------------------------------------------------
	static std::string one(Model& m, const Exp& e, const B& a)
	{
		int off = e.hole, n = 2;
		if (off <= -2)
			off = -2 - off, n = 4;
		if (off < 0)
			return e.bytes == a ? "" : "differs";
		if (e.bytes.size() != a.size())
			return "differs";
		B x = a, y = e.bytes;
		unsigned val = 0;
		for (int i = 0; i < n; i++)
			val = val << 8 | u8(a, off + i), x[off + i] = y[off + i] = 0;
		if (x != y)
			return "differs";
		return e.adopt ? e.adopt(m, (int) val) : "";
	}
	std::string show(const std::map<Addr, std::string>& names) const
	{
		std::string o;
		for (auto& d : dg)
			for (auto& e : d.second)
			{
				auto n = names.find(d.first);
				o += " ->" + (n == names.end() ? gw::show(d.first) : n->second) + " " + w::showSn(e.bytes) + (e.hole != -1 ? "(ids free)" : "");
			}
		for (auto& c : broker)
			for (auto& b : c.second)
				o += v::fmt(" ->broker %d:", c.first) + (b[0] == 'D' ? w::showMq(b.substr(1)) : b[0] == 'O' ? "open" : b[0] == 'C' ? "close" : "refused");
		return o.empty() ? " nothing" : o;
	}
	// "" if the observation is the predicted one
	std::string compare(const gw::Seen& s)
	{
		std::string bad;
		std::set<Addr> as;
		for (auto& d : dg)
			as.insert(d.first);
		for (auto& d : s.dg)
			as.insert(d.first);
		for (auto& a : as)
		{
			static const std::vector<Exp> noE;
			static const std::vector<B> noB;
			auto e = dg.find(a);
			auto g = s.dg.find(a);
			const std::vector<Exp>& ev = e == dg.end() ? noE : e->second;
			const std::vector<B>& gv = g == s.dg.end() ? noB : g->second;
			if (ev.size() != gv.size())
				return "another number of datagrams";
			std::vector<const Exp*> early, rest;
			for (auto& x : ev)
				(x.early ? early : rest).push_back(&x);
			size_t i = 0;
			for (auto& g : gv)
			{
				std::string r = i < rest.size() ? one(*this, *rest[i], g) : "differs";
				if (r.empty())
				{
					i++;
					continue;
				}
				if (early.empty() || early.front()->bytes != g)
					return r;
				early.erase(early.begin());
			}
		}
		std::map<int, std::vector<B>> got;
		for (auto& b : s.broker)
		{
			if (b[0] == 'F')
			{
				got[-1].push_back("F");
				continue;
			}
			int n = atoi(b.c_str() + 1);
			got[n].push_back(b[0] == 'D' ? "D" + b.substr(b.find(':') + 1) : b.substr(0, 1));
		}
		if (got != broker)
			return "broker side differs";
		return "";
	}
	void clearStep()
	{
		dg.clear();
		broker.clear();
	}
	std::string ser() const
	{
		std::string o;
		for (auto& c : cl)
		{
			o += v::fmt("[%s %x:%x %d %d%d%d%d c%d k%d w%d ", w::txt(c.id).c_str(), c.addr.ip, c.addr.port, c.st, c.waitTopic, c.waitMsg, c.clean, c.hold, c.conn < 0 ? 0 : failing.count(c.conn) ? 2 : 1,
					c.con.keep, c.con.will);
			if (c.con.will)
				o += w::txt(c.con.willTopic) + w::txt(c.con.willMsg);
			for (auto& t : c.topics)
				o += v::fmt("t%d/%d", t.type, t.id) + t.name;
			for (auto& x : c.subs)
				o += v::fmt("s%d/%d", x.first, x.second.tid) + x.second.name;
			for (auto& x : c.pubs)
				o += v::fmt("p%d/%d", x.first, x.second.tid);
			for (auto& x : c.stored)
				o += "q" + x;
			if (!c.rx.empty())
				o += "r" + c.rx;
			for (auto& x : c.held)
				o += v::fmt("h%d", x.mid) + x.topic + x.payload;
			o += "]";
		}
		for (auto& c : cl)
			if (c.proxy && c.st == CONNECTING)
				o += v::fmt("y%d", (int) (now - c.since) / 3000);
		for (auto& l : late)
			o += v::fmt("l%d", l.conn) + (l.close ? "C" : "D" + l.data);
		return o + (brokerUp ? "U" : "D");
	}
};

// The set of models which explain what was observed so far: normally one; more only where a recorded
// finding allows two behaviours.
struct Oracle
{
	std::vector<Model> ms;
	std::map<Addr, std::string> names;
	void init(const Cfg& c)
	{
		Model m;
		m.init(c);
		ms.push_back(m);
	}
	Model& m() { return ms[0]; }
	// feed `stimulus` to every model, keep those which predict what was seen
	bool step(const std::function<void(Model&)>& stimulus, const gw::Seen& seen, std::string& expected)
	{
		std::vector<Model> next;
		std::map<std::string, size_t> sers;
		for (auto& m0 : ms)
		{
			std::vector<bool> script;
			while (true)
			{
				Model m = m0;
				m.clearStep();
				m.script = &script;
				m.scriptPos = 0;
				stimulus(m);
				std::string text = m.show(names);
				if (m.compare(seen).empty())
				{
					m.clearStep();
					m.script = nullptr;
					std::string key = m.ser() + (m.devs.empty() ? "" : "*");
					for (auto& c : m.cl)
						if (c.proxy && c.st == CONNECTING)
							key += v::fmt("@%lld", (long long) c.since);
					auto at = sers.find(key);
					if (at == sers.end() && next.size() < 64)
					{
						sers[key] = next.size();
						next.push_back(m);
					}
					else if (at != sers.end() && m.checked > next[at->second].checked)
						next[at->second].checked = m.checked;	// the one which allows more
				}
				else if (expected.empty())
					expected = text;
				// next script
				while (!script.empty() && script.back())
					script.pop_back();
				if (script.empty())
					break;
				script.back() = true;
			}
		}
		if (next.empty())
			return false;
		// histories without recorded findings come first
		std::stable_sort(next.begin(), next.end(), [](const Model& a, const Model& b) { return a.devs.size() < b.devs.size(); });
		ms.swap(next);
		for (auto& d : ms[0].devs)
			ex::known(d);
		return true;
	}
	uint64_t hash() { return ex::hashStr(ms[0].ser()); }
};
} // namespace gwm
#endif
