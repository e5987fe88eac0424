// The whole gateway program (its own main and all its tasks) on the virtual operating system.
#ifndef GWENV_H
#define GWENV_H
#include "vos.h"
#include "wire.h"
#include "explore.h"
#include <arpa/inet.h>

extern int gateway_main(int, char**);

namespace gw
{
using w::B;
static const uint16_t PORT = 10000, MPORT = 1883;

struct Config
{
	std::vector<std::pair<std::string, std::string>> params;
	std::string clients, predefined;	// file contents
	bool raw = false;					// params are the whole file
	Config& set(const char* k, const std::string& val)
	{
		for (auto& p : params)
			if (p.first == k)
			{
				p.second = val;
				return *this;
			}
		params.push_back({ k, val });
		return *this;
	}
};
inline Config defaults()
{
	Config c;
	c.set("GatewayID", "1").set("GatewayName", "GW").set("KeepAlive", "60000").set("BrokerName", "broker").set("BrokerPortNo", "1883");
	c.set("BrokerSecurePortNo", "8883").set("GatewayPortNo", "10000").set("MulticastPortNo", "1883").set("MulticastIP", "225.1.1.1");
	c.set("MulticastTTL", "1").set("MaxNumberOfClients", "4").set("ClientsList", "clients.conf").set("PredefinedTopicList", "predefinedTopic.conf");
	return c;
}

extern std::string scratch;
inline void put(const char* name, const std::string& s)
{
	FILE* f = fopen(name, "w");
	fwrite(s.data(), 1, s.size(), f);
	fclose(f);
}

inline void deathCallback()
{
	static bool once = false;
	if (once)
		return;
	once = true;
	int z = 0;
	if (ex::S->claimed.compare_exchange_strong(z, 1))
	{
		snprintf(ex::S->what, sizeof ex::S->what, "invalid memory access or abort in the gateway (%s)", vos::fiberState().c_str());
		std::string t = ex::traceBody();
		snprintf(ex::S->trace, sizeof ex::S->trace, "%s", t.c_str());
	}
	ex::S->stop = 1;
	_exit(1);
}

struct Addr
{
	uint32_t ip;
	uint16_t port;		// network order
	bool operator<(const Addr& o) const { return ip != o.ip ? ip < o.ip : port < o.port; }
	bool operator==(const Addr& o) const { return ip == o.ip && port == o.port; }
};
inline Addr addr(const char* ip, int port)
{
	return { inet_addr(ip), htons(port) };
}
inline std::string show(const Addr& a)
{
	in_addr i = { a.ip };
	return v::fmt("%s:%d", inet_ntoa(i), ntohs(a.port));
}

static const int64_t SETTLE = 600000;

// no output of the code under test, and what it does wrong is a violation
inline void quiet()
{
	fflush(stdout);
	if (!getenv("GWLOG"))
	{
		int fd = open("/dev/null", O_WRONLY);
		dup2(fd, 1);
		if (!getenv("GWERR"))
			dup2(fd, 2);
	}
#if defined(__SANITIZE_ADDRESS__)
	__sanitizer_set_death_callback(deathCallback);
#endif
	vos::init();
	vos::onMisuse = [](const std::string& m) { ex::violation(m); };
}

// The files of the gateway; must be called in a forked process.
inline void prepare(const Config& c)
{
	if (chdir(scratch.c_str()) != 0)
	{
		perror("chdir");
		_exit(2);
	}
	std::string s;
	for (auto& p : c.params)
		s += p.first + "=" + p.second + "\n";
	put("gateway.conf", s);
	put("clients.conf", c.clients);
	put("predefinedTopic.conf", c.predefined);
	fflush(stdout);
	quiet();
}
// Runs the gateway with arguments: by default the prepared configuration's, { "" } for none.
inline void gateway_main_args(const std::vector<std::string>& args)
{
	static std::vector<std::string> a;
	a = { "MQTT-SNGateway" };
	if (args.empty())
		a.insert(a.end(), { "-f", scratch + "/gateway.conf" });
	for (auto& x : args)
		if (!x.empty())
			a.push_back(x);
	static std::vector<char*> p;
	p.clear();
	for (auto& x : a)
		p.push_back((char*) x.c_str());
	p.push_back(nullptr);
	gateway_main(a.size(), p.data());
}
inline char** argv()
{
	static std::string conf;
	conf = scratch + "/gateway.conf";
	static char* a[] = { (char*) "MQTT-SNGateway", (char*) "-f", (char*) conf.c_str(), nullptr };
	return a;
}
// The gateway's configuration is written anew, and it is started; the other files are left.
inline int launch(const Config& c)
{
	std::string s;
	for (auto& p : c.params)
		s += p.first + "=" + p.second + "\n";
	put("gateway.conf", s);
	int n = vos::spawn("main", []() { gateway_main(3, argv()); });
	vos::advance(SETTLE);
	return n;
}
// Starts the gateway.
inline int start(const Config& c)
{
	prepare(c);
	int n = vos::spawn("main", []() { gateway_main(3, argv()); });
	vos::advance(SETTLE);
	return n;
}

// What the gateway sent since the last call, per destination.
struct Seen
{
	std::map<Addr, std::vector<B>> dg;		// datagrams, in order, per destination
	std::vector<B> broker;					// "O<n>" opened, "F" refused, "D<n>:" packet, "C<n>" closed
};
inline Seen collect()
{
	Seen s;
	std::string pend;
	int pc = -1;
	auto flush = [&]() {
		if (pc >= 0)
			for (auto& p : w::m::split(pend))
				s.broker.push_back(v::fmt("D%d:", pc) + p);
		pend.clear();
		pc = -1;
	};
	for (auto& o : vos::outs)
	{
		if (o.kind == vos::Out::DGRAM)
		{
			s.dg[ { o.ip, o.port }].push_back(o.data);
			continue;
		}
		if (o.kind != vos::Out::DATA || o.conn != pc)
			flush();
		if (o.kind == vos::Out::DATA)
			pc = o.conn, pend += o.data;
		else
			s.broker.push_back(v::fmt(o.kind == vos::Out::OPEN ? "O%d" : o.kind == vos::Out::CLOSE ? "C%d" : "F", o.conn));
	}
	flush();
	vos::outs.clear();
	return s;
}
inline std::string showBroker(const B& b)
{
	size_t p = b.find(':');
	if (b[0] == 'D' && p != B::npos)
		return b.substr(0, p) + ":" + w::showMq(b.substr(p + 1));
	return b[0] == 'O' ? "open" + b.substr(1) : b[0] == 'C' ? "close" + b.substr(1) : "connect-refused";
}
inline std::string show(const Seen& s, const std::map<Addr, std::string>& names)
{
	std::string o;
	for (auto& d : s.dg)
		for (auto& p : d.second)
		{
			auto n = names.find(d.first);
			o += " ->" + (n == names.end() ? show(d.first) : n->second) + " " + w::showSn(p);
		}
	for (auto& b : s.broker)
		o += " ->broker " + showBroker(b);
	return o.empty() ? " nothing" : o;
}

inline void datagram(const Addr& from, const B& data, uint16_t port = PORT)
{
	vos::inject(port, from.ip, from.port, data);
}
inline void brokerSend(int conn, const B& data)
{
	vos::SockP s = vos::conn(conn);
	if (s)
		s->rx += data;
}
inline void settle()
{
	vos::advance(SETTLE);
}
} // namespace gw
#endif
