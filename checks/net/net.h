// Common part of the checks of the sensor network drivers: the driver under test runs in fibers of the
// virtual system, which provides the serial lines and sockets.
#include "MQTTSNGWProcess.h"
#include "SensorNetwork.h"
#undef CONNECT
#include "drive.h"
#include "schedule.h"
#include <algorithm>
std::string gw::scratch;
gwd::World gwd::W;
using gwd::Scn;
using w::B;
typedef std::vector<Scn> Scns;
extern "C" int _Z12gateway_mainiPPc(int, char**) { return 0; }

struct Conf : public MQTTSNGW::Process
{
	void initialize(int argc, char** argv) { MQTTSNGW::Process::initialize(argc, argv); }
};
inline B hex(const B& s)
{
	B o;
	for (unsigned char c : s)
		o += v::fmt("%02x", c);
	return o.size() > 120 ? o.substr(0, 120) + v::fmt("... (%zu bytes)", s.size()) : o;
}
struct Got
{
	B data;
	MQTTSNGW::SensorNetAddress from;
};
static MQTTSNGW::SensorNetwork* net;
static std::deque<Got> got;
static std::vector<B> steps;		// what has been done, for the trace
static long readCalls;

static void step(const B& s)
{
	ex::S->transitions++;
	steps.push_back(s.substr(0, 300));
	if (steps.size() > 12)
		steps.erase(steps.begin());
	ex::traceText = steps;
}
static void openNet(const B& conf)
{
	if (chdir(gw::scratch.c_str()))
		_exit(2);
	gw::put("gateway.conf", conf);
	auto* p = new Conf();
	MQTTSNGW::theProcess = p;
	vos::spawn("main", [p]() {
		p->initialize(3, gw::argv());
		net = new MQTTSNGW::SensorNetwork();
		net->initialize();
	});
	vos::quiesce();
	if (!net)
		ex::violation("the sensor network could not be opened");
}
// the gateway's receiving task
static void startReader(int bufLen = 1024)
{
	vos::spawn("reader", [bufLen]() {
		while (true)
		{
			char* buf = new char[bufLen];		// exactly as large as announced
			memset(buf, 'Z', bufLen);
			readCalls++;
			int n = net->read((uint8_t*) buf, bufLen);
			if (n > bufLen)
				ex::violation(v::fmt("read returned %d for a buffer of %d bytes", n, bufLen));
			if (n > 0)
			{
				Got g;
				g.data.assign(buf, n);
				g.from = *net->getSenderAddress();
				got.push_back(g);
			}
			delete[] buf;
			vos::yieldPoint("read");
		}
	});
	vos::quiesce();
}
// a call of unicast or broadcast in a thread of its own
struct Call
{
	int rc = -99, fiber = -1;
	int64_t began = 0, ended = 0;
	bool done() const { return rc != -99; }
};
static std::shared_ptr<Call> call(std::function<int()> f)
{
	auto c = std::make_shared<Call>();
	c->began = vos::nowUs();
	c->fiber = vos::spawn("sender", [c, f]() {
		int rc = f();
		c->ended = vos::nowUs();
		c->rc = rc;
	});
	return c;
}
// what was written to connection n since the last call
static B written(int n)
{
	B o;
	for (auto& x : vos::outs)
		if (x.kind == vos::Out::DATA && x.conn == n)
			o += x.data;
	vos::outs.clear();
	return o;
}
// the same bytes in a buffer of exactly this size
struct Exact
{
	uint8_t* p;
	size_t n;
	Exact(const B& s) : p(new uint8_t[s.size() + !s.size()]), n(s.size()) { memcpy(p, s.data(), n); }
	~Exact() { delete[] p; }
};
#define NET_MAIN(...) \
static const struct \
{ \
	const char* id; \
	Scns (*make)(); \
} CHECKS[] = { __VA_ARGS__ }; \
static const std::vector<std::string> ASSUMPTIONS = { \
	"the compiled driver is run, with threads, time, serial lines and sockets provided by lib/vos.cpp; tcsetattr with TCSAFLUSH discards what has arrived and was not read" };
