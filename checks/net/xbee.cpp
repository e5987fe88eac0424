// X01: the XBee driver.
#include "net.h"
using MQTTSNGW::SensorNetAddress;
static int mode;

static B esc(const B& frame)		// all but the start byte
{
	if (mode != 2)
		return frame;
	B o(1, frame[0]);
	for (size_t i = 1; i < frame.size(); i++)
		if (strchr("\x7e\x7d\x11\x13", frame[i]) && frame[i])
			o += B("\x7d") + (char) (frame[i] ^ 0x20);
		else
			o += frame[i];
	return o;
}
static B frame(const B& data, int sumOff = 0, int len = -1)
{
	if (len < 0)
		len = data.size();
	unsigned char sum = 0;
	for (unsigned char c : data)
		sum += c;
	return esc("\x7e" + w::b2(len) + data + (char) (0xff - sum + sumOff));
}
static const B a64a("\x00\x13\xa2\x00\x40\x0a\x7e\x11", 8), a64b("\x00\x13\xa2\x00\x40\x0a\x7d\x13", 8), a16a("\xff\xfe", 2), a16b("\x12\x7e", 2);
static B rx(const B& payload, const B& a64 = a64a, const B& a16 = a16a, int options = 1)
{
	return B("\x90") + a64 + a16 + w::b1(options) + payload;
}
static B status(int id, int code) { return B("\x8b") + w::b1(id) + B("\xff\xfe\x00", 3) + w::b1(code) + B(1, '\0'); }
static SensorNetAddress addrOf(const B& a64, const B& a16)
{
	SensorNetAddress a;
	a.setAddress((uint8_t*) a64.data(), (uint8_t*) a16.data());
	return a;
}
struct El
{
	B name, bytes;
	bool gives = false;
	B payload, a64, a16;
	bool pause = false;			// only followed by silence
};
static El good(const B& name, const B& payload, const B& a64 = a64a, const B& a16 = a16a, int opt = 1)
{
	El e { name, frame(rx(payload, a64, a16, opt)), true, payload, a64, a16 };
	e.gives = !payload.empty();
	return e;
}
static El bad(const B& name, const B& bytes)
{
	El e { name, bytes };
	e.pause = true;
	return e;
}
static El other(const B& name, const B& data) { return { name, frame(data) }; }
static std::vector<El> elements()
{
	B all;
	for (int i = 0; i < 256; i++)
		all += (char) i;
	B f = frame(rx("hello"));
	// a frame whose checksum is its last byte once more
	B same;
	for (int x = 0; x < 256; x++)
		for (int y = 32; y < 34 && same.empty(); y++)
		{
			B d = rx(B("last") + (char) y + (char) x);
			unsigned char sum = 0;
			for (unsigned char c : d)
				sum += c;
			if (0xff - sum == x)
				same = frame(d);
		}
	if (same.empty() || same[same.size() - 1] != same[same.size() - 2])
		abort();
	return {
		good("packet", "\x03\x16\x01"),
		good("packet of another node", B("\x02\x7e\x7d", 3), a64b, a16b, 0),
		good("packet of the other 16 bit address", "ab", a64a, a16b),
		good("broadcast packet", "xy", a64a, a16a, 2),
		good("longest packet", all.substr(0, 243)),
		good("packet without payload", ""),
		other("transmit status", status(9, 0)),
		other("transmit status, not delivered", status(1, 0x24)),
		other("modem status", B("\x8a\x06", 2)),
		other("remote command response", B("\x97\x01", 2) + a64a + a16a + "D0" + B(1, '\0')),
		other("short receive frame", rx("").substr(0, 11)),
		other("receive frame of its type only", "\x90"),
		other("status frame of its type only", "\x8b"),
		other("short status frame", status(1, 0).substr(0, 5)),
		other("frame without data", ""),
		{ "noise", "abc\x12" },
		bad("wrong checksum", frame(rx("hello"), 1)),
		bad("wrong checksum by -1", frame(rx("hello"), -1)),
		bad("longest frame with wrong checksum", frame(rx(all.substr(0, 243)), 7)),
		bad("start byte only", f.substr(0, 1)),
		bad("cut in its length", f.substr(0, 2)),
		bad("cut after its length", f.substr(0, 3)),
		bad("cut in its address", f.substr(0, 9)),
		bad("without checksum", f.substr(0, f.size() - 1)),
		bad("without checksum, which is its last byte", same.substr(0, same.size() - 1)),
		bad("cut in an escape", mode == 2 ? B("\x7e\x00\x7d", 3) : f.substr(0, 4)),
		bad("length above 255", frame(rx(B(300, 'x')))),
		bad("length of 256 bytes", frame(rx(B(244, 'x')))),
		bad("length above 255 with a short frame", esc("\x7e" + w::b2(256 + 14)) + frame(rx("no")).substr(3)),
		bad("length below that of the frame", frame(rx("hello"), 0, 13)),
	};
}
static void expect(const El& e, const B& when)
{
	ex::noteState(ex::hashStr(e.name + when));
	if (!e.gives)
	{
		if (!got.empty())
			ex::violation(e.name + when + " was taken for the packet " + hex(got[0].data));
		return;
	}
	if (got.empty())
		ex::violation(e.name + when + " was not received");
	if (got[0].data != e.payload)
		ex::violation(e.name + when + " was received as " + hex(got[0].data) + " instead of " + hex(e.payload));
	SensorNetAddress a = addrOf(e.a64, e.a16);
	if (!got[0].from.isMatch(&a))
		ex::violation(e.name + when + " was received from another address");
	char t[64];
	got[0].from.sprint(t);
	B want;
	for (unsigned char c : e.a64)
		want += v::fmt("%02X", c);
	if (want != t)
		ex::violation(e.name + when + ": its address is shown as " + t);
	got.pop_front();
}
static void arrive(const B& b) { vos::tty(1)->rx += b; }
static void probe(const B& after)
{
	El p = good("a packet", "probe");
	arrive(p.bytes);
	vos::advance(700000);
	expect(p, " after " + after);
	if (!got.empty())
		ex::violation("after " + after + ": another packet " + hex(got[0].data));
}
static void openXbee()
{
	openNet(v::fmt("ApiMode=%d\nBaudrate=%s\nSerialDevice=/dev/vtty1\n", mode, mode == 2 ? "9600" : "115200"));
	vos::SockP t = vos::tty(1);
	if (!t || (t->oflag & OPOST) || (t->lflag & (ICANON | ECHO | ISIG)) || (t->iflag & (IXON | IXOFF | ICRNL | INLCR | ISTRIP)) || (t->cflag & CSIZE) != CS8)
		ex::violation("the serial line is not opened for all bytes as they are");
	startReader();
}
static void seqs(const std::vector<El>& es, int first, int depth)
{
	std::function<void(std::vector<int>)> rec = [&](std::vector<int> seq) {
		if (ex::over())
			return;
		// once all at once up to where silence is needed, once with silence after each
		for (int slow = 0; slow < 2; slow++)
		{
			B name;
			for (int i : seq)
				name += (name.empty() ? "" : ", ") + es[i].name;
			step(name + (slow ? " (pauses)" : ""));
			size_t k = 0;
			for (size_t i = 0; i < seq.size(); i++)
			{
				arrive(es[seq[i]].bytes);
				if (!slow && !es[seq[i]].pause && i + 1 < seq.size())
					continue;
				vos::advance(es[seq[i]].pause ? 1600000 : 700000);
				for (; k <= i; k++)
					if (es[seq[k]].gives)
						expect(es[seq[k]], " in: " + name);
				if (!got.empty())
					ex::violation("in " + name + ": the packet " + hex(got[0].data) + " came from nowhere");
			}
			probe(name);
			ex::S->histories++;
		}
		if ((int) seq.size() < depth)
			for (size_t i = 0; i < es.size(); i++)
			{
				auto s = seq;
				s.push_back(i);
				rec(s);
			}
	};
	rec({ first });
}
// what unicast must write
static B request(int id, const B& payload, const B& a64, const B& a16)
{
	return frame("\x10" + w::b1(id) + a64 + a16 + B(2, '\0') + payload);
}
static int lastId;
// one packet is sent; the module answers as told
struct Answer
{
	B name;
	std::vector<std::pair<int, std::pair<int, int>>> what;	// after ms: status code, for: 0 this frame, 1 the one before, 2 the next
	bool ok;
	int late = -1;			// ms after which its status comes, when it is not waited for any more
};
static std::vector<Answer> answers()
{
	return {
		{ "confirmed", { { 20, { 0, 0 } } }, true },
		{ "confirmed after 4.5 s", { { 4500, { 0, 0 } } }, true },
		{ "not delivered", { { 20, { 0x21, 0 } } }, false },
		{ "no status", {}, false },
		{ "status of the frame before, then confirmed", { { 20, { 0, 1 } }, { 20, { 0, 0 } } }, true },
		{ "failure of the frame before, then confirmed", { { 20, { 0x24, 1 } }, { 20, { 0, 0 } } }, true },
		{ "status of another frame only", { { 20, { 0, 2 } } }, false },
		{ "confirmed when it is too late", {}, false, 300 },
		{ "failed when it is too late", {}, false, 300 },
		{ "confirmed twice", { { 20, { 0, 0 } }, { 20, { 0, 0 } } }, true },
	};
}
static void sendOne(const Answer& a, const B& payload, const B& a64, const B& a16, bool broadcast = false)
{
	SensorNetAddress to = addrOf(a64, a16);
	Exact x(payload);
	written(1001);
	auto c = call([&]() { return broadcast ? net->broadcast(x.p, x.n) : net->unicast(x.p, x.n, &to); });
	vos::quiesce();
	B o = written(1001);
	if (payload.size() > 241)
	{
		vos::advance(10000);
		if (!c->done() || c->rc >= 0 || !o.empty())
			ex::violation(v::fmt("%zu bytes, which no frame can hold, were sent as %zu bytes: %d", payload.size(), o.size(), c->rc));
		return;
	}
	// the id is the driver's choice
	B plain = o;
	if (mode == 2)
	{
		plain.clear();
		for (size_t i = 0; i < o.size(); i++)
			plain += o[i] == '\x7d' && i + 1 < o.size() ? (char) (o[++i] ^ 0x20) : o[i];
	}
	int id = plain.size() > 4 ? gwm::u8(plain, 4) : 0;
	if (o != request(id, payload, broadcast ? B("\x00\x00\x00\x00\x00\x00\xff\xff", 8) : a64, broadcast ? B("\xff\xfe") : a16))
		ex::violation("sending " + hex(payload) + ": " + hex(o) + " is not the frame for it");
	if (id == 0 || id == lastId)
		ex::violation(v::fmt("frame id %d after %d", id, lastId));
	bool answered = false;
	for (auto& w : a.what)
	{
		vos::advance(w.first * 1000LL);
		if (w.second.second == 0 && !answered && c->done())
			ex::violation(a.name + v::fmt(": sending ended with %d before the status came", c->rc));
		arrive(frame(status(w.second.second == 0 ? id : w.second.second == 1 ? lastId : id % 255 + 1, w.second.first)));
		answered |= w.second.second == 0;
		vos::advance(10000);
	}
	bool heard = a.ok || (!a.what.empty() && a.what.back().second.second == 0);
	if (!heard)
	{
		vos::advance(4500000);
		if (c->done())
			ex::violation(a.name + v::fmt(": sending ended with %d before the time was over", c->rc));
		vos::advance(1600000);
	}
	if (!c->done())
		ex::violation(a.name + ": sending does not end");
	if (a.ok ? c->rc != (int) payload.size() : c->rc >= 0)
		ex::violation(a.name + v::fmt(": sending %zu bytes returned %d", payload.size(), c->rc));
	if (a.late >= 0)
	{
		vos::advance(a.late * 1000LL);
		arrive(frame(status(id, a.name[0] == 'f' ? 0x24 : 0)));
		vos::advance(50000);
	}
	if (!got.empty())
		ex::violation("while sending: received " + hex(got[0].data));
	lastId = id;
	ex::noteState(ex::hashStr(a.name + payload));
}
static Scns x01()
{
	Scns r;
	bool th = v::thorough();
	for (int m = 1; m <= 2; m++)
	{
		mode = m;
		size_t n = elements().size();
		for (size_t i = 0; i < n; i++)
		{
			Scn s;
			s.plain = true;
			s.name = v::fmt("mode %d, first element %zu", m, i);
			s.bounds = v::fmt("all sequences of up to %d of %zu kinds of bytes, with and without pauses, which start with: %s", th ? 3 : 2, n, elements()[i].name.c_str());
			s.body = [=]() {
				mode = m;
				openXbee();
				seqs(elements(), i, th ? 3 : 2);
			};
			r.push_back(s);
		}
		Scn s;
		s.plain = true;
		s.name = v::fmt("mode %d, cuts", m);
		s.bounds = "every element in two and in three parts, with pauses of 300 ms, and byte by byte";
		s.body = [=]() {
			mode = m;
			openXbee();
			for (auto& e : elements())
			{
				std::vector<std::vector<size_t>> cuts;
				size_t n = e.bytes.size();
				for (size_t i = 1; i < n; i++)
				{
					cuts.push_back({ i });
					if (n < 40)
						for (size_t j = i + 1; j < n; j++)
							cuts.push_back({ i, j });
				}
				std::vector<size_t> each;
				for (size_t i = 1; i < n; i++)
					each.push_back(i);
				if (n > 1)
					cuts.push_back(each);
				for (auto& c : cuts)
				{
					step(e.name + v::fmt(" cut at %zu (%zu parts)", c[0], c.size() + 1));
					size_t at = 0;
					for (size_t k = 0; k <= c.size(); k++)
					{
						size_t to = k < c.size() ? c[k] : n;
						arrive(e.bytes.substr(at, to - at));
						at = to;
						vos::advance(k < c.size() ? 300000 : e.pause ? 1600000 : 700000);
					}
					expect(e, " in parts");
					probe(e.name + " in parts");
					ex::S->histories++;
				}
			}
		};
		r.push_back(s);
		s.name = v::fmt("mode %d, contents", m);
		s.bounds = "every payload length up to 243 and every byte value at every place of a frame received; every length up to 300, 512 to 520, 1023, 1024 and every byte value sent, unicast and broadcast; 600 packets one after the other";
		s.body = [=]() {
			mode = m;
			openXbee();
			for (int n = 0; n <= 243; n++)
			{
				B p;
				for (int i = 0; i < n; i++)
					p += (char) (i * 7 + n);
				El e = good(v::fmt("packet of %d bytes", n), p);
				step(e.name);
				arrive(e.bytes);
				vos::advance(700000);
				expect(e, "");
			}
			for (int b = 0; b < 256; b++)
				for (int at = 0; at < 13; at++)
				{
					B d = rx("pq");
					d[at + 1] = b;
					El e = good(v::fmt("byte %d at %d", b, at + 1), d.substr(12), d.substr(1, 8), d.substr(9, 2));
					e.bytes = frame(d);
					step(e.name);
					arrive(e.bytes);
					vos::advance(20000);
					expect(e, "");
				}
			auto as = answers();
			for (int n = 0; n <= 1024; n++)
			{
				if (n > 300 && !(n >= 512 && n <= 520) && n < 1023)
					continue;
				B p;
				for (int i = 0; i < n; i++)
					p += (char) (i + n);
				step(v::fmt("sending %d bytes", n));
				sendOne(as[0], p, n & 1 ? a64a : a64b, n & 2 ? a16a : a16b, n % 5 == 0);
			}
			for (int b = 0; b < 256; b++)
				for (int at = 0; at < 12; at++)
				{
					B a = a64a + a16a + "pq";
					a[at] = b;
					step(v::fmt("sending with byte %d at %d", b, at));
					sendOne(as[0], a.substr(10), a.substr(0, 8), a.substr(8, 2));
				}
			for (int i = 0; i < 600; i++)
				sendOne(as[i % 200 == 7 ? 2 : 0], v::fmt("packet %d", i), a64a, a16a);
			ex::S->histories++;
		};
		r.push_back(s);
		for (size_t i = 0; i < answers().size(); i++)
		{
			s.name = v::fmt("mode %d, answers %zu", m, i);
			s.bounds = "all sequences of the module's answers to three (thorough: four) packets, the first one: " + answers()[i].name;
			s.body = [=]() {
				mode = m;
				openXbee();
				auto as = answers();
				std::function<void(std::vector<int>)> rec = [&](std::vector<int> seq) {
					if (ex::over())
						return;
					if (seq.size() == (th ? 4u : 3u))
					{
						for (int k : seq)
						{
							step(as[k].name);
							sendOne(as[k], "packet", a64a, a16a);
						}
						step("confirmed");
						sendOne(as[0], "last", a64b, a16b);
						probe("sending");
						ex::S->histories++;
						return;
					}
					for (size_t k = 0; k < as.size(); k++)
					{
						auto s = seq;
						s.push_back(k);
						rec(s);
					}
				};
				rec({ (int) i });
			};
			r.push_back(s);
		}
	}
	// a packet is received while one is sent
	for (int k = 0; k < 3; k++)
	{
		Scn s;
		s.plain = true;
		s.name = v::fmt("sending and receiving %d", k);
		int bound = th ? 3 : 2;
		s.bounds = v::fmt("all schedules with at most %d preemptions or early time-outs", bound);
		s.body = [=]() {
			mode = 2;
			openXbee();
			SensorNetAddress to = addrOf(a64a, a16a);
			El e = good("packet", "in");
			static const uint8_t p[] = "out";
			static const uint8_t q[] = "more";
			int sent = 0;
			sched::begin(bound);
			if (k == 1)
				arrive(e.bytes);
			auto c = call([&]() {
				int rc = net->unicast(p, 3, &to);
				sent = 1;
				return k == 2 && rc == 3 ? net->unicast(q, 4, &to) : rc;
			});
			// the module answers as soon as it has the whole frame
			B all;
			int answered = 0;
			vos::onOut = [&](const vos::Out& o) {
				if (o.kind != vos::Out::DATA)
					return;
				all += o.data;
				int id = answered + 1;
				B f = request(id, answered ? "more" : "out", a64a, a16a);
				if (all == f)
				{
					arrive((k == 0 ? e.bytes : B()) + frame(status(id, 0)));
					all.clear();
					answered++;
				}
			};
			vos::quiesce();
			vos::picker = nullptr;
			vos::advance(7000000);
			vos::onOut = nullptr;
			if (!c->done() || c->rc != (k == 2 ? 4 : 3))
				ex::violation(v::fmt("sending which is confirmed at once returned %d", c->rc));
			if (k < 2)
				expect(e, " while sending");
			if (!got.empty())
				ex::violation("received " + hex(got[0].data));
			ex::noteState(ex::hashStr(s.name) + (c->ended - c->began) / 1000);
			ex::S->transitions++;
			sched::finish();
		};
		r.push_back(s);
	}
	return r;
}
NET_MAIN({ "X01", x01 })
#include "main.h"
