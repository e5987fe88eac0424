// X02: the LoRaLink driver.
#include "net.h"
using MQTTSNGW::SensorNetAddress;
enum { RX = 1, TX = 2 };		// the two serial lines

static B esc(const B& f)		// all but the start byte
{
	B o(1, f[0]);
	for (size_t i = 1; i < f.size(); i++)
		if (f[i] && strchr("\x7e\x7d\x11\x13", f[i]))
			o += B("\x7d") + (char) (f[i] ^ 0x20);
		else
			o += f[i];
	return o;
}
// len: source, RSSI, SNR, type, payload and checksum
static B frame(int from, int type, const B& payload, int sumOff = 0, int len = -1, int rssi = 0xff9c, int snr = 7)
{
	B d = w::b1(from) + w::b2(rssi) + w::b2(snr) + w::b1(type) + payload;
	unsigned char sum = 0;
	for (unsigned char c : d)
		sum += c;
	return esc("\x7e" + w::b2(len < 0 ? d.size() + 1 : len) + d + (char) (0xff - sum + sumOff));
}
struct El
{
	B name, bytes;
	bool gives = false;
	B payload;
	int from = 0;
	int line = RX;
};
static El good(const B& name, const B& payload, int from = 5)
{
	El e { name, frame(from, 0x40, payload), !payload.empty(), payload, from };
	return e;
}
static El bad(const B& name, const B& bytes, int line = RX) { return { name, bytes, false, "", 0, line }; }
static std::vector<El> elements()
{
	B all;
	for (int i = 0; i < 256; i++)
		all += (char) i;
	B f = frame(5, 0x40, "hello");
	return {
		good("packet", "\x03\x16\x01"),
		good("packet of another node", B("\x02\x7e\x7d", 3), 0x7e),
		good("longest packet", all, 254),
		good("packet without payload", ""),
		bad("acknowledgement", frame(1, 0x80, ""), TX),
		bad("acknowledgement with payload", frame(1, 0x80, "abc"), TX),
		bad("no free channel", frame(1, 0x81, ""), TX),
		bad("transmit time-out", frame(1, 0x82, "x")),
		bad("time", frame(1, 0x84, "12345678")),
		bad("frame of an unknown type", frame(1, 0x41, "abc")),
		bad("noise", "abc\x12"),
		bad("start byte only", f.substr(0, 1)),
		bad("cut in its length", f.substr(0, 2)),
		bad("cut after its length", f.substr(0, 3)),
		bad("cut in its payload", f.substr(0, 10)),
		bad("without checksum", f.substr(0, f.size() - 1)),
		bad("cut in an escape", B("\x7e\x00\x09\x7d", 4)),
		bad("escape at the end", B("\x7e\x00\x0a\x05\x00\x00\x00\x00\x40", 9) + "ab\x7d"),
		bad("wrong checksum", frame(5, 0x40, "hello", 1)),
		bad("wrong checksum by -1", frame(5, 0x40, "hello", -1)),
		bad("longest frame with wrong checksum", frame(5, 0x40, all, 7)),
		bad("length 0", frame(5, 0x40, "hello", 0, 0)),
		bad("length 6", frame(5, 0x40, "", 0, 6)),
		bad("length of no payload", frame(5, 0x40, "hello", 0, 7)),
		bad("length too small", frame(5, 0x40, "hello", 0, 10)),
		bad("length too large", frame(5, 0x40, "hello", 0, 20)),
		bad("payload of 257 bytes", frame(5, 0x40, all + "x")),
		bad("payload of 600 bytes", frame(5, 0x40, all + all + all.substr(0, 88))),
		bad("length 65535", frame(5, 0x40, "hello", 0, 65535)),
		bad("length 256 more", frame(5, 0x40, "hello", 0, 256 + 12)),
	};
}
static void expect(const El& e, const B& when)
{
	ex::noteState(ex::hashStr(e.name + when));
	if (!e.gives)
	{
		if (!got.empty())
			ex::violation(e.name + when + " was taken for the packet " + hex(got[0].data));
		return;
	}
	if (got.empty())
		ex::violation(e.name + when + " was not received");
	if (got[0].data != e.payload)
		ex::violation(e.name + when + " was received as " + hex(got[0].data) + " instead of " + hex(e.payload));
	SensorNetAddress a;
	a.setAddress((uint8_t) e.from);
	char t[64];
	got[0].from.sprint(t);
	if (!got[0].from.isMatch(&a) || t != v::fmt("%d", e.from))
		ex::violation(e.name + when + " was received from the address " + t);
	got.pop_front();
}
static void arrive(const B& b, int line = RX) { vos::tty(line)->rx += b; }
static void probe(const B& after)
{
	El p = good("a packet", "probe");
	arrive(p.bytes);
	vos::advance(20000);
	expect(p, " after " + after);
	if (!got.empty())
		ex::violation("after " + after + ": another packet " + hex(got[0].data));
}
static void openLora()
{
	openNet("BaudrateLoRaLink=115200\nDeviceRxLoRaLink=/dev/vtty1\nDeviceTxLoRaLink=/dev/vtty2\n");
	for (int n : { RX, TX })
	{
		vos::SockP t = vos::tty(n);
		if (!t || (t->oflag & OPOST) || (t->lflag & (ICANON | ECHO | ISIG)) || (t->iflag & (IXON | IXOFF | ICRNL | INLCR | ISTRIP)) || (t->cflag & CSIZE) != CS8)
			ex::violation("a serial line is not opened for all bytes as they are");
	}
	startReader();
}
static void seqs(const std::vector<El>& es, int first, int depth)
{
	std::function<void(std::vector<int>)> rec = [&](std::vector<int> seq) {
		if (ex::over())
			return;
		for (int slow = 0; slow < 2; slow++)
		{
			B name;
			for (int i : seq)
				name += (name.empty() ? "" : ", ") + es[i].name;
			step(name + (slow ? " (pauses)" : ""));
			size_t k = 0;
			for (size_t i = 0; i < seq.size(); i++)
			{
				arrive(es[seq[i]].bytes, es[seq[i]].line);
				if (!slow && i + 1 < seq.size())
					continue;
				vos::advance(slow ? 1600000 : 20000);
				for (; k <= i; k++)
					if (es[seq[k]].gives)
						expect(es[seq[k]], " in: " + name);
				if (!got.empty())
					ex::violation("in " + name + ": the packet " + hex(got[0].data) + " came from nowhere");
			}
			probe(name);
			ex::S->histories++;
		}
		if ((int) seq.size() < depth)
			for (size_t i = 0; i < es.size(); i++)
			{
				auto s = seq;
				s.push_back(i);
				rec(s);
			}
	};
	rec({ first });
}
static B request(const B& payload, int to)
{
	B d = w::b1(to) + "\x40" + payload;
	unsigned char sum = 0;
	for (unsigned char c : d)
		sum += c;
	return esc("\x7e" + w::b2(d.size() + 1) + d + (char) (0xff - sum));
}
static B answer(int type) { return frame(0, type, ""); }
struct Answer
{
	B name;
	std::vector<std::pair<int, int>> what;	// after ms: type
	bool ok;
	int late = 0;			// type of what comes when it is not waited for any more
};
static std::vector<Answer> answers()
{
	return {
		{ "confirmed", { { 20, 0x80 } }, true },
		{ "confirmed after 9.5 s", { { 9500, 0x80 } }, true },
		{ "no free channel", { { 20, 0x81 } }, false },
		{ "transmit time-out", { { 20, 0x82 } }, false },
		{ "no answer", {}, false },
		{ "confirmed when it is too late", {}, false, 0x80 },
		{ "failed when it is too late", {}, false, 0x82 },
		{ "confirmed twice", { { 20, 0x80 }, { 20, 0x80 } }, true },
		{ "another frame, then confirmed", { { 20, 0x84 }, { 20, 0x80 } }, true },
	};
}
static void sendOne(const Answer& a, const B& payload, int to, bool broadcast = false)
{
	SensorNetAddress addr;
	addr.setAddress((uint8_t) to);
	Exact x(payload);
	written(1000 + TX);
	auto c = call([&]() { return broadcast ? net->broadcast(x.p, x.n) : net->unicast(x.p, x.n, &addr); });
	vos::quiesce();
	B o;
	for (auto& w : vos::outs)
		if (w.kind == vos::Out::DATA && w.conn == 1000 + RX)
			ex::violation("the receiving modem was sent bytes");
	o = written(1000 + TX);
	if (payload.size() > 256)
	{
		vos::advance(15000000);
		if (!c->done() || c->rc >= 0 || !o.empty())
			ex::violation(v::fmt("%zu bytes, which no frame can hold, were sent as %zu bytes: %d", payload.size(), o.size(), c->rc));
		return;
	}
	if (o != request(payload, broadcast ? 255 : to))
		ex::violation("sending " + hex(payload) + ": " + hex(o) + " is not the frame for it");
	bool answered = false;
	for (auto& w : a.what)
	{
		vos::advance(w.first * 1000LL);
		if (!answered && c->done())
			ex::violation(a.name + v::fmt(": sending ended with %d before the answer came", c->rc));
		arrive(answer(w.second), TX);
		answered |= w.second <= 0x82;
		vos::advance(10000);
	}
	if (!answered)
	{
		vos::advance(9500000);
		if (c->done())
			ex::violation(a.name + v::fmt(": sending ended with %d before the time was over", c->rc));
		vos::advance(1600000);
	}
	else
		vos::advance(150000);
	if (!c->done())
		ex::violation(a.name + ": sending does not end");
	if (a.ok ? c->rc != (int) payload.size() : c->rc >= 0)
		ex::violation(a.name + v::fmt(": sending %zu bytes returned %d", payload.size(), c->rc));
	if (a.late)
	{
		vos::advance(300000);
		arrive(answer(a.late), TX);
		vos::advance(50000);
	}
	if (!got.empty())
		ex::violation("while sending: received " + hex(got[0].data));
	ex::noteState(ex::hashStr(a.name + payload));
}
static Scns x02()
{
	Scns r;
	bool th = v::thorough();
	size_t n = elements().size();
	for (size_t i = 0; i < n; i++)
	{
		Scn s;
		s.plain = true;
		s.name = v::fmt("first element %zu", i);
		s.bounds = v::fmt("all sequences of up to %d of %zu kinds of bytes, with and without pauses, which start with: %s", th ? 3 : 2, n, elements()[i].name.c_str());
		s.body = [=]() {
			openLora();
			seqs(elements(), i, th ? 3 : 2);
		};
		r.push_back(s);
	}
	Scn s;
	s.plain = true;
	s.name = "cuts";
	s.bounds = "every element in two and in three parts, with pauses, and byte by byte; after each cut an answer of the other modem, whole or in two parts";
	s.body = [=]() {
		openLora();
		for (auto& e : elements())
			if (e.line == RX)
			{
				std::vector<std::vector<size_t>> cuts;
				size_t n = e.bytes.size();
				for (size_t i = 1; i < n; i++)
				{
					cuts.push_back({ i });
					if (n < 40)
						for (size_t j = i + 1; j < n; j++)
							cuts.push_back({ i, j });
				}
				std::vector<size_t> each;
				for (size_t i = 1; i < n; i++)
					each.push_back(i);
				if (n > 1)
					cuts.push_back(each);
				B ack = frame(1, 0x80, "");
				for (auto& c : cuts)
					for (size_t other = 0; other < (c.size() == 1 ? ack.size() : 2); other++)
					{
						step(e.name + v::fmt(" cut at %zu (%zu parts), answer %zu", c[0], c.size() + 1, other));
						size_t at = 0;
						for (size_t k = 0; k <= c.size(); k++)
						{
							size_t to = k < c.size() ? c[k] : n;
							arrive(e.bytes.substr(at, to - at));
							at = to;
							vos::advance(300000);
							if (other && k == 0)
								arrive(ack.substr(0, other), TX), vos::advance(20000);
							if (other && k == 1)
								arrive(ack.substr(other), TX), vos::advance(20000);
						}
						expect(e, " in parts");
						probe(e.name + " in parts");
						ex::S->histories++;
					}
			}
	};
	r.push_back(s);
	s.name = "contents";
	s.bounds = "every payload length up to 256, every byte value at every place of a frame received; every length up to 300, 512 to 520, 1023, 1024 and every byte value sent, unicast and broadcast";
	s.body = [=]() {
		openLora();
		for (int n = 0; n <= 256; n++)
		{
			B p;
			for (int i = 0; i < n; i++)
				p += (char) (i * 7 + n);
			El e = good(v::fmt("packet of %d bytes", n), p, 1 + n % 254);
			step(e.name);
			arrive(e.bytes);
			vos::advance(20000);
			expect(e, "");
		}
		for (int b = 0; b < 256; b++)
			for (int at = 0; at < 7; at++)
			{
				int from = at == 0 ? b : 7;
				B p = B("p") + (char) (at == 1 ? b : 3) + (char) (at == 2 ? b : 4);
				El e { v::fmt("byte %d at %d", b, at), frame(from, 0x40, p, 0, -1, at == 3 ? b << 8 : at == 4 ? b : 0, at == 5 ? b << 8 : at == 6 ? b : 0), true, p, from };
				step(e.name);
				arrive(e.bytes);
				vos::advance(20000);
				expect(e, "");
			}
		auto as = answers();
		for (int n = 0; n <= 1024; n++)
		{
			if (n > 300 && !(n >= 512 && n <= 520) && n < 1023)
				continue;
			B p;
			for (int i = 0; i < n; i++)
				p += (char) (i + n);
			step(v::fmt("sending %d bytes", n));
			sendOne(as[0], p, 1 + n % 254, n % 5 == 0);
		}
		for (int b = 0; b < 256; b++)
			for (int at = 0; at < 3; at++)
			{
				step(v::fmt("sending with byte %d at %d", b, at));
				sendOne(as[0], B("p") + (char) (at == 1 ? b : 3) + (char) (at == 2 ? b : 4), at == 0 ? b : 9);
			}
		ex::S->histories++;
	};
	r.push_back(s);
	for (size_t i = 0; i < answers().size(); i++)
	{
		s.name = v::fmt("answers %zu", i);
		s.bounds = "all sequences of the modem's answers to three (thorough: four) packets, the first one: " + answers()[i].name;
		s.body = [=]() {
			openLora();
			auto as = answers();
			std::function<void(std::vector<int>)> rec = [&](std::vector<int> seq) {
				if (ex::over())
					return;
				if (seq.size() == (th ? 4u : 3u))
				{
					for (int k : seq)
					{
						step(as[k].name);
						sendOne(as[k], "packet", 3);
					}
					step("confirmed");
					sendOne(as[0], "last", 4);
					probe("sending");
					ex::S->histories++;
					return;
				}
				for (size_t k = 0; k < as.size(); k++)
				{
					auto s = seq;
					s.push_back(k);
					rec(s);
				}
			};
			rec({ (int) i });
		};
		r.push_back(s);
	}
	// a packet is received while one is sent
	for (int k = 0; k < 3; k++)
	{
		Scn s;
		s.plain = true;
		s.name = v::fmt("sending and receiving %d", k);
		int bound = th ? 3 : 2;
		s.bounds = v::fmt("all schedules with at most %d preemptions or early time-outs", bound);
		s.body = [=]() {
			openLora();
			SensorNetAddress to;
			to.setAddress((uint8_t) 9);
			El e = good("packet", "in");
			static const uint8_t p[] = "out";
			static const uint8_t q[] = "more";
			sched::begin(bound);
			if (k == 1)
				arrive(e.bytes);
			auto c = call([&]() {
				int rc = net->unicast(p, 3, &to);
				return k == 2 && rc == 3 ? net->unicast(q, 4, &to) : rc;
			});
			B all;
			int answered = 0;
			vos::onOut = [&](const vos::Out& o) {
				if (o.kind != vos::Out::DATA)
					return;
				all += o.data;
				if (all == request(answered ? "more" : "out", 9))
				{
					if (k == 0)
						arrive(e.bytes);
					arrive(answer(0x80), TX);
					all.clear();
					answered++;
				}
			};
			vos::quiesce();
			vos::picker = nullptr;
			vos::advance(12000000);
			vos::onOut = nullptr;
			if (!c->done() || c->rc != (k == 2 ? 4 : 3))
				ex::violation(v::fmt("sending which is confirmed at once returned %d", c->rc));
			if (k < 2)
				expect(e, " while sending");
			if (!got.empty())
				ex::violation("received " + hex(got[0].data));
			ex::noteState(ex::hashStr(s.name) + (c->ended - c->began) / 1000);
			ex::S->transitions++;
			sched::finish();
		};
		r.push_back(s);
	}
	// addresses in the lists
	s.name = "addresses";
	s.bounds = "all numbers from -300 to 1000 and other words as addresses in a list";
	s.body = [=]() {
		openLora();
		for (int i = -300; i < 1000; i++)
		{
			SensorNetAddress a, b;
			std::string t = v::fmt("%d", i);
			int rc = a.setAddress(&t);
			step("address " + t);
			if ((rc == 0) != (i >= 1 && i <= 254))
				ex::violation("the address " + t + (rc == 0 ? " is accepted" : " is refused"));
			b.setAddress((uint8_t) i);
			char s[20];
			if (rc == 0 && (!a.isMatch(&b) || t != a.sprint(s)))
				ex::violation("the address " + t + " is another one in use");
		}
		for (std::string t : { "", "x", "-", "node" })
		{
			SensorNetAddress a;
			if (a.setAddress(&t) == 0)
				ex::violation("the address '" + t + "' is accepted");
		}
		ex::S->histories++;
	};
	r.push_back(s);
	return r;
}
NET_MAIN({ "X02", x02 })
#include "main.h"
