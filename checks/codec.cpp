// C01-C04: bounded exhaustive enumeration of the MQTT-SN packet library against an independent wire-format model.
#include "../lib/vlib.h"
#include "MQTTSNPacket.h"
using namespace v;
typedef std::vector<uint8_t> Bytes;

// ---------- exact-size buffers: everything around [p, p+len) is poisoned --------------------------------
static const size_t MARGIN = 4096, MAXB = 140000;
static uint8_t arenaMem[3][MARGIN + MAXB + MARGIN] __attribute__((aligned(64)));
static uint8_t* place(int which, size_t len, const void* data = NULL, int fill = -1)
{
	uint8_t* base = arenaMem[which];
	static size_t cur[3];
	static bool init[3];
	if (!init[which])
	{
		__asan_poison_memory_region(base, sizeof arenaMem[which]);
		init[which] = true;
	}
	else
		__asan_poison_memory_region(base + MARGIN, (cur[which] + 7) & ~size_t(7));
	cur[which] = len;
	uint8_t* p = base + MARGIN;
	__asan_unpoison_memory_region(p, len);
	if (data && len)
		memcpy(p, data, len);
	else if (fill >= 0 && len)
		memset(p, fill, len);
	return p;
}

[[noreturn]] static void fail(const std::string& what)
{
	caseViolation(what);
	_exit(1);
}

// ---------- the reference: MQTT-SN 1.2 section 5.2-5.4 --------------------------------------------------
static Bytes frame(uint8_t type, const Bytes& body)
{
	Bytes b;
	size_t n = body.size() + 2;
	if (n <= 255)
		b.push_back((uint8_t) n);
	else
	{
		n += 2;
		b.push_back(1);
		b.push_back((uint8_t)(n >> 8));
		b.push_back((uint8_t) n);
	}
	b.push_back(type);
	b.insert(b.end(), body.begin(), body.end());
	return b;
}
static void p8(Bytes& b, int v)
{
	b.push_back((uint8_t) v);
}
static void p16(Bytes& b, int v)
{
	b.push_back((uint8_t)(v >> 8));
	b.push_back((uint8_t) v);
}
static void pstr(Bytes& b, const std::string& s)
{
	b.insert(b.end(), s.begin(), s.end());
}
static int flagsByte(int dup, int qos, int retain, int will, int clean, int tit)
{
	return (dup ? 0x80 : 0) | (qos << 5) | (retain ? 0x10 : 0) | (will ? 8 : 0) | (clean ? 4 : 0) | tit;
}

// A text of n bytes without NUL, all positions distinguishable
static std::string text(size_t n)
{
	std::string s(n, ' ');
	for (size_t i = 0; i < n; i++)
		s[i] = (char) (1 + (i * 7 + (i >> 8)) % 255);
	return s;
}

struct Msg
{
	std::string name;
	Bytes wire;
	std::function<int(uint8_t*, int)> ser;
	std::function<std::string(uint8_t*, int)> deser;	// "" if it returns success and the same fields
};

// fields are compared through this: EQ(name, got, expected)
#define EQ(n, g, e) do { long g_ = (long)(g), e_ = (long)(e); if (g_ != e_) return fmt("%s decoded as %ld instead of %ld", n, g_, e_); } while (0)
#define OK(rc) do { int r_ = (rc); if (r_ != 1) return fmt("deserialiser returned %d for a valid packet", r_); } while (0)

static MQTTSNString* garbage(MQTTSNString& s, int pat)
{
	memset(&s, 0, sizeof s);
	s.lenstring.len = pat ? 12345 : -1;
	s.lenstring.data = (char*) (pat ? 0x10 : 0);
	return &s;
}
static std::string eqStr(const char* n, const MQTTSNString& s, const std::string& e, uint8_t* buf, int len)
{
	if (s.lenstring.len != (int) e.size())
		return fmt("%s decoded with length %d instead of %zu", n, s.lenstring.len, e.size());
	if (e.empty())
		return "";
	if ((uint8_t*) s.lenstring.data < buf || (uint8_t*) s.lenstring.data + s.lenstring.len > buf + len)
		return fmt("%s points outside the packet", n);
	if (memcmp(s.lenstring.data, e.data(), e.size()))
		return fmt("%s has different bytes", n);
	return "";
}
#define EQSTR(n, s, e) do { std::string r_ = eqStr(n, s, e, b, l); if (!r_.empty()) return r_; } while (0)

static MQTTSNString mkstr(const std::string& s, bool c)
{
	MQTTSNString m = MQTTSNString_initializer;
	if (c)
		m.cstring = (char*) s.c_str();
	else
	{
		m.lenstring.len = (int) s.size();
		m.lenstring.data = (char*) s.data();
	}
	return m;
}

typedef std::function<void(Msg&)> Sink;
static std::vector<int> V16(bool full, bool all = false)
{
	std::vector<int> v = { 0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x1234, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff };
	if (full)
	{
		v.clear();
		for (int i = 0; i < 65536; i++)
			if (all || i % 251 == 0 || (i & 0xff) == 0 || (i >> 8) == 0 || (i & (i - 1)) == 0 || (i & (i + 1)) == 0 || i == 0x1234)
				v.push_back(i);
	}
	return v;
}
static std::vector<int> VLEN(int level, int maxExtra)	// string lengths; maxExtra = largest representable
{
	std::vector<int> v;
	if (level == 0)
		v = { 0, 1, 2, 5, 244, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 300 };
	else if (level == 1)
	{
		for (int i = 0; i <= 600; i++)
			v.push_back(i);
		for (int i = maxExtra - 4; i <= maxExtra; i++)
			v.push_back(i);
	}
	else
	{
		for (int i = 0; i <= 4200; i++)
			v.push_back(i);
		for (int i = 5000; i < maxExtra - 300; i += 997)
			v.push_back(i);
		for (int i = maxExtra - 300; i <= maxExtra; i++)
			v.push_back(i);
	}
	return v;
}

// Emits every message of the alphabet. level 0: boundary values, 1: one 16-bit field at a time in full
static void gen(int level, const Sink& sink)
{
	Msg m;
	bool full = level > 0;
	auto small = V16(false);
	auto vals = V16(full, level > 1);
	std::vector<int> bytes;
	if (full)
		for (int i = 0; i < 256; i++)
			bytes.push_back(i);
	else
		bytes = { 0, 1, 2, 3, 0x7f, 0x80, 0xff };
	static std::string str;

	m.name = "ADVERTISE";
	for (int g : bytes)
		for (int d : (g == 7 || !full) ? vals : small)
		{
			Bytes b;
			p8(b, g), p16(b, d);
			m.wire = frame(0x00, b);
			m.ser = [=](uint8_t* b, int l) { return MQTTSNSerialize_advertise(b, l, g, d); };
			m.deser = [=](uint8_t* b, int l) -> std::string {
				unsigned char g2 = ~g; unsigned short d2 = ~d;
				OK(MQTTSNDeserialize_advertise(&g2, &d2, b, l));
				EQ("gateway id", g2, g); EQ("duration", d2, d);
				return ""; };
			sink(m);
		}
	m.name = "SEARCHGW";
	for (int g : bytes)
	{
		Bytes b;
		p8(b, g);
		m.wire = frame(0x01, b);
		m.ser = [=](uint8_t* b, int l) { return MQTTSNSerialize_searchgw(b, l, g); };
		m.deser = [=](uint8_t* b, int l) -> std::string {
			unsigned char g2 = ~g;
			OK(MQTTSNDeserialize_searchgw(&g2, b, l));
			EQ("radius", g2, g);
			return ""; };
		sink(m);
	}
	m.name = "GWINFO";
	for (int n : VLEN(level, 65530))
		for (int g : (n < 4) ? bytes : std::vector<int>{ 9 })
		{
			str = text(n);
			Bytes b;
			p8(b, g), pstr(b, str);
			m.wire = frame(0x02, b);
			m.ser = [=](uint8_t* b, int l) { return MQTTSNSerialize_gwinfo(b, l, g, n, n ? (unsigned char*) str.data() : NULL); };
			m.deser = [=](uint8_t* b, int l) -> std::string {
				unsigned char g2 = ~g; unsigned short n2 = ~n; unsigned char* a = (unsigned char*) 8;
				OK(MQTTSNDeserialize_gwinfo(&g2, &n2, &a, b, l));
				EQ("gateway id", g2, g); EQ("address length", n2, n);
				if (n == 0) { EQ("address", (long) a, 0); }
				else { if (a < b || a + n2 > b + l) return "address points outside the packet"; EQ("address bytes", memcmp(a, str.data(), n), 0); }
				return ""; };
			sink(m);
		}
	m.name = "CONNECT";
	for (int f = 0; f < 4; f++)
		for (int c = 0; c < 2; c++)
		{
			for (int d : vals)
				for (int n : (full && d != 0x1234) ? std::vector<int>{ 23 } : VLEN(0, 65526))
				{
					str = text(n);
					int will = f & 1, clean = f >> 1;
					Bytes b;
					p8(b, flagsByte(0, 0, 0, will, clean, 0)), p8(b, 1), p16(b, d), pstr(b, str);
					m.wire = frame(0x04, b);
					m.ser = [=](uint8_t* b, int l) {
						MQTTSNPacket_connectData o = MQTTSNPacket_connectData_initializer;
						o.clientID = mkstr(str, c); o.duration = d; o.cleansession = clean; o.willFlag = will;
						return MQTTSNSerialize_connect(b, l, &o); };
					m.deser = [=](uint8_t* b, int l) -> std::string {
						MQTTSNPacket_connectData o = MQTTSNPacket_connectData_initializer;
						garbage(o.clientID, c); o.duration = ~d; o.cleansession = !clean; o.willFlag = !will;
						OK(MQTTSNDeserialize_connect(&o, b, l));
						EQ("clean session", o.cleansession, clean); EQ("will flag", o.willFlag, will); EQ("duration", o.duration, d);
						EQSTR("client id", o.clientID, str);
						return ""; };
					sink(m);
				}
			if (full)
				for (int n : VLEN(level, 65526))
				{
					str = text(n);
					int will = f & 1, clean = f >> 1;
					Bytes b;
					p8(b, flagsByte(0, 0, 0, will, clean, 0)), p8(b, 1), p16(b, 0x0102), pstr(b, str);
					m.wire = frame(0x04, b);
					m.ser = [=](uint8_t* b, int l) {
						MQTTSNPacket_connectData o = MQTTSNPacket_connectData_initializer;
						o.clientID = mkstr(str, c); o.duration = 0x0102; o.cleansession = clean; o.willFlag = will;
						return MQTTSNSerialize_connect(b, l, &o); };
					m.deser = [=](uint8_t* b, int l) -> std::string {
						MQTTSNPacket_connectData o = MQTTSNPacket_connectData_initializer;
						OK(MQTTSNDeserialize_connect(&o, b, l));
						EQ("clean session", o.cleansession, clean); EQ("will flag", o.willFlag, will); EQ("duration", o.duration, 0x0102);
						EQSTR("client id", o.clientID, str);
						return ""; };
					sink(m);
				}
		}
	struct { const char* n; int type; int (*s)(unsigned char*, int, int); int (*d)(int*, unsigned char*, int); } rcs[] = {
		{ "CONNACK", 0x05, MQTTSNSerialize_connack, MQTTSNDeserialize_connack },
		{ "WILLTOPICRESP", 0x1b, MQTTSNSerialize_willtopicresp, MQTTSNDeserialize_willtopicresp },
		{ "WILLMSGRESP", 0x1d, MQTTSNSerialize_willmsgresp, MQTTSNDeserialize_willmsgresp } };
	for (auto& k : rcs)
		for (int g : bytes)
		{
			m.name = k.n;
			m.wire = frame(k.type, Bytes{ (uint8_t) g });
			auto s = k.s; auto d = k.d;
			m.ser = [=](uint8_t* b, int l) { return s(b, l, g); };
			m.deser = [=](uint8_t* b, int l) -> std::string {
				int rc = ~g;
				OK(d(&rc, b, l));
				EQ("return code", rc, g);
				return ""; };
			sink(m);
		}
	struct { const char* n; int type; int (*s)(unsigned char*, int); int (*d)(unsigned char*, int); } plain[] = {
		{ "WILLTOPICREQ", 0x06, MQTTSNSerialize_willtopicreq, MQTTSNDeserialize_willtopicreq },
		{ "WILLMSGREQ", 0x08, MQTTSNSerialize_willmsgreq, MQTTSNDeserialize_willmsgreq },
		{ "PINGRESP", 0x17, MQTTSNSerialize_pingresp, MQTTSNDeserialize_pingresp } };
	for (auto& k : plain)
	{
		m.name = k.n;
		m.wire = frame(k.type, Bytes());
		auto s = k.s; auto d = k.d;
		m.ser = [=](uint8_t* b, int l) { return s(b, l); };
		m.deser = [=](uint8_t* b, int l) -> std::string { OK(d(b, l)); return ""; };
		sink(m);
	}
	struct { const char* n; int type; int (*s)(unsigned char*, int, int, unsigned char, MQTTSNString); int (*d)(int*, unsigned char*, MQTTSNString*, unsigned char*, int); } wt[] = {
		{ "WILLTOPIC", 0x07, MQTTSNSerialize_willtopic, MQTTSNDeserialize_willtopic },
		{ "WILLTOPICUPD", 0x1a, MQTTSNSerialize_willtopicupd, MQTTSNDeserialize_willtopicupd } };
	for (auto& k : wt)
		for (int q = 0; q < 4; q++)
			for (int r = 0; r < 2; r++)
				for (int c = 0; c < 2; c++)
					for (int n : VLEN((q == 1 && r == 1) ? level : 0, 65530))
					{
						str = text(n);
						m.name = k.n;
						Bytes b;
						p8(b, flagsByte(0, q, r, 0, 0, 0)), pstr(b, str);
						m.wire = frame(k.type, b);
						auto s = k.s; auto d = k.d;
						m.ser = [=](uint8_t* b, int l) { return s(b, l, q, r, mkstr(str, c)); };
						m.deser = [=](uint8_t* b, int l) -> std::string {
							int q2 = ~q; unsigned char r2 = ~r; MQTTSNString t; garbage(t, c);
							OK(d(&q2, &r2, &t, b, l));
							EQ("will QoS", q2, q); EQ("will retain", r2, r); EQSTR("will topic", t, str);
							return ""; };
						sink(m);
					}
	struct { const char* n; int type; int (*s)(unsigned char*, int, MQTTSNString); int (*d)(MQTTSNString*, unsigned char*, int); } wm[] = {
		{ "WILLMSG", 0x09, MQTTSNSerialize_willmsg, MQTTSNDeserialize_willmsg },
		{ "WILLMSGUPD", 0x1c, MQTTSNSerialize_willmsgupd, MQTTSNDeserialize_willmsgupd },
		{ "PINGREQ", 0x16, MQTTSNSerialize_pingreq, MQTTSNDeserialize_pingreq } };
	for (auto& k : wm)
		for (int c = 0; c < 2; c++)
			for (int n : VLEN(level, 65531))
			{
				str = text(n);
				m.name = k.n;
				Bytes b;
				pstr(b, str);
				m.wire = frame(k.type, b);
				auto s = k.s; auto d = k.d;
				m.ser = [=](uint8_t* b, int l) { return s(b, l, mkstr(str, c)); };
				m.deser = [=](uint8_t* b, int l) -> std::string {
					MQTTSNString t; garbage(t, c);
					OK(d(&t, b, l));
					EQSTR("string", t, str);
					return ""; };
				sink(m);
			}
	m.name = "REGISTER";
	for (int c = 0; c < 2; c++)
		for (int n : VLEN(level, 65527))
			for (int t : (n == 3) ? vals : std::vector<int>{ 0x1234 })
				for (int i : (n == 3 && (t == 0x1234 || !full)) ? vals : std::vector<int>{ 0xfedc })
				{
					str = text(n);
					Bytes b;
					p16(b, t), p16(b, i), pstr(b, str);
					m.wire = frame(0x0a, b);
					m.ser = [=](uint8_t* b, int l) { MQTTSNString s = mkstr(str, c); return MQTTSNSerialize_register(b, l, t, i, &s); };
					m.deser = [=](uint8_t* b, int l) -> std::string {
						unsigned short t2 = ~t, i2 = ~i; MQTTSNString s; garbage(s, c);
						OK(MQTTSNDeserialize_register(&t2, &i2, &s, b, l));
						EQ("topic id", t2, t); EQ("packet id", i2, i); EQSTR("topic name", s, str);
						return ""; };
					sink(m);
				}
	struct { const char* n; int type; int (*s)(unsigned char*, int, unsigned short, unsigned short, unsigned char); int (*d)(unsigned short*, unsigned short*, unsigned char*, unsigned char*, int); } a3[] = {
		{ "REGACK", 0x0b, MQTTSNSerialize_regack, MQTTSNDeserialize_regack },
		{ "PUBACK", 0x0d, MQTTSNSerialize_puback, MQTTSNDeserialize_puback } };
	for (auto& k : a3)
		for (int g : bytes)
			for (int t : (g == 1) ? vals : small)
				for (int i : (g == 1 && (t == 0x1234)) ? vals : small)
				{
					m.name = k.n;
					Bytes b;
					p16(b, t), p16(b, i), p8(b, g);
					m.wire = frame(k.type, b);
					auto s = k.s; auto d = k.d;
					m.ser = [=](uint8_t* b, int l) { return s(b, l, t, i, g); };
					m.deser = [=](uint8_t* b, int l) -> std::string {
						unsigned short t2 = ~t, i2 = ~i; unsigned char g2 = ~g;
						OK(d(&t2, &i2, &g2, b, l));
						EQ("topic id", t2, t); EQ("packet id", i2, i); EQ("return code", g2, g);
						return ""; };
					sink(m);
				}
	m.name = "PUBLISH";
	for (int dup = 0; dup < 2; dup++)
		for (int q = 0; q < 4; q++)
			for (int r = 0; r < 2; r++)
				for (int ty = 0; ty < 3; ty++)
				{
					bool ln = ty == 0 && q == 3;
					bool rep = dup == 1 && r == 0 && q == 1;
					for (int pl : VLEN(level == 0 ? 0 : (rep || level > 1) ? level : 0, 65525))
						for (int i : (pl == 2) ? vals : std::vector<int>{ 0x0102 })
							for (int t : (pl == 2 && i == 0x1234) ? vals : std::vector<int>{ 0xfe01 })
							{
								std::vector<int> tl = { 0 };
								if (ln)
								{
									tl = VLEN(0, 0);
									if (level && pl < 2)
										tl = VLEN(level, 65525 - pl);
								}
								for (int n : tl)
								{
									if (ln && n + pl > 65525)
										continue;
									static std::string pay;
									str = text(n);
									pay = text(pl);
									Bytes b;
									p8(b, flagsByte(dup, q, r, 0, 0, ty));
									if (ln)
										p16(b, n);
									else
										p16(b, t);
									p16(b, i);
									if (ln)
										pstr(b, str);
									pstr(b, pay);
									m.wire = frame(0x0c, b);
									m.ser = [=](uint8_t* b, int l) {
										MQTTSN_topicid id; memset(&id, 0, sizeof id);
										id.type = (MQTTSN_topicTypes) ty;
										if (ln) { id.data.long_.name = (char*) str.data(); id.data.long_.len = n; }
										else if (ty == 2) { id.data.short_name[0] = t >> 8; id.data.short_name[1] = t; }
										else id.data.id = t;
										return MQTTSNSerialize_publish(b, l, dup, q, r, i, id, (unsigned char*) pay.data(), pl); };
									m.deser = [=](uint8_t* b, int l) -> std::string {
										unsigned char dup2 = ~dup, r2 = ~r; int q2 = ~q; unsigned short i2 = ~i; MQTTSN_topicid id;
										memset(&id, 0x55, sizeof id); unsigned char* p2 = NULL; int pl2 = -77;
										OK(MQTTSNDeserialize_publish(&dup2, &q2, &r2, &i2, &id, &p2, &pl2, b, l));
										EQ("dup", dup2, dup); EQ("QoS", q2, q); EQ("retain", r2, r); EQ("packet id", i2, i); EQ("topic type", id.type, ty);
										if (ln) {
											EQ("topic name length", id.data.long_.len, n);
											if (n && ((uint8_t*) id.data.long_.name < b || (uint8_t*) id.data.long_.name + n > b + l)) return "topic name outside the packet";
											if (n) EQ("topic name bytes", memcmp(id.data.long_.name, str.data(), n), 0); }
										else if (ty == 2) { EQ("short name[0]", (uint8_t) id.data.short_name[0], t >> 8); EQ("short name[1]", (uint8_t) id.data.short_name[1], t & 255); }
										else EQ("topic id", id.data.id, t);
										EQ("payload length", pl2, pl);
										if (pl && (p2 < b || p2 + pl2 > b + l)) return "payload outside the packet";
										if (pl) EQ("payload bytes", memcmp(p2, pay.data(), pl), 0);
										return ""; };
									sink(m);
								}
							}
				}
	struct { const char* n; int type; int (*s)(unsigned char*, int, unsigned short); } acks[] = {
		{ "PUBREC", 0x0f, MQTTSNSerialize_pubrec }, { "PUBREL", 0x10, MQTTSNSerialize_pubrel }, { "PUBCOMP", 0x0e, MQTTSNSerialize_pubcomp } };
	for (auto& k : acks)
		for (int i : vals)
		{
			m.name = k.n;
			Bytes b;
			p16(b, i);
			int ty = k.type;
			m.wire = frame(ty, b);
			auto s = k.s;
			m.ser = [=](uint8_t* b, int l) { return s(b, l, i); };
			m.deser = [=](uint8_t* b, int l) -> std::string {
				unsigned char t2 = ~ty; unsigned short i2 = ~i;
				OK(MQTTSNDeserialize_ack(&t2, &i2, b, l));
				EQ("packet type", t2, ty); EQ("packet id", i2, i);
				return ""; };
			sink(m);
		}
	for (int un = 0; un < 2; un++)
		for (int dup = 0; dup < (un ? 1 : 2); dup++)
			for (int q = 0; q < (un ? 1 : 4); q++)
				for (int ty = 0; ty < 3; ty++)
					for (int i : vals)
						for (int t : (ty && (i == 0x1234 || !full)) ? vals : std::vector<int>{ 0x4142 })
							for (int n : ty ? std::vector<int>{ 0 } : i == 0x1234 ? VLEN(level, 65528) : std::vector<int>{ 4 })
							{
								m.name = un ? "UNSUBSCRIBE" : "SUBSCRIBE";
								str = text(n);
								Bytes b;
								p8(b, flagsByte(dup, q, 0, 0, 0, ty)), p16(b, i);
								if (ty)
									p16(b, t);
								else
									pstr(b, str);
								m.wire = frame(un ? 0x14 : 0x12, b);
								m.ser = [=](uint8_t* b, int l) {
									MQTTSN_topicid id; memset(&id, 0, sizeof id);
									id.type = (MQTTSN_topicTypes) ty;
									if (ty == 0) { id.data.long_.name = (char*) str.data(); id.data.long_.len = n; }
									else if (ty == 2) { id.data.short_name[0] = t >> 8; id.data.short_name[1] = t; }
									else id.data.id = t;
									return un ? MQTTSNSerialize_unsubscribe(b, l, i, &id) : MQTTSNSerialize_subscribe(b, l, dup, q, i, &id); };
								m.deser = [=](uint8_t* b, int l) -> std::string {
									unsigned char dup2 = ~dup; int q2 = ~q; unsigned short i2 = ~i; MQTTSN_topicid id;
									memset(&id, 0x55, sizeof id);
									if (un) { OK(MQTTSNDeserialize_unsubscribe(&i2, &id, b, l)); }
									else { OK(MQTTSNDeserialize_subscribe(&dup2, &q2, &i2, &id, b, l)); EQ("dup", dup2, dup); EQ("QoS", q2, q); }
									EQ("packet id", i2, i); EQ("topic type", id.type, ty);
									if (ty == 0) {
										EQ("topic name length", id.data.long_.len, n);
										if (n && ((uint8_t*) id.data.long_.name < b || (uint8_t*) id.data.long_.name + n > b + l)) return "topic name outside the packet";
										if (n) EQ("topic name bytes", memcmp(id.data.long_.name, str.data(), n), 0); }
									else if (ty == 2) { EQ("short name[0]", (uint8_t) id.data.short_name[0], t >> 8); EQ("short name[1]", (uint8_t) id.data.short_name[1], t & 255); }
									else EQ("topic id", id.data.id, t);
									return ""; };
								sink(m);
							}
	m.name = "SUBACK";
	for (int q = 0; q < 4; q++)
		for (int g : bytes)
			for (int t : (g == 1) ? vals : small)
				for (int i : (g == 1 && (t == 0x1234)) ? vals : small)
				{
					Bytes b;
					p8(b, flagsByte(0, q, 0, 0, 0, 0)), p16(b, t), p16(b, i), p8(b, g);
					m.wire = frame(0x13, b);
					m.ser = [=](uint8_t* b, int l) { return MQTTSNSerialize_suback(b, l, q, t, i, g); };
					m.deser = [=](uint8_t* b, int l) -> std::string {
						unsigned short t2 = ~t, i2 = ~i; unsigned char g2 = ~g; int q2 = ~q;
						OK(MQTTSNDeserialize_suback(&q2, &t2, &i2, &g2, b, l));
						EQ("QoS", q2, q); EQ("topic id", t2, t); EQ("packet id", i2, i); EQ("return code", g2, g);
						return ""; };
					sink(m);
				}
	m.name = "UNSUBACK";
	for (int i : vals)
	{
		Bytes b;
		p16(b, i);
		m.wire = frame(0x15, b);
		m.ser = [=](uint8_t* b, int l) { return MQTTSNSerialize_unsuback(b, l, i); };
		m.deser = [=](uint8_t* b, int l) -> std::string {
			unsigned short i2 = ~i;
			OK(MQTTSNDeserialize_unsuback(&i2, b, l));
			EQ("packet id", i2, i);
			return ""; };
		sink(m);
	}
	m.name = "DISCONNECT";
	{
		std::vector<int> ds = { -1 };
		for (int d : vals)
			if (d > 0)
				ds.push_back(d);
		for (int d : ds)
		{
			Bytes b;
			if (d > 0)
				p16(b, d);
			m.wire = frame(0x18, b);
			m.ser = [=](uint8_t* b, int l) { return MQTTSNSerialize_disconnect(b, l, d); };
			m.deser = [=](uint8_t* b, int l) -> std::string {
				int d2 = 4711;
				OK(MQTTSNDeserialize_disconnect(&d2, b, l));
				EQ("duration", d2, d);
				return ""; };
			sink(m);
		}
	}
}

static std::map<std::string, long> perType;

static void checkC01(Msg& m)
{
	if (!next())
		return;
	perType[m.name]++;
	C().describe = [&m] { return m.name + " expected on the wire " + hex(m.wire.data(), m.wire.size()); };
	size_t n = m.wire.size();
	uint8_t* b = place(0, n, NULL, 0xa5);
	int rc = m.ser(b, (int) n);
	if (rc != (int) n)
		fail(fmt("serialiser returned %d for a packet of %zu bytes", rc, n));
	if (memcmp(b, m.wire.data(), n))
		fail("serialiser wrote " + hex(b, n));
	std::string r = m.deser(b, (int) n);
	if (!r.empty())
		fail(r);
	// the packet at the start of a larger receive buffer
	uint8_t* b2 = place(1, n + 3, NULL, 0x01);
	memcpy(b2, m.wire.data(), n);
	r = m.deser(b2, (int) n + 3);
	if (!r.empty())
		fail(r + " (3 further bytes in the buffer)");
	if (memcmp(b2, m.wire.data(), n))
		fail("deserialiser changed the packet");
	C().nontrivial++;
	sample(m.name + (n > 255 ? "+" : ""), C().describe);
}

static void checkC02(Msg& m)
{
	size_t need = m.wire.size();
	std::vector<size_t> sizes;
	if (need <= 64 || thorough())
		for (size_t s = 0; s <= need + 2; s++)
			sizes.push_back(s);
	else
	{
		for (size_t s = 0; s <= 16; s++)
			sizes.push_back(s);
		for (size_t s = need - 8; s <= need + 4; s++)
			sizes.push_back(s);
		for (size_t s = 250; s <= 262 && s < need - 8; s++)
			sizes.push_back(s);
	}
	for (size_t s : sizes)
	{
		if (!next())
			continue;
		perType[m.name]++;
		C().describe = [&m, s] { return fmt("%s of %zu bytes into a buffer of %zu", m.name.c_str(), m.wire.size(), s); };
		uint8_t* b = place(0, s, NULL, 0xa5);
		int rc = m.ser(b, (int) s);
		if (s < need)
		{
			if (rc > 0)
				fail(fmt("serialiser returned %d although the buffer is too small", rc));
			C().nontrivial++;
		}
		else
		{
			if (rc != (int) need)
				fail(fmt("serialiser returned %d", rc));
			int hdr = b[0] == 1 ? 256 * b[1] + b[2] : b[0];
			if (hdr != rc)
				fail(fmt("serialiser returned %d but the length field says %d", rc, hdr));
			if (memcmp(b, m.wire.data(), need))
				fail("serialiser wrote " + hex(b, need));
			for (size_t i = need; i < s; i++)
				if (b[i] != 0xa5)
					fail(fmt("serialiser changed byte %zu after the packet", i));
		}
		sample(m.name, C().describe);
	}
}

// ---------- C03: deserialisers on arbitrary bytes -----------------------------------------------------
struct Out
{
	int rc;
	long f[6];			// fixed fields in order
	int nf;
	struct { uint8_t* p; long len; bool used; } s[2];
};
struct Dec
{
	const char* name;
	int type;			// -1: PUBREC/PUBREL/PUBCOMP
	std::function<void(Out&, uint8_t*, int)> run;
	// reference on the bytes after the length field, [t, e): 1 must accept, 0 must refuse, 2 either; fills f and s offsets
	std::function<int(Out&, uint8_t*, int)> ref;
};
static int be16(const uint8_t* p)
{
	return p[0] * 256 + p[1];
}
static std::vector<Dec> decs;
static void buildDecs()
{
	auto fixed = [](int n) { return n; };
	(void) fixed;
#define F(o, ...) do { long a_[] = { __VA_ARGS__ }; (o).nf = sizeof a_ / sizeof a_[0]; for (int i_ = 0; i_ < (o).nf; i_++) (o).f[i_] = a_[i_]; } while (0)
#define S(o, k, P, L) do { (o).s[k].p = (uint8_t*) (P); (o).s[k].len = (L); (o).s[k].used = true; } while (0)
	decs.push_back({ "advertise", 0x00, [](Out& o, uint8_t* b, int l) { unsigned char g = 0xa5; unsigned short d = 0xa5a5; o.rc = MQTTSNDeserialize_advertise(&g, &d, b, l); F(o, g, d); },
		[](Out& o, uint8_t* d, int n) { if (n < 3) return 0; F(o, d[0], be16(d + 1)); return n == 3 ? 1 : 2; } });
	decs.push_back({ "searchgw", 0x01, [](Out& o, uint8_t* b, int l) { unsigned char g = 0xa5; o.rc = MQTTSNDeserialize_searchgw(&g, b, l); F(o, g); },
		[](Out& o, uint8_t* d, int n) { if (n < 1) return 0; F(o, d[0]); return n == 1 ? 1 : 2; } });
	decs.push_back({ "gwinfo", 0x02, [](Out& o, uint8_t* b, int l) { unsigned char g = 0xa5; unsigned short n = 0xa5a5; unsigned char* a = NULL; o.rc = MQTTSNDeserialize_gwinfo(&g, &n, &a, b, l); F(o, g); S(o, 0, a, n); },
		[](Out& o, uint8_t* d, int n) { if (n < 1) return 0; F(o, d[0]); S(o, 0, d + 1, n - 1); return 1; } });
	decs.push_back({ "connect", 0x04, [](Out& o, uint8_t* b, int l) { MQTTSNPacket_connectData c; memset(&c, 0x5a, sizeof c); o.rc = MQTTSNDeserialize_connect(&c, b, l); F(o, c.cleansession, c.willFlag, c.duration); S(o, 0, c.clientID.lenstring.data, c.clientID.lenstring.len); if (o.rc == 1 && c.clientID.cstring) fail("client id returned with a stray C string"); },
		[](Out& o, uint8_t* d, int n) { if (n < 4) return 0; F(o, d[0] >> 2 & 1, d[0] >> 3 & 1, be16(d + 2)); S(o, 0, d + 4, n - 4); return d[1] == 1 ? 1 : 2; } });
	struct { const char* n; int type; int (*d)(int*, unsigned char*, int); } rcs[] = { { "connack", 0x05, MQTTSNDeserialize_connack }, { "willtopicresp", 0x1b, MQTTSNDeserialize_willtopicresp }, { "willmsgresp", 0x1d, MQTTSNDeserialize_willmsgresp } };
	for (auto& k : rcs)
	{
		auto d = k.d;
		decs.push_back({ k.n, k.type, [=](Out& o, uint8_t* b, int l) { int r = -99; o.rc = d(&r, b, l); F(o, r); },
			[](Out& o, uint8_t* d, int n) { if (n < 1) return 0; F(o, d[0]); return n == 1 ? 1 : 2; } });
	}
	struct { const char* n; int type; int (*d)(unsigned char*, int); } pl[] = { { "willtopicreq", 0x06, MQTTSNDeserialize_willtopicreq }, { "willmsgreq", 0x08, MQTTSNDeserialize_willmsgreq }, { "pingresp", 0x17, MQTTSNDeserialize_pingresp } };
	for (auto& k : pl)
	{
		auto d = k.d;
		decs.push_back({ k.n, k.type, [=](Out& o, uint8_t* b, int l) { o.rc = d(b, l); o.nf = 0; }, [](Out& o, uint8_t*, int n) { o.nf = 0; return n == 0 ? 1 : 2; } });
	}
	struct { const char* n; int type; int (*d)(int*, unsigned char*, MQTTSNString*, unsigned char*, int); } wt[] = { { "willtopic", 0x07, MQTTSNDeserialize_willtopic }, { "willtopicupd", 0x1a, MQTTSNDeserialize_willtopicupd } };
	for (auto& k : wt)
	{
		auto d = k.d;
		decs.push_back({ k.n, k.type, [=](Out& o, uint8_t* b, int l) { int q = -99; unsigned char r = 0xa5; MQTTSNString s; memset(&s, 0x5a, sizeof s); o.rc = d(&q, &r, &s, b, l); F(o, q, r); S(o, 0, s.lenstring.data, s.lenstring.len); if (o.rc == 1 && s.cstring) fail("will topic returned with a stray C string"); },
			[](Out& o, uint8_t* d, int n) { if (n < 1) { F(o, 0, 0); S(o, 0, d, 0); return 2; } F(o, d[0] >> 5 & 3, d[0] >> 4 & 1); S(o, 0, d + 1, n - 1); return 1; } });
	}
	struct { const char* n; int type; int (*d)(MQTTSNString*, unsigned char*, int); } wm[] = { { "willmsg", 0x09, MQTTSNDeserialize_willmsg }, { "willmsgupd", 0x1c, MQTTSNDeserialize_willmsgupd }, { "pingreq", 0x16, MQTTSNDeserialize_pingreq } };
	for (auto& k : wm)
	{
		auto d = k.d;
		decs.push_back({ k.n, k.type, [=](Out& o, uint8_t* b, int l) { MQTTSNString s; memset(&s, 0x5a, sizeof s); o.rc = d(&s, b, l); o.nf = 0; S(o, 0, s.lenstring.data, s.lenstring.len); if (o.rc == 1 && s.cstring) fail("string returned with a stray C string"); },
			[](Out& o, uint8_t* d, int n) { o.nf = 0; S(o, 0, d, n); return 1; } });
	}
	decs.push_back({ "register", 0x0a, [](Out& o, uint8_t* b, int l) { unsigned short t = 0xa5a5, i = 0xa5a5; MQTTSNString s; memset(&s, 0x5a, sizeof s); o.rc = MQTTSNDeserialize_register(&t, &i, &s, b, l); F(o, t, i); S(o, 0, s.lenstring.data, s.lenstring.len); if (o.rc == 1 && s.cstring) fail("topic name returned with a stray C string"); },
		[](Out& o, uint8_t* d, int n) { if (n < 4) return 0; F(o, be16(d), be16(d + 2)); S(o, 0, d + 4, n - 4); return 1; } });
	struct { const char* n; int type; int (*d)(unsigned short*, unsigned short*, unsigned char*, unsigned char*, int); } a3[] = { { "regack", 0x0b, MQTTSNDeserialize_regack }, { "puback", 0x0d, MQTTSNDeserialize_puback } };
	for (auto& k : a3)
	{
		auto d = k.d;
		decs.push_back({ k.n, k.type, [=](Out& o, uint8_t* b, int l) { unsigned short t = 0xa5a5, i = 0xa5a5; unsigned char r = 0xa5; o.rc = d(&t, &i, &r, b, l); F(o, t, i, r); },
			[](Out& o, uint8_t* d, int n) { if (n < 5) return 0; F(o, be16(d), be16(d + 2), d[4]); return n == 5 ? 1 : 2; } });
	}
	decs.push_back({ "publish", 0x0c, [](Out& o, uint8_t* b, int l) { unsigned char dup = 0xa5, r = 0xa5; int q = -99, n = -99; unsigned short i = 0xa5a5; MQTTSN_topicid t; memset(&t, 0x5a, sizeof t); unsigned char* p = NULL;
			o.rc = MQTTSNDeserialize_publish(&dup, &q, &r, &i, &t, &p, &n, b, l);
			bool ln = t.type == MQTTSN_TOPIC_TYPE_NORMAL && q == 3;
			long id = ln ? 0 : t.type == MQTTSN_TOPIC_TYPE_SHORT ? (uint8_t) t.data.short_name[0] * 256 + (uint8_t) t.data.short_name[1] : t.data.id;
			F(o, dup, q, r, i, t.type, id); S(o, 0, p, n); if (ln) S(o, 1, t.data.long_.name, t.data.long_.len); },
		[](Out& o, uint8_t* d, int n) { if (n < 5) return 0; int ty = d[0] & 3, q = d[0] >> 5 & 3; bool ln = ty == 0 && q == 3; int tl = ln ? be16(d + 1) : 0; if (5 + tl > n) return 0;
			F(o, d[0] >> 7, q, d[0] >> 4 & 1, be16(d + 3), ty, ln ? 0 : be16(d + 1)); S(o, 0, d + 5 + tl, n - 5 - tl); if (ln) S(o, 1, d + 5, tl); return ty == 3 ? 3 : 1; } });
	decs.push_back({ "ack", -1, [](Out& o, uint8_t* b, int l) { unsigned char t = 0xa5; unsigned short i = 0xa5a5; o.rc = MQTTSNDeserialize_ack(&t, &i, b, l); F(o, i, t); },
		[](Out& o, uint8_t* d, int n) { if (n < 2) return 0; F(o, be16(d), d[-1]); return n == 2 ? 1 : 2; } });
	for (int un = 0; un < 2; un++)
		decs.push_back({ un ? "unsubscribe" : "subscribe", un ? 0x14 : 0x12, [=](Out& o, uint8_t* b, int l) { unsigned char dup = 0; int q = 0; unsigned short i = 0xa5a5; MQTTSN_topicid t; memset(&t, 0x5a, sizeof t);
				o.rc = un ? MQTTSNDeserialize_unsubscribe(&i, &t, b, l) : MQTTSNDeserialize_subscribe(&dup, &q, &i, &t, b, l);
				long id = t.type == MQTTSN_TOPIC_TYPE_NORMAL ? 0 : t.type == MQTTSN_TOPIC_TYPE_SHORT ? (uint8_t) t.data.short_name[0] * 256 + (uint8_t) t.data.short_name[1] : t.data.id;
				F(o, i, t.type, id, dup, q); if (t.type == MQTTSN_TOPIC_TYPE_NORMAL) S(o, 0, t.data.long_.name, t.data.long_.len); },
			[=](Out& o, uint8_t* d, int n) { if (n < 3) return 0; int ty = d[0] & 3; if (ty && ty != 3 && n < 5) return 0;
				F(o, be16(d + 1), ty, (ty && n >= 5) ? be16(d + 3) : 0, un ? 0 : d[0] >> 7, un ? 0 : d[0] >> 5 & 3); if (!ty) S(o, 0, d + 3, n - 3); return ty == 3 ? 3 : (ty && n > 5) ? 2 : 1; } });
	decs.push_back({ "suback", 0x13, [](Out& o, uint8_t* b, int l) { unsigned short t = 0xa5a5, i = 0xa5a5; unsigned char r = 0xa5; int q = -99; o.rc = MQTTSNDeserialize_suback(&q, &t, &i, &r, b, l); F(o, q, t, i, r); },
		[](Out& o, uint8_t* d, int n) { if (n < 6) return 0; F(o, d[0] >> 5 & 3, be16(d + 1), be16(d + 3), d[5]); return n == 6 ? 1 : 2; } });
	decs.push_back({ "unsuback", 0x15, [](Out& o, uint8_t* b, int l) { unsigned short i = 0xa5a5; o.rc = MQTTSNDeserialize_unsuback(&i, b, l); F(o, i); },
		[](Out& o, uint8_t* d, int n) { if (n < 2) return 0; F(o, be16(d)); return n == 2 ? 1 : 2; } });
	decs.push_back({ "disconnect", 0x18, [](Out& o, uint8_t* b, int l) { int d = -99; o.rc = MQTTSNDeserialize_disconnect(&d, b, l); F(o, d); },
		[](Out& o, uint8_t* d, int n) { if (n == 0) { F(o, -1); return 1; } if (n == 2) { F(o, be16(d)); return 1; } return n == 1 ? 0 : 4; } });
}
static long accepted, refused;
static void runDec(Dec& d, uint8_t* p, int len)
{
	if (!next())
		return;
	C().describe = [&d, p, len] { return fmt("MQTTSNDeserialize_%s on %d byte(s) %s", d.name, len, hex(p, len).c_str()); };
	Out o, e;
	memset(&o, 0, sizeof o);
	memset(&e, 0, sizeof e);
	d.run(o, p, len);
	int want = 0, hl = 0, total = 0;
	if (len >= 1 && p[0] != 1)
		hl = 1, total = p[0];
	else if (len >= 3)
		hl = 3, total = be16(p + 1);
	bool form3 = hl == 3 && total < 256;
	if (hl && total <= len && total >= hl + 1)
	{
		int ty = p[hl];
		bool tok = d.type >= 0 ? ty == d.type : (ty == 0x0e || ty == 0x0f || ty == 0x10);
		if (tok)
		{
			want = d.ref(e, p + hl + 1, total - hl - 1);
			if (want == 1 && form3)
				want = 2;
		}
	}
	if (want == 1 && o.rc != 1)
		fail(fmt("returned %d for a well formed packet", o.rc));
	if (want == 0 && o.rc == 1)
		fail("reported success");
	if (o.rc == 1)
	{
		accepted++;
		for (int k = 0; k < 2; k++)
			if (o.s[k].used && o.s[k].len != 0 && (o.s[k].len < 0 || o.s[k].p < p || o.s[k].p + o.s[k].len > p + total))
				fail(fmt("returned a string or payload of length %ld outside the packet", o.s[k].len));
		if (want == 1 || want == 2)
		{
			for (int k = 0; k < e.nf; k++)
				if (o.f[k] != e.f[k])
					fail(fmt("field %d decoded as %ld instead of %ld", k, o.f[k], e.f[k]));
			for (int k = 0; k < 2; k++)
				if (e.s[k].used && (o.s[k].len != e.s[k].len || (e.s[k].len && o.s[k].p != e.s[k].p)))
					fail("a string or payload was decoded as a different range");
		}
		if (o.rc == 1)
			sample(std::string(d.name) + "+", C().describe);
	}
	else
	{
		refused++;
		if (hl && total >= 2 && len > hl)
			C().nontrivial++;
		sample(std::string("refuse") + (len < 3 ? "<3" : ""), C().describe);
	}
}
static void allDecs(const uint8_t* data, int len, bool onlyMatching)
{
	uint8_t* p = place(0, len, data);
	int hl = len ? (data[0] == 1 ? 3 : 1) : 0;
	int ty = len > hl ? data[hl] : -1;
	for (auto& d : decs)
		if (!onlyMatching || d.type == ty || d.type < 0)
			runDec(d, p, len);
}
static void checkC03()
{
	buildDecs();
	uint8_t b[600];
	// 1. all strings up to 2 bytes, and of 3 bytes with a small last byte set
	allDecs(b, 0, false);
	for (int x = 0; x < 256; x++)
	{
		b[0] = x;
		allDecs(b, 1, false);
		for (int y = 0; y < 256; y++)
		{
			b[1] = y;
			allDecs(b, 2, false);
		}
	}
	std::vector<int> al = { 0, 1, 2, 3, 0x7f, 0x80, 0xff };
	std::vector<int> heads = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 0x80, 0xff };
	std::vector<int> fl;
	for (int i = 0; i < 256; i++)
		fl.push_back(i);
	for (int x : heads)
		for (int y = 0; y < 256; y++)
			for (int z = 0; z < 256; z++)
			{
				b[0] = x, b[1] = y, b[2] = z;
				allDecs(b, 3, y > 0x20 && x != 1);
			}
	// 2. every type x declared length x supplied length x header form x flags byte x 2-byte field patterns
	std::vector<int> types;
	for (int i = 0; i < 0x20; i++)
		types.push_back(i);
	types.push_back(0x80);
	types.push_back(0xfe);
	std::vector<int> decl = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 255, 256, 257, 0x7fff, 0x8000, 0xffff };
	for (int form3 = 0; form3 < 2; form3++)
		for (int ty : types)
			for (int n : decl)
			{
				if (!form3 && (n > 255 || n == 1))
					continue;
				for (int len = 1; len <= 18; len++)
					for (int f = 0; f < 256; f++)
					{
						if (f && ty != 0x0c && ty != 0x12 && ty != 0x14 && !thorough() && f % 17)
							continue;
						static const int tl[] = { 0, 1, 2, 3, 4, 8, 0xff, 0x100, 0x7fff, 0x8000, 0xffff };
						for (int t : tl)
						{
							if (t && (ty != 0x0c || (f & 0x63) != 0x60) && !thorough() && t != 0x8000)
								continue;
							int h = 0;
							if (form3)
								b[h++] = 1, b[h++] = n >> 8, b[h++] = n;
							else
								b[h++] = n;
							b[h++] = ty, b[h++] = f, b[h++] = t >> 8, b[h++] = t;
							for (; h < 20; h++)
								b[h] = 0x11 * h;
							if (ty == 4)
								b[(form3 ? 3 : 1) + 2] = 1;
							allDecs(b, len, true);
							if (f == 0 && t == 0)
								allDecs(b, len, false);
						}
					}
			}
	// 3. every packet of the alphabet x every truncation, every length-field change, every type change
	std::set<Bytes> done;
	gen(0, [&](Msg& m)
	{
		if (!done.insert(m.wire).second)
			return;
		Bytes w = m.wire;
		int n = (int) w.size();
		bool big = n > 40;
		for (int l = 0; l <= n; l++)
			if (!big || l < 14 || l > n - 4 || thorough())
				allDecs(w.data(), l, true);
		allDecs(w.data(), n, false);
		Bytes x = w;
		x.insert(x.end(), 5, 0x41);
		for (int l = n + 1; l <= n + 5; l++)
			allDecs(x.data(), l, true);
		if (!big || thorough())
			for (int d = 0; d < 256; d++)
			{
				x = w;
				x[0] = d;
				allDecs(x.data(), n, true);
			}
		else if (w[0] == 1)
			for (int d = n - 8; d < n + 4; d++)
			{
				x = w;
				x[1] = d >> 8, x[2] = d;
				allDecs(x.data(), n, true);
			}
	});
}

// ---------- C04: framing -------------------------------------------------------------------------------
static const uint8_t* gData;
static int gLen, gAsked;
static int getfn(unsigned char* b, int l)
{
	gAsked = l;
	if (gLen > 0)
		memcpy(b, gData, gLen < l ? gLen : l);
	return gLen > l ? l : gLen;
}
static long framesOk;
static void oneFrame(const uint8_t* data, int len, int bufsize)
{
	if (!next())
		return;
	C().describe = [=] { return fmt("datagram of %d byte(s) %s read into a buffer of %d", len, hex(data, len > 0 ? len : 0).c_str(), bufsize); };
	int got = len > bufsize ? bufsize : len;
	int want = -1;
	if (got >= 2 && data[0] != 1)
	{
		if (data[0] == got)
			want = data[1];
	}
	else if (got >= 4 && data[0] == 1 && be16(data + 1) == got)
		want = data[3];
	gData = data;
	gLen = len;
	uint8_t* b = place(0, bufsize, NULL, 0xee);
	int rc = MQTTSNPacket_read(b, bufsize, getfn);
	bool short3 = data && got >= 4 && data[0] == 1 && got < 256;	// a 3-byte header on a short packet may be refused
	if (rc != want && !(short3 && rc == -1))
		fail(fmt("MQTTSNPacket_read returned %d instead of %d", rc, want));
	if (got >= 0)
	{
		uint8_t* p = place(1, got, data);
		int rc2 = MQTTSNPacket_read_nb(p, got);
		if (rc2 != want && !(short3 && rc2 == -1))
			fail(fmt("MQTTSNPacket_read_nb returned %d instead of %d", rc2, want));
		if (got > 0)
		{
			int value = -77;
			int hl = MQTTSNPacket_decode(p, got, &value);
			int whl = p[0] != 1 ? 1 : got >= 3 ? 3 : -1;
			if (whl == -1 ? hl > 0 : hl != whl)
				fail(fmt("MQTTSNPacket_decode returned %d", hl));
			if (whl > 0 && value != (whl == 1 ? p[0] : be16(p + 1)))
				fail(fmt("MQTTSNPacket_decode found length %d", value));
		}
	}
	if (want >= 0)
	{
		framesOk++;
		C().nontrivial++;
	}
	sample(want >= 0 ? "accepted" : got < 2 ? "too short" : "length mismatch", C().describe);
}
static void checkC04()
{
	static uint8_t b[70000];
	for (size_t i = 0; i < sizeof b; i++)
		b[i] = (uint8_t)(i * 13 + 5);
	for (int n = 1; n <= 65532; n++)	// the two halves of the length computation agree and invert
	{
		if (!next())
			continue;
		C().describe = [n] { return fmt("a packet with %d bytes after its length field", n); };
		int total = MQTTSNPacket_len(n);
		int hl = n + 1 <= 255 ? 1 : 3;
		if (total != n + hl)
			fail(fmt("MQTTSNPacket_len returned %d", total));
		uint8_t* p = place(0, hl, NULL, 0xee);
		int e = MQTTSNPacket_encode(p, total);
		if (e != hl)
			fail(fmt("MQTTSNPacket_encode wrote %d byte(s)", e));
		int value = -1;
		int d = MQTTSNPacket_decode(p, hl, &value);
		if (d != hl || value != total)
			fail(fmt("MQTTSNPacket_decode read %d byte(s) and the length %d", d, value));
		C().nontrivial++;
	}
	for (int e = -3; e <= 1; e++)
		oneFrame(b, e, 16);
	for (int x = 0; x < 256; x++)
		for (int y = 0; y < 256; y++)
		{
			b[0] = x, b[1] = y, b[2] = 4, b[3] = 0x0c;
			for (int l = 0; l <= 6; l++)
				oneFrame(b, l, 8);
			if (x == 1 || x == y || thorough())
				for (int l : { 7, 8, 254, 255, 256, 257, 258 })
					for (int bs : { 256, 300 })
						oneFrame(b, l, bs);
		}
	for (int z = 0; z < 256; z++)
		for (int y = 0; y < 3; y++)
			for (int l : { 2, 3, 4, 5, 6, 7, 8, 9, 10, 200, 254, 255, 256, 257, 258, 259, 260, 511, 512 })
			{
				b[0] = 1, b[1] = y, b[2] = z;
				oneFrame(b, l, 520);
			}
	for (int l = 256; l < 65536; l += thorough() ? 1 : 251)
	{
		b[0] = 1, b[1] = l >> 8, b[2] = l;
		oneFrame(b, l, l);
		oneFrame(b, l, l + 7);
		oneFrame(b, l - 1, l);
		oneFrame(b, l + 1, l + 1);
		oneFrame(b, l, l - 1);	// cut off by the buffer
	}
	static const char* names[] = { "ADVERTISE", "SEARCHGW", "GWINFO", NULL, "CONNECT", "CONNACK", "WILLTOPICREQ", "WILLTOPIC", "WILLMSGREQ", "WILLMSG", "REGISTER", "REGACK",
		"PUBLISH", "PUBACK", "PUBCOMP", "PUBREC", "PUBREL", NULL, "SUBSCRIBE", "SUBACK", "UNSUBSCRIBE", "UNSUBACK", "PINGREQ", "PINGRESP", "DISCONNECT", NULL,
		"WILLTOPICUPD", "WILLTOPICRESP", "WILLMSGUPD", "WILLMSGRESP" };
	for (int c = -300; c <= 600; c++)
	{
		if (!next())
			continue;
		C().describe = [c] { return fmt("the name of message type %d", c); };
		const char* n = MQTTSNPacket_name(c);
		if (!n || !strlen(n))
			fail("no name");
		if (c >= 0 && c < 30 && names[c] && strcmp(n, names[c]))
			fail(std::string("is ") + n);
	}
}

int main(int argc, char** argv)
{
	init(argc, argv);
	initCases();
	std::string id = R().id;
	std::string rule;
	if (id == "C01")
	{
		gen(thorough() ? 2 : 1, checkC01);
		rule = "every message of the alphabet once (all values of each 8-bit field, 16-bit fields one at a time (thorough: all 65536 values; quick: those with a zero byte, multiples of 251, powers of two and their predecessors), all flag combinations, string and payload lengths 0..600 and up to the largest representable packet); a case is non-trivial when the reference encoding, the serialiser and the deserialiser were all compared";
	}
	else if (id == "C02")
	{
		gen(0, checkC02);
		rule = "every message of the boundary alphabet x every buffer size from 0 to the packet size + 2 (quick: sizes near 0, near the header boundary and near the packet size for long packets); non-trivial = the buffer is too small";
	}
	else if (id == "C03")
	{
		checkC03();
		rule = "all byte strings of length 0..2 and structured ones of length 3..18, every truncation, extension, length-field and type change of the boundary alphabet, on every deserialiser; non-trivial = refused although a length field and a type were present";
	}
	else if (id == "C04")
	{
		checkC04();
		rule = "all 65533 body lengths through the length helpers, all first two bytes x datagram lengths through the framing readers; non-trivial = a length was encoded and decoded again, or a frame was accepted";
	}
	else
		return 2;
	if (R().replay)
	{
		printf("replay: no violation\n");
		return 0;
	}
	Evidence e;
	e.level = "exploration";
	e.num("evaluations", C().n);
	e.num("distinct_nontrivial", C().nontrivial);
	e.str("rule", rule);
	e.list("samples", R().samples);
	e.boolean("exhaustive", true);
	if (id == "C03")
	{
		e.num("accepted", accepted);
		e.num("refused", refused);
	}
	for (auto& k : perType)
		e.num(("cases_" + k.first).c_str(), k.second);
	R().assumptions = { "field values and lengths outside the stated alphabet are not covered", "AddressSanitizer detects every access outside the exact-size buffers" };
	e.write();
	printf("%s: held on %ld cases (%.1f s)\n", id.c_str(), C().n, now() - R().t0);
	return 0;
}
