// Reference encoders for MQTT-SN 1.2 and MQTT 3.1.1 packets, written from the specifications.
#ifndef WIRE_H
#define WIRE_H
#include <string>
#include <cstdint>
#include "vlib.h"
namespace w
{
typedef std::string B;
inline B b1(int x) { return B(1, (char) x); }
inline B b2(int x) { return b1(x >> 8) + b1(x); }

// ---- MQTT-SN --------------------------------------------------------------------------------
enum
{
	ADVERTISE = 0, SEARCHGW = 1, GWINFO = 2, CONNECT = 4, CONNACK = 5, WILLTOPICREQ = 6, WILLTOPIC = 7, WILLMSGREQ = 8,
	WILLMSG = 9, REGISTER = 0xA, REGACK = 0xB, PUBLISH = 0xC, PUBACK = 0xD, PUBCOMP = 0xE, PUBREC = 0xF, PUBREL = 0x10,
	SUBSCRIBE = 0x12, SUBACK = 0x13, UNSUBSCRIBE = 0x14, UNSUBACK = 0x15, PINGREQ = 0x16, PINGRESP = 0x17, DISCONNECT = 0x18,
	WILLTOPICUPD = 0x1A, WILLTOPICRESP = 0x1B, WILLMSGUPD = 0x1C, WILLMSGRESP = 0x1D, ENCAPS = 0xFE
};
enum { NORMAL = 0, PREDEF = 1, SHORT = 2 };
inline B sn(int type, const B& body)
{
	size_t n = body.size() + 2;
	return n < 256 ? b1(n) + b1(type) + body : b1(1) + b2(n + 2) + b1(type) + body;
}
inline int fl(int dup, int qos, int retain, int will, int clean, int tt)
{
	return (dup << 7) | ((qos & 3) << 5) | (retain << 4) | (will << 3) | (clean << 2) | tt;
}
inline B connect(const B& id, int clean, int will, int duration) { return sn(CONNECT, b1(fl(0, 0, 0, will, clean, 0)) + b1(1) + b2(duration) + id); }
inline B connack(int rc) { return sn(CONNACK, b1(rc)); }
inline B willtopic(const B& t, int qos, int retain) { return sn(WILLTOPIC, b1(fl(0, qos, retain, 0, 0, 0)) + t); }
inline B willmsg(const B& m) { return sn(WILLMSG, m); }
inline B reg(int tid, int mid, const B& name) { return sn(REGISTER, b2(tid) + b2(mid) + name); }
inline B regack(int tid, int mid, int rc) { return sn(REGACK, b2(tid) + b2(mid) + b1(rc)); }
inline B publish(int dup, int qos, int retain, int tt, const B& tid, int mid, const B& payload) { return sn(PUBLISH, b1(fl(dup, qos, retain, 0, 0, tt)) + tid + b2(mid) + payload); }
inline B puback(int tid, int mid, int rc) { return sn(PUBACK, b2(tid) + b2(mid) + b1(rc)); }
inline B ack(int type, int mid) { return sn(type, b2(mid)); }
inline B subscribe(int dup, int qos, int mid, int tt, const B& topic) { return sn(SUBSCRIBE, b1(fl(dup, qos, 0, 0, 0, tt)) + b2(mid) + topic); }
inline B suback(int qos, int tid, int mid, int rc) { return sn(SUBACK, b1(fl(0, qos, 0, 0, 0, 0)) + b2(tid) + b2(mid) + b1(rc)); }
inline B unsubscribe(int mid, int tt, const B& topic) { return sn(UNSUBSCRIBE, b1(fl(0, 0, 0, 0, 0, tt)) + b2(mid) + topic); }
inline B pingreq(const B& id = "") { return sn(PINGREQ, id); }
inline B pingresp() { return sn(PINGRESP, ""); }
inline B disconnect(int dur = -1) { return sn(DISCONNECT, dur < 0 ? B() : b2(dur)); }
inline B encap(const B& node, const B& inner, int ctrl = 0) { return b1(3 + node.size()) + b1(ENCAPS) + b1(ctrl) + node + inner; }

// ---- MQTT -----------------------------------------------------------------------------------
namespace m
{
enum { CONNECT = 1, CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK, PINGREQ, PINGRESP, DISCONNECT };
inline B pk(int type, int flags, const B& body)
{
	B s = b1(type << 4 | flags);
	size_t n = body.size();
	do
	{
		int d = n % 128;
		n /= 128;
		s += b1(n ? d | 128 : d);
	} while (n);
	return s + body;
}
inline B str(const B& s) { return b2(s.size()) + s; }
struct Con
{
	B id, user, pass, willTopic, willMsg;
	int clean = 0, will = 0, willQos = 0, willRetain = 0, keep = 0, version = 4;
	bool hasUser = false, hasPass = false;
};
inline B connect(const Con& c)
{
	int f = (c.hasUser ? 0x80 : 0) | (c.hasPass ? 0x40 : 0) | (c.clean ? 2 : 0);
	if (c.will)
		f |= 4 | c.willQos << 3 | (c.willRetain ? 0x20 : 0);
	B s = (c.version == 3 ? str("MQIsdp") + b1(3) : str("MQTT") + b1(4)) + b1(f) + b2(c.keep) + str(c.id);
	if (c.will)
		s += str(c.willTopic) + str(c.willMsg);
	if (c.hasUser)
		s += str(c.user);
	if (c.hasPass)
		s += str(c.pass);
	return pk(CONNECT, 0, s);
}
inline B connack(int rc, int sp = 0) { return pk(CONNACK, 0, b1(sp) + b1(rc)); }
inline B publish(int dup, int qos, int retain, const B& topic, int mid, const B& payload) { return pk(PUBLISH, dup << 3 | qos << 1 | retain, str(topic) + (qos ? b2(mid) : B()) + payload); }
inline B ack(int type, int mid) { return pk(type, type == PUBREL ? 2 : 0, b2(mid)); }
inline B subscribe(int mid, const B& filter, int qos) { return pk(SUBSCRIBE, 2, b2(mid) + str(filter) + b1(qos)); }
inline B suback(int mid, int rc) { return pk(SUBACK, 0, b2(mid) + b1(rc)); }
inline B unsubscribe(int mid, const B& filter) { return pk(UNSUBSCRIBE, 2, b2(mid) + str(filter)); }
inline B unsuback(int mid) { return pk(UNSUBACK, 0, b2(mid)); }
inline B pingreq() { return pk(PINGREQ, 0, ""); }
inline B pingresp() { return pk(PINGRESP, 0, ""); }
inline B disconnect() { return pk(DISCONNECT, 0, ""); }
// splits a byte stream into packets; an incomplete rest is returned as a last element starting with '?'
inline std::vector<B> split(const B& s)
{
	std::vector<B> v;
	size_t i = 0;
	while (i < s.size())
	{
		size_t j = i + 1, n = 0, mul = 1;
		bool ok = false;
		while (j < s.size() && j - i <= 4)
		{
			int c = (unsigned char) s[j++];
			n += (c & 127) * mul;
			mul *= 128;
			if (!(c & 128))
			{
				ok = true;
				break;
			}
		}
		if (!ok || j + n > s.size())
		{
			v.push_back("?" + s.substr(i));
			return v;
		}
		v.push_back(s.substr(i, j + n - i));
		i = j + n;
	}
	return v;
}
} // namespace m

// ---- readable form ---------------------------------------------------------------------------
inline std::string txt(const B& s, size_t max = 40)
{
	std::string o;
	for (size_t i = 0; i < s.size() && i < max; i++)
	{
		unsigned char c = s[i];
		if (c >= 0x20 && c < 0x7f)
			o += c;
		else
			o += v::fmt("\\%02x", c);
	}
	if (s.size() > max)
		o += v::fmt("..(%zu)", s.size());
	return "'" + o + "'";
}
inline std::string showSn(const B& p)
{
	static const char* n[] = { "ADVERTISE", "SEARCHGW", "GWINFO", "?3", "CONNECT", "CONNACK", "WILLTOPICREQ", "WILLTOPIC", "WILLMSGREQ",
			"WILLMSG", "REGISTER", "REGACK", "PUBLISH", "PUBACK", "PUBCOMP", "PUBREC", "PUBREL", "?11", "SUBSCRIBE", "SUBACK", "UNSUBSCRIBE",
			"UNSUBACK", "PINGREQ", "PINGRESP", "DISCONNECT", "?19", "WILLTOPICUPD", "WILLTOPICRESP", "WILLMSGUPD", "WILLMSGRESP" };
	size_t o = p.size() > 3 && (unsigned char) p[0] == 1 ? 3 : 1;
	if (p.size() <= o)
		return "[" + v::hex(p.data(), p.size()) + "]";
	int t = (unsigned char) p[o];
	return std::string(t < 0x1e ? n[t] : t == 0xfe ? "ENCAPS" : "?") + "[" + v::hex(p.data(), p.size()) + "]";
}
inline std::string showMq(const B& p)
{
	static const char* n[] = { "?0", "CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBSCRIBE", "SUBACK",
			"UNSUBSCRIBE", "UNSUBACK", "PINGREQ", "PINGRESP", "DISCONNECT", "?15" };
	return std::string(p.empty() ? "" : n[(unsigned char) p[0] >> 4]) + "[" + v::hex(p.data(), p.size()) + "]";
}
} // namespace w
#endif
