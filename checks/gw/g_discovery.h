// G15: what lets clients find the gateway.
static Ev multi(Ev e)
{
	return { e.name + " (multicast)", [=](Model& m) {
		Stim s = e.make(m);
		s.multicast = true;
		return s;
	} };
}
static Ev search(const Addr& a, int radius)
{
	return dg(v::fmt("SEARCHGW radius %d", radius), a, w::sn(w::SEARCHGW, w::b1(radius)));
}
static Scns g15()
{
	Scns r;
	bool th = v::thorough();
	const Addr group = gw::addr("225.1.1.1", gw::MPORT);
	{
		Scn s = scn("SEARCHGW between everything else");
		predef(s, "*", "p/all", 2);
		s.alpha = {
			multi(search(X, 1)), multi(search(X, 0)), search(A, 255), multi(search(A, 2)),
			multi(dg("ADVERTISE of another gateway", Bb, w::sn(w::ADVERTISE, w::b1(9) + w::b2(60)))),
			multi(dg("GWINFO of another gateway", Bb, w::sn(w::GWINFO, w::b1(9)))),
			dg("ADVERTISE", A, w::sn(w::ADVERTISE, w::b1(1) + w::b2(60))),
			dg("GWINFO with address", A, w::sn(w::GWINFO, w::b1(1) + "addr")),
			multi(dg("SEARCHGW without radius", X, w::sn(w::SEARCHGW, ""))),
			dg("CONNECT", A, w::connect("c1", 1, 0, 60)),
			br("CONNACK", "c1", mq::connack(0)),
			dg("PUBLISH", A, w::publish(0, 1, 0, w::PREDEF, w::b2(2), 7, "x")),
			dg("DISCONNECT 10", A, w::disconnect(10)),
			dg("PINGREQ", A, w::pingreq("c1")),
			br("message", "c1", mq::publish(0, 0, 0, "p/all", 0, "m")),
			fault("broker closes", "c1", Stim::CLOSE),
			dg("DISCONNECT", A, w::disconnect()),
		};
		s.depth = th ? 5 : 3;
		s.deep = th ? 12 : 5;
		r.push_back(s);
	}
	for (int part = 0; part < 15; part++)
	{
		// the ids are each a gateway of their own
		for (int id = 1 + part * 17; id <= 17 + part * 17; id++)
		{
			Scn s = scn(v::fmt("gateway id %d", id));
			s.conf.set("GatewayID", v::fmt("%d", id)).set("KeepAlive", v::fmt("%d", id + 1));
			s.cfg.gwId = id;
			s.bounds = "GWINFO and ADVERTISE of this gateway";
			s.body = [id, group]() {
				gw::Seen none = gw::collect();
				must(multi(search(X, 3)));
				B adv = w::sn(w::ADVERTISE, w::b1(id) + w::b2(id + 1));
				for (int t = 0; t < id + 5; t++)
				{
					vos::advance(1000000);
					gw::Seen seen = gw::collect();
					if (seen.dg[group].empty())
						continue;
					ex::noteState(ex::hashStr(seen.dg[group][0]));
					ex::S->transitions++;
					if (t < id - 1 || seen.dg[group].size() != 1 || seen.dg[group][0] != adv)
						ex::violation(v::fmt("after %d s instead of ADVERTISE:", t + 2) + gw::show(seen, W.o.names));
					return;
				}
				ex::violation("no ADVERTISE");
			};
			r.push_back(s);
		}
	}
	// the interval, with every kind of traffic in between
	for (int keep : { 1, 2, 3, 5, 14, 60, 255, 256, 900, 3600, 40000, 65535 })
		for (int traffic = 0; traffic < 6; traffic++)
		{
			Scn s = scn(v::fmt("ADVERTISE every %d s, traffic %d", keep, traffic));
			s.conf.set("KeepAlive", v::fmt("%d", keep));
			s.bounds = "five intervals";
			s.body = [keep, traffic, group]() {
				B adv = w::sn(w::ADVERTISE, w::b1(1) + w::b2(keep));
				int64_t start = vos::nowUs(), last = start;
				static const int pace[] = { 0, 300, 700, 1900, 2100, 500 };
				int64_t step = pace[traffic] ? pace[traffic] : 5000;
				if (keep > 300)
					step = pace[traffic] ? 1900 : 60000;
				gw::collect();
				B what[] = { "", w::publish(0, 3, 0, w::SHORT, "ab", 0, "x"), w::sn(w::SEARCHGW, w::b1(1)), w::connect("c1", 1, 0, 60), w::pingreq("c1"), w::publish(0, 1, 0, w::SHORT, "ab", 7, "x") };
				// the virtual system records no times, so it is advanced in small steps around the expected moment
				int seen = 0;
				int64_t next = start;
				while (seen < 5)
				{
					int64_t early = last + (int64_t) keep * 1000000 - 1000000, now = vos::nowUs();
					int64_t d = std::min<int64_t>(step * 1000, now < early ? std::max<int64_t>(early - now, 100000) : 100000);
					vos::advance(d);
					now = vos::nowUs();
					if (traffic && now >= next)
					{
						gw::datagram(A, what[traffic]);
						next = now + step * 1000;
					}
					gw::Seen s = gw::collect();
					for (auto& p : s.dg[group])
						if (p == adv)
						{
							double gap = (now - last) / 1e6;
							ex::S->transitions++;
							ex::noteState(ex::hashStr(adv) + seen);
							if (gap < keep - (seen ? 0.2 : 1.0))	// the gateway started a bit earlier
								ex::violation(v::fmt("ADVERTISE after %.1f s instead of %d s", gap, keep));
							last = now;
							seen++;
						}
						else if (p[1] != w::GWINFO)
							ex::violation("instead of ADVERTISE:" + gw::show(s, W.o.names));
					if (now - last > (int64_t) keep * 1000000 + 2700000)
						ex::violation(v::fmt("no ADVERTISE for %.1f s, its interval is %d s", (now - last) / 1e6, keep));
				}
			};
			r.push_back(s);
		}
	return r;
}
