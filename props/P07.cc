// P07: every client sees the same session: lines are relayed once, in order, unaltered.
#include "world.h"

struct Cl { PeerP p; std::string nick; std::vector<Msg> want; };

static std::string show(const Msg &m)
{
	std::string r = m.has_origin ? ":" + m.origin + " " : "";
	for (auto &a : m.a) r += q(a) + " ";
	return r;
}

static std::string stamp(long off)
{
	time_t t = vtime + off;
	char b[64];
	strftime(b, sizeof b, "%H:%M:%S", localtime(&t));
	return "[" + std::string(b) + "] ";
}

static void prefix(Msg &m, long off)
{
	if (m.a.size() < 3) return;
	std::string &t = m.a[2];
	if (!t.empty() && t[0] == 1) {
		if (t.compare(0, 7, "\001ACTION")) return;
		t = "\001ACTION " + stamp(off).substr(0, 10) + t.substr(7);
	} else t = stamp(off) + t;
}

static std::string wire(const Msg &m)
{
	std::string r = m.has_origin ? ":" + m.origin + " " : "";
	for (size_t i = 0; i < m.a.size(); i++) r += (i ? " " : "") + std::string(i && i + 1 == m.a.size() && (m.a[i].empty() || m.a[i][0] == ':' || m.a[i].find(' ') != std::string::npos) ? ":" : "") + m.a[i];
	return r;
}

// a line may not exceed 512 bytes, what does not fit is cut
static bool same(const Msg &want, const Msg &got)
{
	if (want.a == got.a && want.origin == got.origin && want.has_origin == got.has_origin) return true;
	std::string w = wire(want);
	if (w.size() <= 505) return false;
	std::string g = wire(got);
	return g.size() >= 480 && (w.compare(0, g.size(), g) == 0);
}

static const Strs TEXT = {"hello", "hello there", ":-)", "", "caf\xc3\xa9 ol\xe9", "\001ACTION waves\001", "a  b", " x", "[12:00:00] x", "#one", "\x02" "bold\x02", "\001ACTION\001"};

struct Rig {
	PeerP srv;
	struct irc_network *n;
	std::vector<Cl> cl;
	std::vector<Msg> up;     // expected at the server
	bool always;
	long off;
	std::string me;
	World *w;
	View *v;
};

static void down(Rig &r, const std::string &line)
{
	Msg m = msg(line);
	const std::string &cmd = m.a[0];
	std::string was = r.v->users[r.v->me].nick;
	r.v->apply(line);
	if (cmd == "PING") { Msg p; p.a = {"PONG", m.arg(1)}; r.up.push_back(p); return; }
	if (cmd == "PONG" || cmd == "372" || cmd == "375" || cmd == "376" || cmd == "422") return;
	if (cmd == "PRIVMSG" && r.always) prefix(m, r.off);
	for (auto &k : r.cl) {
		Msg x = m;
		auto own = [&](const std::string &n) { return r.w->r.same(n, was); };
		if (m.has_origin && own(m.nick())) x.origin = was + "!cu@localhost";
		else if (cmd == "352" && own(m.arg(6))) { x.a[3] = "cu"; x.a[4] = "localhost"; }
		else if ((cmd == "311" || cmd == "314") && own(m.arg(2))) { x.a[3] = "cu"; x.a[4] = "localhost"; }
		else if (cmd == "302" && m.a.size() > 2) {
			std::string t;
			for (size_t i = 0, e; i < m.a[2].size(); i = e + 1) {
				e = std::min(m.a[2].find(' ', i), m.a[2].size());
				std::string u = m.a[2].substr(i, e - i);
				size_t eq = u.find('=');
				if (u.empty()) continue;
				if (eq != std::string::npos && own(u.substr(0, eq - (eq && u[eq - 1] == '*')))) u = u.substr(0, eq + 2) + "cu@localhost";
				t += (t.empty() ? "" : " ") + u;
			}
			x.a[2] = t;
		}
		k.want.push_back(x);
	}
}

static void verify(Rig &r, Ctx &c)
{
	pump();
	for (auto &k : r.cl) {
		if (k.p->eof) fail(c, "dropped", "%s was disconnected", k.nick.c_str());
		Strs ls;
		for (auto &l : k.p->take()) if (l.compare(0, 10, "NOTICE * :")) ls.push_back(l);
		for (size_t i = 0; i < ls.size() || i < k.want.size(); i++) {
			if (i >= ls.size()) fail(c, "lost", "%s did not get %s", k.nick.c_str(), show(k.want[i]).c_str());
			Msg g = msg(ls[i]);
			if (i >= k.want.size()) fail(c, "extra", "%s got %s unexpectedly", k.nick.c_str(), show(g).c_str());
			Msg &w = k.want[i];
			if (g.a[0] == "302" && g.a.size() > 2) while (!g.a[2].empty() && g.a[2].back() == ' ') g.a[2].pop_back();
			if (!same(w, g)) fail(c, "differs", "%s got %s instead of %s", k.nick.c_str(), show(g).c_str(), show(w).c_str());
		}
		k.want.clear();
	}
	Strs ls = r.srv->take();
	for (size_t i = 0; i < ls.size() || i < r.up.size(); i++) {
		if (i >= ls.size()) fail(c, "up-lost", "the server did not get %s", show(r.up[i]).c_str());
		Msg g = msg(ls[i]);
		if (i >= r.up.size()) fail(c, "up-extra", "the server got %s unexpectedly", show(g).c_str());
		g.origin = "";
		g.has_origin = false;
		if (!same(r.up[i], g)) fail(c, "up-differs", "the server got %s instead of %s", show(g).c_str(), show(r.up[i]).c_str());
	}
	r.up.clear();
}

// send bytes cut in pieces, the proxy running in between
static void pieces(Peer &p, const std::string &b, Src &o)
{
	size_t i = 0;
	uint32_t mode = 1 + o.range(8) % 8;
	if (mode == 8) mode = 0;
	while (i < b.size()) {
		size_t k = mode ? b.size() - i : 1 + o.range(120);
		if (mode == 1) k = std::min(k, b.size() / 2 + 1);
		k = std::min(k, b.size() - i);
		p.send(b.substr(i, k));
		i += k;
		if (i < b.size()) pump();
	}
}

static void run(Src &s, Ctx &c, bool server, bool client)
{
	Src h = s.block(16);
	Rig r;
	r.always = h.chance(1, 3);
	r.off = h.chance(1, 4) ? 3600 * (int)h.range(5) : 0;
	bool admin = h.chance(1, 3);
	start_global("[global]\nautosave=false\nreplication=none\nreport-time=" + std::string(r.always ? "always" : h.chance(1, 2) ? "never" : "replication") + "\nreport-time-offset=" + std::to_string(r.off) + "\n" + (admin ? "admin-user=ctrlproxy\n" : ""));
	World w(h, "me");
	r.w = &w;
	r.me = "me";
	struct network_config *nc = add_network_config("net", "me");
	nc->ignore_first_nick = -1;
	nc->disable_cache = -1;
	r.n = start_network(nc, r.srv);
	View view(w.r, "me");
	r.v = &view;
	for (auto &l : w.welcome()) { r.srv->line(l); view.apply(l); }
	pump();
	r.srv->take();
	uint32_t ncl = 1 + h.range(3);
	int relayed = 0;
	auto add = [&] {
		Cl k;
		k.nick = "c" + std::to_string(r.cl.size());
		c.log("-- %s attaches", k.nick.c_str());
		k.p = attach(r.n, h.chance(1, 2) ? "me" : k.nick);
		k.p->take();
		r.cl.push_back(k);
	};
	for (uint32_t i = 0; i < ncl; i++) add();
	r.srv->take();
	while (!s.empty()) {
		Src o = s.block(24);
		uint32_t k = o.range(16);
		if (k == 15 && r.cl.size() > 1) { size_t i = o.range(r.cl.size()); c.log("-- %s detaches", r.cl[i].nick.c_str()); r.cl[i].p->close(); r.cl.erase(r.cl.begin() + i); pump(); continue; }
		if (k == 14 && r.cl.size() < 4) { add(); verify(r, c); continue; }
		if (server && (k < 8 || !client)) {
			Strs ls;
			std::string from = w.users[1 + o.range(9)].mask();
			switch (o.range(8)) {
			case 0: ls = {":" + from + " " + o.pick(Strs{"PRIVMSG", "NOTICE"}) + " " + o.pick(Strs{r.me, "#one", "@#one"}) + " :" + o.pick(TEXT)}; break;
			case 1: ls = {o.pick(Strs{":" + from + " INVITE " + r.me + " :#one", ":" + from + " WALLOPS :to all", ":irc.test NOTICE " + r.me + " :note", "NOTICE AUTH :*** looking", ":" + from + " FOO a b :c d", ":irc.test PONG irc.test :x", "PING 12345", "PING :a b", ":" + r.me + "!myident@my.host PRIVMSG #one :from another session", ":" + from + " PRIVMSG " + r.me + " :\001VERSION\001", ":" + from + " NOTICE " + r.me + " :\001PING 1\001", ":" + from + " ERROR x"})}; break;
			default: if (client) break; ls = w.step(o);
			}
			std::string bytes;
			for (auto &l : ls) {
				c.log("S> %s", q(l).c_str());
				bytes += l + (o.chance(1, 10) ? "\n" : "\r\n");
				down(r, l);
				Msg m = msg(l);
				if (m.a[0] == "NICK" && r.w->r.same(m.nick(), r.me)) r.me = m.arg(1);
				relayed++;
			}
			pieces(*r.srv, bytes, o);
		} else if (client) {
			uint32_t i = o.range(r.cl.size());
			std::string bytes;
			for (uint32_t cnt = 1 + o.range(3); cnt--;) {
				std::string t = o.chance(1, 10) ? std::string(380 + o.range(60), 'z') : o.chance(1, 12) ? "\001VERSION\001" : o.pick(TEXT);
				std::string l = o.pick(Strs{"PRIVMSG #one :" + t, "PRIVMSG bob :" + t, "NOTICE bob :" + t, "PRIVMSG bob,#one :" + t, "JOIN #x", "JOIN #x,#y key", "PART #x :" + t, "MODE #x +ov bob al", "KICK #x bob :" + t, "TOPIC #x :" + t, "AWAY :" + t, "AWAY", "INVITE bob #x", "WHOIS bob", "WHOIS irc.test bob", "WHO #x", "NAMES #x", "LIST", "OPER a b", "VERSION", "FOO bar :" + t, "MODE #x", "MODE #x b", "TOPIC #x", "USERHOST bob al", "ISON bob", "NICK other", "WALLOPS :" + t, "STATS u", "LUSERS", "PRIVMSG", "PRIVMSG bob", "PRIVMSG ctrlproxy2 :" + t});
				Msg m = msg(l);
				bool lower = o.chance(1, 12);
				if (lower) { size_t e = l.find(' '); for (size_t j = 0; j < l.size() && j < e; j++) l[j] = tolower(l[j]); }
				c.log("%s> %s", r.cl[i].nick.c_str(), q(l).c_str());
				bytes += (o.chance(1, 12) ? ":bogus!a@b " : "") + l + (o.chance(1, 10) ? "\n" : "\r\n");
				Msg u = msg(l);
				r.up.push_back(u);
				relayed++;
				if (m.a[0] != "PRIVMSG" && m.a[0] != "NOTICE") continue;
				if (m.a.size() > 2 && !m.a[2].empty() && m.a[2][0] == 1 && (m.a[0] == "NOTICE" || m.a[2].compare(0, 7, "\001ACTION"))) continue;
				Msg e = u;
				e.has_origin = true;
				e.origin = r.me + "!cu@localhost";
				if (r.always) prefix(e, r.off);
				for (size_t j = 0; j < r.cl.size(); j++) if (j != i) r.cl[j].want.push_back(e);
			}
			pieces(*r.cl[i].p, bytes, o);
		}
		verify(r, c);
		if (o.chance(1, 6)) vtime += o.range(5000);
	}
	close_all_peers();
	if (relayed >= 8 && ncl > 1) c.nontrivial();
	c.tag("clients " + std::to_string(ncl));
}

static void server(Src &s, Ctx &c) { run(s, c, true, false); }
static void client(Src &s, Ctx &c) { run(s, c, false, true); }
static void both(Src &s, Ctx &c) { run(s, c, true, true); }

Property the_property = {
	"P07",
	"at least 8 lines relayed with more than one client attached at the start",
	{"without the cache, and without answers to queries of clients (P08, P09)", "notices of the proxy itself (NOTICE *) are not compared"},
	{
		{"server", server, 16, 24, 40, 2500, 30000, 20},
		{"client", client, 16, 24, 40, 2500, 30000, 20},
		{"both", both, 16, 24, 40, 2500, 30000, 20},
	}};
