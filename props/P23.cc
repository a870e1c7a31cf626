// P23: clients stay through an outage and know the session once it is over.
#include "world.h"
#include <netinet/tcp.h>

struct Cl {
	PeerP p;
	std::string nick;
	View *v = nullptr;
	bool fresh = true, seen = false;      // seen: was there when the login completed
	std::set<std::string> refused;
};

static void outage(Src &s, Ctx &c)
{
	Src h = s.block(24);
	static const Strs repl = {"none", "none", "highlight", "bogus"};
	start_global("[global]\nautosave=false\nreplication=" + h.pick(repl) + "\nmatch=x;\nmotd-file=/nonexistent/motd\n");
	World w(h, "me");
	w.r = Rules();                         // what clients that were there before the login know
	w.casevary = h.chance(1, 2);
	struct network_config *nc = add_network_config("net", "me");
	nc->ignore_first_nick = TRUE;
	nc->type = network_config::NETWORK_TCP;
	Listener lis;
	add_tcp_server(nc, "127.0.0.1", lis.port, "");
	nc->reconnect_interval = 30;
	struct irc_network *n = load_network(G, nc);
	std::vector<Cl> cls;
	PeerP p;
	enum { OFF, PENDING, LOGIN, UP } st = OFF;
	long syncs = 0, mark = 0;
	int outages = 0, ups = 0, answered = 0;
	size_t widest = 0;

	auto sync = [&] {
		pump();
		if (!p) return;
		std::string t = "sync" + std::to_string(syncs++);
		p->line("PING " + t);
		bool ok = false;
		pump_until([&] { for (auto &l : p->lines) { Msg m = msg(l); if (!m.a.empty() && m.a[0] == "PONG" && m.arg(1) == t) ok = true; } return ok || p->eof; }, 5000);
		if (!ok) fail(c, "pong", p->eof ? "the connection to the server was closed" : "a PING was not answered");
		for (size_t i = 0; i < p->lines.size(); ) if (p->lines[i].compare(0, 4, "PONG") == 0) p->lines.erase(p->lines.begin() + i); else i++;
	};
	auto from = [&](const std::string &l) { c.log("S> %s", q(l).c_str()); p->line(l); };
	auto hear = [&](Cl &k) {               // the client reads what there is
		Strs ls = k.p->take();
		if (!k.v) { k.v = new View(Rules(), k.nick); k.v->users[k.v->me].query = true; }
		for (auto &l : ls) {
			c.log("     %s> %s", k.nick.c_str(), q(l).c_str());
			Msg m = msg(l);
			if (m.a.empty()) continue;
			// joining anew, a client starts anew
			if (m.a[0] == "JOIN" && k.v->r.fold(m.nick()) == k.v->me) { k.v->chans.erase(k.v->r.fold(m.arg(1))); k.refused.erase(k.v->r.fold(m.arg(1))); }
			if (m.a[0] == "471" || m.a[0] == "473" || m.a[0] == "474" || m.a[0] == "475") k.refused.insert(k.v->r.fold(m.arg(2)));
			k.v->apply(l);
		}
		if (k.p->eof) fail(c, "dropped", "%s was disconnected", k.nick.c_str());
		return ls;
	};
	auto check = [&](const char *when) {
		for (auto &k : cls) {
			hear(k);
			if (st != UP) {
				for (auto &x : k.v->chans) for (auto &m : x.second.members)
					if (m.first != k.v->me) fail(c, "ghost", "%s: %s still sees %s on %s", when, k.nick.c_str(), m.first.c_str(), x.second.name.c_str());
				continue;
			}
			for (auto &x : k.refused) k.v->chans.erase(x);
			std::string d = client_diff(*k.v, n->external_state, k.fresh ? 1 : 0);
			if (!d.empty()) fail(c, "knows", "%s: %s: %s", when, k.nick.c_str(), d.c_str());
			k.fresh = false;
		}
	};
	auto add = [&](const std::string &nick) {
		Cl k;
		k.nick = nick;
		c.log("-- %s attaches", nick.c_str());
		k.p = attach(n, nick);
		cls.push_back(k);
		sync();
		check("attached");
	};
	auto gone = [&](const char *how) {
		c.log("-- %s", how);
		p.reset();
		for (auto &x : w.chans) x.members.erase(0);
		w.umodes.clear();
		w.away = false;
		for (auto &k : cls) if (k.v) k.v->away = false;
		outages++;
	};
	auto up = [&](Src &o) {                // the server lets us in
		std::string &me = w.users[0].nick;
		std::string want;
		pump_until([&] { return p->lines.size() >= 2 && p->lines.back().compare(0, 5, "USER ") == 0; }, 3000);
		for (auto &l : p->take()) { Msg m = msg(l); if (m.a[0] == "NICK") want = m.arg(1); }
		if (want.empty()) fail(c, "login", "no login");
		me = want;
		for (size_t u = 1; u < w.users.size(); u++) if (w.r.same(w.users[u].nick, me)) { w.users[u].nick = "x" + std::to_string(syncs++); }
		if (o.chance(1, 3)) {
			from(":irc.test 433 * " + me + " :Nickname is already in use");
			sync();
			Strs g = p->take();
			if (g.size() != 1 || msg(g[0]).a[0] != "NICK") fail(c, "nick", "in use: the server got %s", g.empty() ? "nothing" : q(g[0]).c_str());
			me = msg(g[0]).arg(1);
		}
		st = LOGIN;
	};
	auto attempt = [&](Src &o) {
		p = lis.accept(3000);
		if (!p) fail(c, "connect", "no connection to the server");
		int one = 1;
		setsockopt(p->fd, SOL_TCP, TCP_NODELAY, &one, sizeof one);
		w.gone.clear();
		up(o);
	};
	auto complete = [&](Src &o) {
		for (auto &l : w.welcome()) from(l);
		sync();
		st = UP;
		ups++;
		// what the proxy asked for
		Strs g = p->take();
		for (auto &l : g) {
			Msg m = msg(l);
			c.log("  S< %s", q(l).c_str());
			if (m.a[0] == "JOIN") for (size_t i = 0; i < w.chans.size(); i++) {
				if (!w.r.same(w.chans[i].name, m.arg(1)) || w.in(i, 0)) continue;
				if (o.chance(1, 4)) { from(":irc.test 474 " + w.users[0].nick + " " + w.chans[i].name + " :Cannot join channel (+b)"); c.tag("refused"); continue; }
				if (!w.chans[i].members.empty() && o.chance(1, 3)) { w.chans[i].topic = o.chance(1, 2) ? "" : "a new topic"; w.chans[i].topic_by = "bob"; w.chans[i].topic_time = vtime; }
				for (auto &x : w.join_burst(o, i)) from(x);
			} else if (m.a[0] != "USERHOST") fail(c, "sent", "after the login the server got %s", q(l).c_str());
		}
		sync();
		check("connected");
	};

	while (!s.empty()) {
		Src o = s.block(16);
		uint32_t op = o.range(10);
		if (op == 0 && cls.size() < 3) { add(o.pick(Strs{"me", "cl", "other", "me_"})); continue; }
		if (op == 1 && !cls.empty() && o.chance(1, 2)) {
			size_t i = o.range(cls.size());
			c.log("-- %s detaches", cls[i].nick.c_str());
			if (o.chance(1, 2)) cls[i].p->line("QUIT :bye");
			cls[i].p->close();
			delete cls[i].v;
			cls.erase(cls.begin() + i);
			sync();
			check("another left");
			continue;
		}
		if ((op == 2 || op == 3) && st != UP && !cls.empty()) {   // said while nobody is there to hear it
			Cl &k = cls[o.range(cls.size())];
			std::string t = "lost" + std::to_string(mark++);
			std::string l = o.pick(Strs{"PRIVMSG #one :" + t, "PRIVMSG bob :" + t, "NOTICE bob :" + t, "JOIN #" + t, "PART #one :" + t, "MODE #one", "WHO #one", "NAMES #one", "TOPIC #one :" + t, "WHOIS " + t, "NICK " + t, "LIST", "PRIVMSG bob :\001VERSION " + t + "\001", "NOTICE bob :\001PING " + t + "\001", "AWAY :" + t, "USERHOST bob", "KICK #one bob :" + t, "PRIVMSG", "JOIN", "PART", "NOTICE", "FOO " + t});
			c.log("  %s< %s", k.nick.c_str(), q(l).c_str());
			k.p->line(l);
			sync();
			Strs g = hear(k);
			if (g.size() != 1 || msg(g[0]).a[0].size() != 3 || msg(g[0]).a[0][0] < '4' || msg(g[0]).a[0][0] > '5') fail(c, "silent", "without a server, %s said %s and got %s", k.nick.c_str(), q(l).c_str(), g.empty() ? "nothing" : q(g[0]).c_str());
			// the error says what could not be done
			Msg q0 = msg(l), m = msg(g[0]);
			bool talk = q0.a[0] == "PRIVMSG" || q0.a[0] == "NOTICE", few = q0.a.size() == 1;
			std::string num = few && q0.a[0] != "LIST" ? "461" : talk ? "401" : q0.a[0] == "JOIN" ? "403" : q0.a[0] == "PART" ? "442" : "421", about = num == "421" || num == "461" ? q0.a[0] : q0.arg(1);
			if (m.a[0] != num || m.arg(2) != about) fail(c, "error", "without a server, %s said %s and got %s", k.nick.c_str(), q(l).c_str(), q(g[0]).c_str());
			for (auto &x : cls) if (&x != &k) { Strs r = hear(x); if (!r.empty()) fail(c, "leak", "without a server, %s said %s and another client got %s", k.nick.c_str(), q(l).c_str(), q(r[0]).c_str()); }
			if (p && !p->lines.empty()) fail(c, "sent", "during the login the server got %s", q(p->lines[0]).c_str());
			answered++;
			continue;
		}
		if (op == 4 && !cls.empty()) {
			Cl &k = cls[o.range(cls.size())];
			std::string t = "p" + std::to_string(mark++);
			k.p->line("PING " + t);
			sync();
			bool ok = false;
			for (auto &l : hear(k)) { Msg m = msg(l); if (m.a[0] == "PONG" && m.a.back() == t) ok = true; }
			if (!ok) fail(c, "alive", "PING %s from a client was not answered", t.c_str());
			continue;
		}
		switch (st) {
		case OFF:
			c.log("-- connect");
			if (!cls.empty() && o.chance(1, 2)) { cls[0].p->line("CTRLPROXY CONNECT net"); pump(); } else connect_network(n);
			attempt(o);
			check("connecting");
			break;
		case PENDING: {
			long k = o.chance(1, 3) ? o.range(20) : 31;
			c.log("-- %ld seconds", k);
			advance(k);
			pump();
			if (n->connection.state != NETWORK_CONNECTION_STATE_RECONNECT_PENDING) attempt(o);
			check("waiting");
			break;
		}
		case LOGIN:
			if (o.chance(1, 5)) { p->close(); pump_until([&] { return n->connection.state == NETWORK_CONNECTION_STATE_RECONNECT_PENDING; }, 3000); gone("lost during the login"); st = PENDING; check("lost"); break; }
			complete(o);
			break;
		case UP: {
			if (!o.chance(1, 4)) {
				for (auto &l : w.step(o)) if (l.find("ERROR") == std::string::npos) from(l);
				sync();
				std::string d = state_sound(n->external_state);
				if (!d.empty()) fail(c, "unsound", "%s", d.c_str());
				check("following");
				p->take();
				for (auto &k : cls) for (auto &x : k.v->chans) widest = std::max(widest, x.second.members.size());
				break;
			}
			uint32_t how = o.range(3);
			if (how == 2 && !cls.empty()) {
				Cl &k = cls[o.range(cls.size())];
				c.log("  %s< CTRLPROXY DISCONNECT", k.nick.c_str());
				k.p->line("CTRLPROXY DISCONNECT");
				pump_until([&] { return p->eof; }, 3000);
				if (!p->eof) fail(c, "open", "DISCONNECT leaves the connection open");
				gone("disconnected");
				st = OFF;
			} else {
				if (how == 1) from("ERROR :Closing Link: me");
				p->close();
				pump_until([&] { return n->connection.state == NETWORK_CONNECTION_STATE_RECONNECT_PENDING; }, 3000);
				if (n->connection.state != NETWORK_CONNECTION_STATE_RECONNECT_PENDING) fail(c, "pending", "not reconnecting after the connection was closed");
				gone("connection lost");
				st = PENDING;
			}
			check("lost");
			break;
		}
		}
	}
	if (outages && ups > 1 && widest > 1) c.nontrivial();
	c.tag("outages " + std::to_string(std::min(outages, 4)));
	if (answered) c.tag("refused without server");
	for (auto &k : cls) delete k.v;
	close_all_peers();
}

Property the_property = {
	"P23",
	"at least one outage that was over before the end, with a client that had seen somebody else on a channel",
	{"a client that sees itself join a channel forgets what it knew of it", "a client that is told it cannot join a channel knows it is not on it", "whether the user is away is not compared across an outage"},
	{
		{"outage", outage, 24, 16, 60, 1200, 20000, 1},
	}};
