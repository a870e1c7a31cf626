// P22: connections to servers come up, log in, are watched and come back.
#include "world.h"
#include <netinet/tcp.h>

struct Srv { std::unique_ptr<Listener> l; int kind; std::string pass, bind; };   // kind 0 good, 1 refuses, 2 cannot be resolved
struct Chan { bool joined = false, maybe = false; std::string key; };             // maybe: the key may be left out

// another address of this host, if there is any
static std::string local(const char *a)
{
	static std::map<std::string, bool> ok;
	if (!ok.count(a)) ok[a] = can_bind(a);
	return ok[a] ? a : "127.0.0.1";
}

static bool same(const Strs &x, const Strs &y)
{
	return x.size() == y.size() && std::equal(x.begin(), x.end(), y.begin(), [](const std::string &a, const std::string &b) { return msg(a).a == msg(b).a; });
}

static void life(Src &s, Ctx &c)
{
	start_global("[global]\nautosave=false\nreplication=none\nreport-time=never\nmotd-file=/nonexistent/motd\n");
	Src h = s.block(48);
	struct network_config *nc = add_network_config("net", "me"), *other = add_network_config("adm", "op");
	std::vector<Srv> srv;
	nc->type = network_config::NETWORK_TCP;
	uint32_t ns = 1 + h.range(3), good = h.range(ns);
	std::string netpass = h.chance(1, 3) ? "netpw" : "", netbind = h.chance(1, 5) ? local("127.0.0.2") : "";
	if (!netpass.empty()) nc->password = g_strdup(netpass.c_str());
	if (!netbind.empty()) nc->type_settings.tcp.default_bind_address = g_strdup(netbind.c_str());
	for (uint32_t i = 0; i < ns; i++) {
		Srv x;
		x.l.reset(new Listener());
		x.kind = i == good ? 0 : h.range(3);
		if (h.chance(1, 3)) x.pass = "pw" + std::to_string(i);
		if (h.chance(1, 5)) x.bind = local("127.0.0.3");
		add_tcp_server(nc, "127.0.0.1", x.l->port, x.pass);
		struct tcp_server_config *t = (struct tcp_server_config *)g_list_last(nc->type_settings.tcp.servers)->data;
		if (x.kind == 1) { ::close(x.l->fd); x.l->fd = -1; }
		if (x.kind == 2) { g_free(t->port); t->port = g_strdup("no such port"); }
		if (!x.bind.empty()) t->bind_address = g_strdup(x.bind.c_str());
		c.log("server %u: %s %s %s", i, x.kind == 0 ? "good" : x.kind == 1 ? "refuses" : "unresolvable", x.pass.c_str(), x.bind.c_str());
		srv.push_back(std::move(x));
	}
	static const int IV[] = {-1, 1, 5, 30, 90};
	int iv = IV[h.range(5)];
	nc->reconnect_interval = iv;
	if (iv < 0) iv = 60;
	Strs autocmd;
	if (h.chance(1, 2)) {
		for (uint32_t k = 1 + h.range(3); k--;) autocmd.push_back(h.pick(Strs{"PRIVMSG bob :hi there", "MODE me +i", "OPER a b", "AWAY :gone away"}));
		GPtrArray *a = g_ptr_array_new();
		for (auto &x : autocmd) g_ptr_array_add(a, g_strdup(x.c_str()));
		if (h.chance(1, 5)) g_ptr_array_add(a, g_strdup(h.pick(Strs{"", " ", ":"}).c_str()));
		g_ptr_array_add(a, NULL);
		nc->autocmd = (char **)g_ptr_array_free(a, FALSE);
	}
	std::map<std::string, Chan> mem, now;                          // remembered; at present
	for (const char *n : {"#a", "#b", "&c"}) if (h.chance(1, 2)) {
		struct channel_config *cc = g_new0(struct channel_config, 1);
		cc->name = g_strdup(n);
		cc->autojoin = h.chance(2, 3);
		if (h.chance(1, 3)) cc->key = g_strdup("key");
		nc->channels = g_list_append(nc->channels, cc);
		mem[n].joined = cc->autojoin;
		mem[n].key = cc->key ? "key" : "";
	}
	PeerP osrv;
	struct irc_network *n = load_network(G, nc), *on = start_network(other, osrv);
	pump();
	for (auto &l : {":irc.test 001 op :Welcome", ":irc.test 376 op :End of MOTD"}) osrv->line(l);
	PeerP cl = attach(on, "op");
	pump();

	// ---- model ----
	enum { OFF, PENDING, UP } st = OFF;
	bool in = false;                     // logged in
	long due = 0, heard = 0, pinged = 0;
	size_t cur = 0;                      // server in use or to be tried next
	PeerP p;
	std::string nick = "me", saved = "me", stage_nick;
	int attempts = 0, drops = 0, logins = 0;

	// everything sent so far was handled, and the answers are here
	long syncs = 0;
	auto sync = [&] {
		std::string t = "sync" + std::to_string(syncs++);
		p->line("PING " + t);
		size_t at = 0;
		auto there = [&] { for (at = 0; at < p->lines.size(); at++) { Msg m = msg(p->lines[at]); if (m.a[0] == "PONG" && m.arg(1) == t) return true; } return p->eof; };
		pump_until(there, 5000);
		if (at < p->lines.size()) p->lines.erase(p->lines.begin() + at);
		else fail(c, "pong", p->eof ? "the connection was closed" : "a PING was not answered");
		for (size_t i = 0; i < p->lines.size(); ) if (msg(p->lines[i]).a == Strs{"PING", "ctrlproxy"}) p->lines.erase(p->lines.begin() + i); else i++;
		heard = vtime;
		pinged = 0;
	};
	auto from = [&](const std::string &l) { c.log("< %s", q(l).c_str()); p->line(l); sync(); };
	auto forget = [&] {                  // the connection is gone
		if (in) { saved = nick; for (auto &x : mem) x.second.joined = false; for (auto &x : now) { std::string k = mem.count(x.first) ? mem[x.first].key : ""; Chan y = x.second; if (y.key == "?") { y.key = k; y.maybe = mem.count(x.first) && mem[x.first].maybe; } mem[x.first] = y; } }
		in = false;
		now.clear();
		p.reset();
	};
	auto pend = [&] { st = PENDING; due = vtime + iv; };
	auto connected = [&](size_t i) -> PeerP {
		int fd = -1;
		pump_until([&] { if (fd < 0) fd = ::accept4(srv[i].l->fd, NULL, NULL, SOCK_NONBLOCK | SOCK_CLOEXEC); return fd >= 0; }, 2000);
		if (fd < 0) return nullptr;
		struct linger lg = {1, 0};
		setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
		int one = 1;
		setsockopt(fd, SOL_TCP, TCP_NODELAY, &one, sizeof one);
		struct sockaddr_in sa;
		socklen_t sl = sizeof sa;
		std::string want = !srv[i].bind.empty() ? srv[i].bind : netbind;
		if (getpeername(fd, (struct sockaddr *)&sa, &sl) == 0 && !want.empty() && want != inet_ntoa(sa.sin_addr)) fail(c, "bind", "connected from %s instead of %s", inet_ntoa(sa.sin_addr), want.c_str());
		PeerP r = std::make_shared<Peer>(fd);
		pump();
		return r;
	};
	auto quiet = [&](const char *when) {
		pump();
		for (size_t i = 0; i < srv.size(); i++) if (srv[i].l->fd >= 0) { int fd = ::accept(srv[i].l->fd, NULL, NULL); if (fd >= 0) { ::close(fd); fail(c, "connection", "%s: a connection to server %zu", when, i); } }
	};
	auto read_login = [&] {
		pump_until([&] { return p->lines.size() >= 2 && !p->lines.empty() && p->lines.back().compare(0, 5, "USER ") == 0; }, 2000);
		Strs w, g = p->take();
		std::string pw = !srv[cur].pass.empty() ? srv[cur].pass : netpass;
		if (!pw.empty()) w.push_back("PASS " + pw);
		w.push_back("NICK " + saved);
		if (g.size() != w.size() + 1 || !std::equal(w.begin(), w.end(), g.begin(), [](const std::string &x, const std::string &y) { return msg(x).a == msg(y).a; })) { std::string t; for (auto &x : g) t += q(x) + " "; fail(c, "login", "logging in to server %zu: %s", cur, t.c_str()); }
		Msg m = msg(g.back());
		if (m.a[0] != "USER" || m.arg(1) != "user" || m.arg(4) != "Full Name") fail(c, "login", "%s", q(g.back()).c_str());
		nick = saved;
		heard = vtime;
		pinged = 0;
		logins++;
	};
	// the proxy tries server cur now
	auto attempt = [&](const char *when) {
		attempts++;
		if (srv[cur].kind == 0) {
			p = connected(cur);
			if (!p) fail(c, "connect", "%s: no connection to server %zu", when, cur);
			c.log("%s: connected to server %zu", when, cur);
			st = UP;
			read_login();
			quiet(when);
			return;
		}
		c.log("%s: server %zu fails", when, cur);
		pump_until([&] { return n->connection.state != NETWORK_CONNECTION_STATE_CONNECTING; }, 2000);
		cur = (cur + 1) % srv.size();
		pend();
		quiet(when);
	};
	auto dropped = [&](const char *when) {
		c.log("%s", when);
		drops++;
		forget();
		cur = (cur + 1) % srv.size();
		pend();
	};
	auto pass = [&](long secs) {
		for (long i = 0; i < secs; i++) {
			advance(1);
			if (st == PENDING && vtime >= due) { attempt("reconnecting"); continue; }
			if (st != UP) { if (i % 20 == 0 || i + 1 == secs) quiet("waiting"); continue; }
			pump();
			bool gone = n->connection.state == NETWORK_CONNECTION_STATE_RECONNECT_PENDING;
			if (gone) pump_until([&] { return p->eof; }, 2000);
			else if (vtime - heard > 70 && !pinged) pump_until([&] { return !p->lines.empty(); }, 2000);
			Strs l = p->take();
			bool ping = false;
			for (auto &x : l) {
				if (x != "PING ctrlproxy" && x != "PING :ctrlproxy" && x.compare(0, 4, "QUIT") != 0) fail(c, "unasked", "the server got %s", q(x).c_str());
				if (x.compare(0, 4, "PING") == 0) { if (vtime - heard < 50) fail(c, "ping", "PING %ld seconds after the last line", vtime - heard); pinged = vtime; ping = true; }
			}
			if (ping && p->autopong && !gone) sync();
			if (p->eof) {
				if (vtime - heard <= 120) fail(c, "dropped", "the connection was closed %ld seconds after the last line", (long)(vtime - heard));
				dropped("ping timeout");
				c.tag("timeout");
			} else {
				if (vtime - heard > 130) fail(c, "silent", "the server has been silent for %ld seconds", (long)(vtime - heard));
				if (vtime - heard > 70 && !pinged) fail(c, "silent", "no PING after %ld seconds of silence", (long)(vtime - heard));
				if (pinged && vtime - pinged > 60) pinged = 0;
			}
		}
	};
	auto manual = [&](const std::string &cmd) {
		c.log("%s", cmd.c_str());
		cl->line("CTRLPROXY " + cmd);
		pump();
		cl->take();
	};
	auto index = [&] {
		size_t i = 0;
		for (GList *l = nc->type_settings.tcp.servers; l; l = l->next, i++) if (l->data == n->connection.data.tcp.current_server) return i;
		return (size_t)0;
	};
	// tried at the user's request: which server is not laid down
	auto tried = [&] {
		cur = index();
		if (n->connection.state == NETWORK_CONNECTION_STATE_NOT_CONNECTED) { st = OFF; c.log("not connected"); quiet("manual"); return; }
		if (n->connection.state == NETWORK_CONNECTION_STATE_RECONNECT_PENDING) { pend(); quiet("manual"); attempts++; return; }
		attempt("by hand");
	};
	auto closing = [&](PeerP x) {        // what the old connection sees
		pump_until([&] { return x->eof; }, 2000);
		if (!x->eof) fail(c, "open", "the connection to the server was not closed");
		Strs l = x->take();
		bool quit = false;
		for (auto &y : l) quit |= y.compare(0, 4, "QUIT") == 0;
		if (!quit) fail(c, "quit", "the server got no QUIT");
	};

	if (h.chance(1, 2)) {
		c.log("started");
		nc->autoconnect = TRUE;
		other->autoconnect = FALSE;
		autoconnect_networks(G->networks);
		pump();
		tried();
	}
	while (!s.empty()) {
		Src o = s.block(10);
		if (st == UP && !in) {
			switch (o.range(8)) {
			case 0: case 1: case 2: case 3: {
				from(":irc.test 001 " + nick + " :Welcome");
				if (o.chance(1, 2)) from(":irc.test 005 " + nick + " CHANTYPES=#& PREFIX=(ov)@+ CHANMODES=b,k,l,imnpst :are supported");
				if (o.chance(1, 2)) from(":irc.test 375 " + nick + " :MOTD");
				{ Strs e = p->take(); if (!e.empty()) fail(c, "early", "before the end of the MOTD: %s", q(e[0]).c_str()); }
				from(o.chance(1, 2) ? ":irc.test 376 " + nick + " :End of MOTD" : ":irc.test 422 " + nick + " :No MOTD");
				Strs g = p->take(), cmds;
				std::map<std::string, std::string> joins;
				for (auto &x : g) {
					Msg m = msg(x);
					if (m.a == Strs{"USERHOST", nick} || x.find_first_not_of(" :") == std::string::npos) continue;
					if (m.a[0] != "JOIN") { if (!joins.empty()) fail(c, "order", "%s after joining", q(x).c_str()); cmds.push_back(x); continue; }
					if (joins.count(m.arg(1))) fail(c, "join", "joined twice: %s", q(x).c_str());
					joins[m.arg(1)] = m.arg(2);
				}
				if (!same(cmds, autocmd)) { std::string t; for (auto &x : cmds) t += q(x) + " "; fail(c, "autocmd", "commands at login: %s", t.c_str()); }
				for (auto &x : mem) {
					if (!x.second.joined) { if (joins.count(x.first)) fail(c, "join", "joined %s", x.first.c_str()); continue; }
					if (!joins.count(x.first)) fail(c, "join", "%s was not joined", x.first.c_str());
					if (joins[x.first] != x.second.key && !(x.second.maybe && joins[x.first].empty())) fail(c, "key", "%s was joined with the key %s instead of %s", x.first.c_str(), q(joins[x.first]).c_str(), q(x.second.key).c_str());
					if (o.chance(5, 6)) {
						from(":" + nick + "!u@h JOIN " + x.first);
						from(":irc.test 353 " + nick + " = " + x.first + " :" + nick);
						from(":irc.test 366 " + nick + " " + x.first + " :End");
						now[x.first].joined = true;
						now[x.first].key = "?";
					}
				}
				for (auto &x : joins) if (!mem.count(x.first)) fail(c, "join", "joined %s", x.first.c_str());
				if (!p->take().empty()) { }
				in = true;
				c.tag("logged in");
				break;
			}
			case 4: case 5: {
				from(":irc.test 433 * " + nick + " :Nickname is already in use");
				Strs g = p->take();
				if (!same(g, Strs{"NICK " + nick + "_"})) fail(c, "nick", "in use: the server got %s", g.empty() ? "nothing" : q(g[0]).c_str());
				nick += "_";
				c.tag("433");
				break;
			}
			case 6: from("NOTICE AUTH :*** Checking ident"); break;
			case 7: {
				std::string t = o.pick(Strs{"1234", ":a b", "irc.test"});
				from("PING " + t);
				Strs g = p->take();
				if (g.size() != 1 || msg(g[0]).a != Strs{"PONG", t[0] == ':' ? t.substr(1) : t}) fail(c, "pong", "PING %s: the server got %s", t.c_str(), g.empty() ? "nothing" : q(g[0]).c_str());
				break;
			}
			}
			if (o.chance(2, 3)) continue;
		}
		switch (o.range(14)) {
		case 0: pass(1 + o.range(10)); break;
		case 1: pass(iv); break;
		case 2: pass(o.range(400)); break;
		case 3: if (p) { p->autopong = !p->autopong; c.log("the server %s PING", p->autopong ? "answers" : "ignores"); } break;
		case 4: case 5:
			if (st != UP) break;
			if (o.chance(1, 3)) from("ERROR :Closing Link");
			p->close();
			pump_until([&] { return n->connection.state == NETWORK_CONNECTION_STATE_RECONNECT_PENDING; }, 2000);
			dropped("the server closes");
			quiet("closed");
			break;
		case 6: case 7: {
			if (st == OFF && o.chance(1, 2)) break;
			bool was = st != OFF;
			PeerP x = p;
			manual("DISCONNECT net");
			if (x) closing(x);
			forget();
			st = OFF;
			quiet("disconnected");
			if (was && o.chance(1, 2)) { pass(200); c.tag("off"); }
			break;
		}
		case 8: case 9: {
			if (st == UP) { manual("CONNECT net"); quiet("connected already"); sync(); if (!p->take().empty()) fail(c, "connect", "something was sent"); break; }
			manual("CONNECT net");
			tried();
			break;
		}
		case 10: {
			PeerP x = p;
			manual("NEXTSERVER net");
			if (x) closing(x);
			forget();
			tried();
			break;
		}
		case 11: case 12: {
			if (st != UP || !in) break;
			static const Strs CH = {"#a", "#b", "&c", "#new"};
			std::string ch = o.pick(CH);
			if (!now.count(ch)) {
				from(":" + nick + "!u@h JOIN " + ch);
				from(":irc.test 353 " + nick + " = " + ch + " :@" + nick);
				from(":irc.test 366 " + nick + " " + ch + " :End");
				now[ch].joined = true;
				now[ch].key = "?";
			} else switch (o.range(5)) {
			case 0: from(":" + nick + "!u@h PART " + ch); now.erase(ch); break;
			case 1: from(":bob!u@h KICK " + ch + " " + nick + " :out"); now.erase(ch); break;
			case 2: from(":bob!u@h MODE " + ch + " +k newkey"); now[ch].key = "newkey"; now[ch].maybe = false; break;
			case 3: { bool k = o.chance(1, 2); from(":irc.test 324 " + nick + " " + ch + " +" + (k ? "kn sesame" : "nt")); now[ch].key = k ? "sesame" : ""; now[ch].maybe = false; break; }
			case 4: from(":bob!u@h MODE " + ch + " +l 5"); break;
			}
			p->take();
			break;
		}
		case 13: {
			if (st != UP || !in) break;
			std::string to = o.pick(Strs{"me", "alt", "me2", "Me"});
			if (to == nick) break;
			from(":" + nick + "!u@h NICK " + to);
			nick = to;
			p->take();
			break;
		}
		}
		pump();
		if (st == UP && p->eof) fail(c, "closed", "the connection was closed");
	}
	p.reset();
	close_all_peers();
	if (drops && logins > 1) c.nontrivial();
	if (attempts > 3) c.tag("attempts");
}

Property the_property = {
	"P22",
	"a connection was lost and another one made",
	{"only addresses on the loopback network, so that connecting succeeds or fails at once", "which server is used when the user asks for a connection is not laid down", "whether a first attempt that fails at once is repeated is not laid down"},
	{
		{"life", life, 48, 10, 40, 1200, 20000, 1},
	}};
