// P24: the user is marked away after being idle, and back on returning.
#include "world.h"
#include "internals.h"

struct Net { struct irc_network *n; struct network_config *nc; PeerP p; bool in = false, away = false; std::vector<PeerP> cl; std::string nick; };

static void away(Src &s, Ctx &c)
{
	Src h = s.block(24);
	uint32_t nn = 1 + h.range(3);
	static const int TM[] = {30, 60, 45, -1, 29, 600};
	int tm = TM[h.range(6)], limit = (int)h.range(4) - 1;
	bool hasmsg = h.chance(2, 3), hasnick = h.chance(1, 3);
	std::string msgtext = hasmsg ? h.pick(Strs{"gone fishing", "x", ":-)", "I'm currently away, sorry!"}) : "Auto Away";
	std::string cfg = "[global]\nautosave=false\nreplication=none\nreport-time=never\nmotd-file=/nonexistent/motd\n";
	cfg += "auto-away-enable=true\n";
	if (tm != -1 || h.chance(1, 2)) cfg += "auto-away-time=" + std::to_string(tm) + "\n";
	if (limit != -1 || h.chance(1, 2)) cfg += "auto-away-client-limit=" + std::to_string(limit) + "\n";
	if (hasmsg) cfg += "auto-away-message=" + msgtext + "\n";
	if (hasnick) cfg += "auto-away-nick=me|away\n";
	start_global(cfg);
	c.log("time %d limit %d message %s nick %d", tm, limit, q(msgtext).c_str(), hasnick);
	if (!G->config->auto_away.enabled) fail(c, "enable", "not enabled");
	auto_away_add(G, (struct auto_away_config *)&G->config->auto_away);
	int max = tm == -1 ? 600 : tm;
	bool timer = max >= 30;
	std::vector<Net> net(nn);
	for (uint32_t i = 0; i < nn; i++) {
		Net &x = net[i];
		x.nc = add_network_config("net" + std::to_string(i), "me");
		if (h.chance(1, 3)) { GPtrArray *a = g_ptr_array_new(); g_ptr_array_add(a, g_strdup("PRIVMSG Q :AUTH me pw")); g_ptr_array_add(a, NULL); x.nc->autocmd = (char **)g_ptr_array_free(a, FALSE); }
		x.n = start_network(x.nc, x.p);
		x.nick = "me";
	}
	pump();
	long active = vtime, mark = vtime;   // the user did something; that or the last AWAY
	int marked = 0, back = 0;

	auto eligible = [&](Net &x, size_t cl) { return limit < 0 || (int)cl <= limit; };
	// What reached the servers since; the servers answer. Returns the AWAY lines of each network.
	auto collect = [&](std::vector<Strs> &aw) {
		aw.assign(nn, Strs());
		for (int round = 0; round < 3; round++) {
			pump();
			for (uint32_t i = 0; i < nn; i++) {
				Net &x = net[i];
				if (!x.p) continue;
				for (auto &l : x.p->take()) {
					Msg m = msg(l);
					if (m.a[0] == "AWAY") {
						bool on = m.a.size() > 1 && !m.a[1].empty();
						aw[i].push_back(on ? m.a[1] : "");
						if (x.in) {
							x.away = on;
							x.p->line(std::string(":irc.test ") + (on ? "306 " : "305 ") + x.nick + (on ? " :You have been marked as being away" : " :You are no longer marked as being away"));
						}
						c.log("  net%u: %s", i, l.c_str());
					}
					if (m.a[0] == "NICK" && x.in && m.arg(1) != x.nick) {
						x.p->line(":" + x.nick + "!u@h NICK " + m.arg(1));
						if (m.arg(1) == "me|away" && !hasnick) fail(c, "nick", "an unknown nick was chosen");
						x.nick = m.arg(1);
					}
				}
			}
		}
		for (auto &v : aw) if (!v.empty()) mark = vtime;
	};
	std::vector<Strs> aw;
	auto nothing = [&](const char *what) { collect(aw); for (uint32_t i = 0; i < nn; i++) if (!aw[i].empty()) fail(c, "unasked", "%s: AWAY %s on net%u", what, q(aw[i][0]).c_str(), i); };
	// the user came back by saying something
	auto came_back = [&](std::vector<bool> was, const char *what) {
		collect(aw);
		active = mark = vtime;
		for (uint32_t i = 0; i < nn; i++) {
			if (was[i] && aw[i] != Strs{""}) fail(c, "back", "%s: still away on net%u: %zu AWAY lines", what, i, aw[i].size());
			if (!was[i] && !aw[i].empty()) fail(c, "back", "%s: AWAY %s on net%u", what, q(aw[i][0]).c_str(), i);
			if (was[i]) back++;
		}
	};
	auto pass = [&](long secs) {
		c.log("%ld seconds", secs);
		for (long t = 0; t < secs; t++) {
			advance(1);
			std::vector<bool> was;
			for (auto &x : net) was.push_back(x.away);
			long m0 = mark, nick_changes = 0;
			std::vector<std::string> nk;
			for (auto &x : net) nk.push_back(x.nick);
			(void)nick_changes;
			collect(aw);
			for (uint32_t i = 0; i < nn; i++) {
				Net &x = net[i];
				for (auto &a : aw[i]) {
					if (a.empty()) fail(c, "back", "no longer away on net%u although nobody did anything", i);
					if (a != msgtext) fail(c, "text", "away with %s instead of %s", q(a).c_str(), q(msgtext).c_str());
					if (!timer) fail(c, "time", "away after %ld seconds with the time set to %d", vtime - active, tm);
					if (vtime - active <= max) fail(c, "early", "net%u: away after %ld seconds of %d", i, vtime - active, max);
					if (was[i]) fail(c, "again", "net%u: away already", i);
					if (!eligible(x, x.cl.size())) fail(c, "limit", "net%u: away with %zu clients", i, x.cl.size());
					if (hasnick && x.nick != "me|away") fail(c, "nick", "net%u: the nick is %s", i, x.nick.c_str());
					marked++;
				}
				if (aw[i].size() > 1) fail(c, "twice", "net%u: AWAY sent %zu times", i, aw[i].size());
				if (aw[i].empty() && x.nick != nk[i]) fail(c, "nick", "net%u: the nick was changed to %s", i, x.nick.c_str());
				if (x.in && !x.away && timer && eligible(x, x.cl.size()) && vtime - m0 > max + 2) fail(c, "late", "net%u: not away after %ld seconds", i, vtime - m0);
			}
		}
	};
	auto login = [&](Net &x) {
		x.p->line(":irc.test 001 " + x.nick + " :Welcome");
		if (x.n->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD) return;
		x.p->line(":irc.test 376 " + x.nick + " :End of MOTD");
		x.in = true;
	};
	for (auto &x : net) if (h.chance(4, 5)) login(x);
	for (auto &x : net) if (h.chance(2, 3)) x.cl.push_back(attach(x.n, x.nick));
	collect(aw);

	while (!s.empty()) {
		Src o = s.block(10);
		Net &x = net[o.range(nn)];
		size_t xi = &x - &net[0];
		std::vector<bool> was;
		for (auto &y : net) was.push_back(y.away);
		switch (o.range(16)) {
		case 0: case 1: pass(1 + o.range(timer ? max : 60)); break;
		case 2: pass(max + 5); break;
		case 3: pass(o.range(10)); break;
		case 4: case 5: {                // the user says something
			if (!x.in || x.cl.empty()) break;
			PeerP p = x.cl[o.range(x.cl.size())];
			std::string l = o.pick(Strs{"PRIVMSG #a :hello", "PRIVMSG bob :hi", "NOTICE bob :note", "PRIVMSG #a :\x01" "ACTION waves\x01"});
			c.log("net%zu: user: %s", xi, q(l).c_str());
			p->line(l);
			came_back(was, "the user spoke");
			break;
		}
		case 6: {                        // the user says to be away, or back
			if (!x.in || x.cl.empty()) break;
			bool on = o.chance(1, 2);
			std::string l = on ? "AWAY :for a walk" : o.pick(Strs{"AWAY", "AWAY :"});
			c.log("net%zu: user: %s", xi, l.c_str());
			x.cl[o.range(x.cl.size())]->line(l);
			collect(aw);
			active = mark = vtime;
			for (uint32_t i = 0; i < nn; i++) if (aw[i] != (i == xi ? Strs{on ? "for a walk" : ""} : Strs())) fail(c, "own", "%s on net%u", aw[i].empty() ? "nothing" : q(aw[i][0]).c_str(), i);
			break;
		}
		case 7: case 8: {                // somebody attaches
			if (x.cl.size() > 3 || !x.p) break;
			x.cl.push_back(attach(x.n, x.nick));
			c.log("net%zu: attached, %zu clients", xi, x.cl.size());
			collect(aw);
			if (x.in && x.away && !eligible(x, x.cl.size())) fail(c, "limit", "net%zu: away with %zu clients", xi, x.cl.size());
			for (uint32_t i = 0; i < nn; i++) for (auto &a : aw[i]) if (i != xi || !a.empty() || limit < 0) fail(c, "attach", "AWAY %s on net%u", q(a).c_str(), i);
			if (was[xi] && !x.away) back++;
			break;
		}
		case 9: case 10: {               // and leaves
			if (x.cl.empty()) break;
			size_t k = o.range(x.cl.size());
			if (o.chance(1, 2)) x.cl[k]->line("QUIT :bye");
			else x.cl[k]->close();
			x.cl.erase(x.cl.begin() + k);
			c.log("net%zu: detached, %zu clients", xi, x.cl.size());
			collect(aw);
			for (uint32_t i = 0; i < nn; i++) for (auto &a : aw[i]) if (i != xi || limit < 0 || !eligible(x, x.cl.size()) || a != msgtext) fail(c, "detach", "AWAY %s on net%u", q(a).c_str(), i);
			break;
		}
		case 11: case 12: {              // what others do
			if (!x.in) break;
			std::string l = o.pick(Strs{":bob!u@h PRIVMSG " + x.nick + " :hi there", ":bob!u@h PRIVMSG " + x.nick + " :\x01VERSION\x01", ":bob!u@h PRIVMSG " + x.nick + " :\x01PING 1\x01", ":bob!u@h NOTICE " + x.nick + " :note", ":irc.test 301 " + x.nick + " bob :away", "PING :irc.test", ":bob!u@h PRIVMSG " + x.nick + " :\x01NONSENSE\x01"});
			c.log("net%zu: < %s", xi, q(l).c_str());
			x.p->line(l);
			nothing("somebody else");
			break;
		}
		case 13: {                       // the connection is lost, or comes up
			if (x.p) {
				disconnect_network(x.n);
				x.p.reset();
				x.in = x.away = false;
				c.log("net%zu: disconnected", xi);
			} else {
				x.p = connect_server(x.n);
				c.log("net%zu: connected", xi);
				pump();
				for (auto &l : x.p->take()) { Msg m = msg(l); if (m.a[0] == "NICK") x.nick = m.arg(1); }
			}
			nothing("connecting");
			break;
		}
		case 14: if (x.p && !x.in) { login(x); c.log("net%zu: logged in", xi); nothing("logging in"); } break;
		case 15: {                       // not something said to anybody
			if (!x.in || x.cl.empty()) break;
			std::string l = o.pick(Strs{"PING x", "WHOIS bob", "MODE #a", "CTRLPROXY LISTNETWORKS"});
			c.log("net%zu: user: %s", xi, l.c_str());
			x.cl[0]->line(l);
			nothing("another command");
			break;
		}
		}
		for (auto &y : net) for (auto &p : y.cl) if (p->eof) fail(c, "client", "a client was disconnected");
	}
	close_all_peers();
	if (marked && back) c.nontrivial();
	if (marked > 1) c.tag("away often");
	if (limit >= 0) c.tag("limit");
}

Property the_property = {
	"P24",
	"the user was marked away for being idle and came back",
	{"servers answer AWAY at once", "a client leaving may set the user away at once when a limit on clients is set", "an AWAY sets the time idle back", "saying something ends an AWAY set by the user as well"},
	{
		{"away", away, 24, 10, 40, 4000, 80000, 1},
	}};
