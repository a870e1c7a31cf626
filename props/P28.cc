// P28: the administration network is an IRC network like any other to its clients.
#include "world.h"
#include "internals.h"

struct Cl {
	PeerP p;
	std::string nick;
	View *v = nullptr;
};

extern enum log_level current_log_level;

static std::string low(std::string s) { for (auto &ch : s) ch = g_ascii_tolower(ch); return s; }
static std::string vary(Src &o, const std::string &n) { std::string t = n; if (o.chance(1, 3)) for (auto &ch : t) if (o.chance(1, 2)) ch = g_ascii_toupper(ch); return t; }
static std::string show(const Strs &v) { std::string t; for (auto &x : v) t += q(x) + " "; return t.empty() ? "nothing" : t; }
static std::string plain(const Msg &m) { std::string t; for (size_t i = 0; i < m.a.size(); i++) t += (i ? " " : "") + m.a[i]; return t; }

static void network(Src &s, Ctx &c)
{
	Src h = s.block(16);
	bool logging = h.chance(1, 2), cache = h.chance(1, 2), twice = h.chance(1, 3), adminuser = h.chance(1, 3);
	start_global(std::string("[global]\nautosave=false\nreplication=none\nreport-time=never\nmotd-file=/nonexistent/motd\nadmin-log=") + (logging ? "true" : "false") + (adminuser ? "\nadmin-user=root" : "") + "\n");
	current_log_level = h.pick(std::vector<enum log_level>{LOG_INFO, LOG_INFO, LOG_WARNING, LOG_TRACE});
	std::set<std::string> shown;                             // logged here at a level that is to be seen
	std::string logfile = scratch() + "/logged";
	write_file(logfile, "");
	if (!init_log(logfile.c_str())) fail(c, "log", "no log");
	std::vector<struct irc_network *> adm;
	for (int i = 0; i < 1 + twice; i++) {
		struct network_config *ac = add_network_config(i ? "adm2" : "adm", "me");
		ac->type = network_config::NETWORK_VIRTUAL;
		ac->type_settings.virtual_name = g_strdup("admin");
		if (!cache) ac->disable_cache = TRUE;
		adm.push_back(load_network(G, ac));
		if (!connect_network(adm.back())) fail(c, "adm", "the administration network does not start");
	}
	PeerP home;
	struct irc_network *n = start_network(add_network_config("home", "me"), home);
	size_t logged = slurp(logfile).size();
	std::vector<Cl> cls;
	long mark = 0;
	int asked = 0, seen = 0, came = 0;
	// what was logged since the last time
	auto log_lines = [&] {
		std::string t = slurp(logfile).substr(logged);
		logged += t.size();
		Strs r;
		for (size_t i = 0; i < t.size();) { size_t e = t.find('\n', i); r.push_back(t.substr(i, e - i)); i = e + 1; }
		for (auto &x : r) { size_t k = x.find("] "); if (x[0] == '[' && k == 20) x = x.substr(22); }
		// of what the proxy itself logs with everything on it is not known how heavy it is
		if (current_log_level == LOG_TRACE) r.erase(std::remove_if(r.begin(), r.end(), [&](const std::string &x) { return !shown.count(x); }), r.end());
		return r;
	};
	// everybody reads what there is; returns what the asker got apart from messages on the channel
	auto hear = [&](Cl *asker, const std::string &said, const Strs *channel, bool rejoin) {
		pump();
		Strs ret, lg = log_lines();
		for (auto &k : cls) {
			bool fresh = !k.v;
			if (fresh) { k.v = new View(Rules(), k.nick); k.v->users[k.v->me].query = true; }
			if (k.p->eof) fail(c, "dropped", "a client was disconnected");
			Strs chan, rest;
			bool echoed = false, joins = false;
			for (auto &l : k.p->take()) {
				c.log("     %zu> %s", &k - cls.data(), q(l).c_str());
				Msg m = msg(l);
				if (m.a[0] == "NOTICE" && m.arg(1) == "*") continue;
				if (m.a.size() == 1 && (m.a[0] == "PRIVMSG" || m.a[0] == "NOTICE")) continue;
				k.v->apply(l);
				if (fresh) continue;
				if (m.a[0] == "PRIVMSG" && m.nick() == "ctrlproxy" && low(m.arg(1)) == "#ctrlproxy") { chan.push_back(m.arg(2)); continue; }
				if (asker != &k && !said.empty() && plain(m) == said && m.nick() == "me") { echoed = true; continue; }
				if (rejoin && (m.a[0] == "PART" || m.a[0] == "JOIN" || m.a[0] == "332" || m.a[0] == "353" || m.a[0] == "366")) { joins = joins || m.a[0] == "JOIN"; continue; }
				rest.push_back(plain(m));
			}
			if (!fresh) {
				Strs want = channel ? *channel : Strs(), l = logging ? lg : Strs();
				size_t i = 0;
				Strs others;
				for (auto &x : chan) if (i < l.size() && x == l[i]) i++; else if (logging && current_log_level == LOG_TRACE && x.find("#") == std::string::npos) ; else others.push_back(x);
				if (i < l.size()) fail(c, "unlogged", "%s was logged and not shown on the channel", q(l[i]).c_str());
				if (others != want) fail(c, "channel", "on the channel there was %sinstead of %s", show(others).c_str(), show(want).c_str());
				if (!said.empty() && asker != &k && !echoed) fail(c, "echo", "another client was not shown %s", q(said).c_str());
				if (rejoin && !joins) fail(c, "rejoin", "a client did not join again");
				if (logging) seen += lg.size();
			}
			if (asker == &k) ret = rest;
			else if (!fresh && !rest.empty()) fail(c, "leak", "another client got %s", show(rest).c_str());
			// everybody sees the channel as it is
			if (k.v->chans.size() != 1 || !k.v->chan("#ctrlproxy")) fail(c, "joined", "client %zu is on %zu channels", &k - cls.data(), k.v->chans.size());
			VChan &ch = *k.v->chan("#ctrlproxy");
			if (ch.members.size() != 2 || !ch.members.count("ctrlproxy") || !ch.members.count(k.v->me) || !ch.members["ctrlproxy"].count('o')) { std::string t; for (auto &x : ch.members) t += x.first + " "; fail(c, "members", "client %zu sees on the channel: %s", &k - cls.data(), t.c_str()); }
			if (k.v->users[k.v->me].nick != "me") fail(c, "nick", "client %zu is called %s", &k - cls.data(), k.v->users[k.v->me].nick.c_str());
			if (ch.topic.find("administration channel") == std::string::npos) fail(c, "topic", "client %zu sees the topic %s", &k - cls.data(), q(ch.topic).c_str());
		}
		return ret;
	};
	auto want = [&](const std::string &cmd, const Strs &g, const Strs &w) { if (g != w) fail(c, low(cmd.substr(0, cmd.find(' '))).c_str(), "%s was answered %sinstead of %s", q(cmd).c_str(), show(g).c_str(), show(w).c_str()); };
	// what is only answered when it fails is known to have succeeded once something else was answered
	auto settle = [&](Cl &k) {
		k.p->line("ISON nobody");
		want("ISON nobody", hear(&k, "", nullptr, false), {"303 me "});
	};
	const std::string host = get_my_hostname();
	while (!s.empty()) {
		Src o = s.block(12);
		uint32_t op = o.range(20);
		if (cls.empty() || (op == 0 && cls.size() < 4)) {
			Cl k;
			k.nick = o.pick(Strs{"me", "me", "you"});
			c.log("-- %s attaches", k.nick.c_str());
			k.p = attach(adm[0], k.nick);
			cls.push_back(k);
			if (k.nick != "me") { pump(); for (size_t i = 0; i + 1 < cls.size(); i++) cls[i].p->lines.erase(std::remove_if(cls[i].p->lines.begin(), cls[i].p->lines.end(), [](const std::string &l) { return msg(l).a[0] == "421"; }), cls[i].p->lines.end()); }
			hear(nullptr, "", nullptr, false);
			came++;
			continue;
		}
		if (op == 1) {
			size_t i = o.range(cls.size());
			c.log("-- client %zu detaches", i);
			if (o.chance(1, 2)) cls[i].p->line("QUIT :bye");
			cls[i].p->close();
			delete cls[i].v;
			cls.erase(cls.begin() + i);
			hear(nullptr, "", nullptr, false);
			continue;
		}
		if (op == 2 || op == 3) {                        // something is logged
			for (uint32_t k = 1 + o.range(3); k--;) {
				enum log_level lv = o.pick(std::vector<enum log_level>{LOG_ERROR, LOG_WARNING, LOG_INFO, LOG_TRACE});
				std::string t = o.pick(Strs{"mark", "100%s %n", ":x", "caf\xc3\xa9", "a  b", "x:"}) + "#" + std::to_string(mark++);
				c.log("-- logged at %d: %s", lv, q(t).c_str());
				switch (o.range(3)) {
				case 0: log_global(lv, "%s", t.c_str()); if (lv <= LOG_INFO) shown.insert(t); break;
				case 1: network_log(lv, n, "%s", t.c_str()); if (lv <= LOG_INFO) shown.insert(t + " (home)"); break;
				case 2: home->line(":irc.test 00" + std::to_string(1 + o.range(9)) + " me"); break;
				}
			}
			hear(nullptr, "", nullptr, false);
			continue;
		}
		asked++;
		Cl &k = cls[o.range(cls.size())];
		auto ask = [&](const std::string &cmd, bool mirrored = false, const Strs *channel = nullptr, bool rejoin = false) {
			c.log("%zu< %s", &k - cls.data(), q(cmd).c_str());
			k.p->line(cmd);
			Strs r = hear(&k, mirrored ? plain(msg(cmd)) : "", channel, rejoin);
			settle(k);
			return r;
		};
		std::string ch = vary(o, "#ctrlproxy"), cp = vary(o, "ctrlproxy"), me = vary(o, "me");
		switch (op) {
		case 4: { std::string x = o.pick(Strs{"#x", "#ctrlproxy2", "&a"}), cmd = "JOIN " + x; want(cmd, ask(cmd), {"403 me " + x + " No such channel"}); break; }
		case 5: want("JOIN", ask("JOIN " + ch), {}); break;
		case 6: { std::string x = o.pick(Strs{"#x", "#ctrlproxy2", "&a"}), cmd = "PART " + x; want(cmd, ask(cmd), {"442 me " + x + " You're not on that channel"}); break; }
		case 7: want("PART", ask("PART " + ch + (o.chance(1, 2) ? " :bye" : ""), false, nullptr, true), {}); break;
		case 8: case 9: {
			std::string x = o.pick(Strs{ch, ch, cp, me, "bob", "#x"}), cmd = "WHO " + x, l = low(x);
			Strs g = ask(cmd), w;
			bool all = l == "#ctrlproxy";
			if (all || l == "ctrlproxy") w.push_back("352 me #ctrlproxy ctrlproxy " + host + " " + host + " ctrlproxy H 0 CtrlProxy user");
			if (all || l == "me") w.push_back("352 me #ctrlproxy cu localhost " + host + " me H 0 Full Name");
			std::sort(w.begin(), w.end());
			if (g.empty() || g.back().compare(0, 4 + 3 + x.size(), "315 me " + x)) fail(c, "who", "%s was answered %s", q(cmd).c_str(), show(g).c_str());
			g.pop_back();
			std::sort(g.begin(), g.end());
			want(cmd, g, w);
			break;
		}
		case 10: {
			std::string cmd = "ISON", w;
			for (uint32_t i = 1 + o.range(4); i--;) { std::string x = o.pick(Strs{"bob", me, cp, "alice"}); cmd += " " + x; if (low(x) == "me" || low(x) == "ctrlproxy") w += (w.empty() ? "" : " ") + x; }
			want(cmd, ask(cmd), {"303 me " + w});
			break;
		}
		case 11: {
			std::string cmd = "USERHOST", w;
			for (uint32_t i = 1 + o.range(3); i--;) { std::string x = o.pick(Strs{"bob", "me", "ctrlproxy"}); cmd += " " + x; if (x != "bob") w += (w.empty() ? "" : " ") + x + "=+" + (x == "me" ? "cu@localhost" : "ctrlproxy@" + host); }
			want(cmd, ask(cmd), {"302 me " + w});
			break;
		}
		case 12: { std::string x = o.pick(Strs{me, cp, "bob"}), cmd = "WHOIS " + x; want(cmd, ask(cmd), {"318 me " + x + " End of /WHOIS list."}); break; }
		case 13: {                                       // every client is shown that
			bool away = o.chance(1, 2);
			std::string cmd = away ? o.pick(Strs{"AWAY :out", "AWAY x", "AWAY ::", "AWAY :a b"}) : o.pick(Strs{"AWAY", "AWAY :"});
			want(cmd, ask(cmd), {away ? "306 me You are now marked as being away" : "305 me You are no longer marked as being away"});
			break;
		}
		case 14: { std::string x = o.pick(Strs{"KICK #ctrlproxy ctrlproxy", "TOPIC #ctrlproxy :x", "INVITE bob #ctrlproxy", "LIST", "NICK other", "FOO", "KNOCK #x", "STATS m", "OPER a b"}); std::string w = x.substr(0, x.find(' ')); want(x, ask(x), {"421 me " + w + " Unknown command"}); break; }
		case 15: { std::string x = o.pick(Strs{"WHO", "JOIN", "PART", "WHOIS", "ISON", "USERHOST"}); Strs g = ask(x); want(x, g, {"461 me " + x + " Not enough params"}); break; }
		case 16: { std::string x = "PRIVMSG " + o.pick(Strs{"bob", "#x", "ctrlproxy2", "#ctrlproxy2"}) + " :hello"; want(x, ask(x, true), {"401 me " + msg(x).arg(1) + " No such nick/channel"}); break; }
		case 17: { std::string x = o.pick(Strs{"PRIVMSG ", "NOTICE "}) + me + " :note" + std::to_string(mark++); c.tag("to self"); 
			c.log("%zu< %s", &k - cls.data(), q(x).c_str());
			k.p->line(x);
			want(x, hear(&k, plain(msg(x)), nullptr, false), {plain(msg(x))});
			settle(k);
			break; }
		case 18: {
			std::string t = o.pick(Strs{"hi", "a  b", "%s", ":-)", "caf\xc3\xa9"}) + "#" + std::to_string(mark++);
			std::string x = o.pick(Strs{"PRIVMSG ", "NOTICE "}) + o.pick(Strs{ch, cp}) + " :" + vary(o, "echo") + " " + t;
			Strs w = {t};
			want(x, ask(x, true, &w), {});
			break;
		}
		case 19: {
			std::string x = o.pick(Strs{"NAMES " + ch, "TOPIC " + ch});
			Strs g = ask(x);
			c.tag(x.substr(0, 5) + (g.empty() ? " silent" : " answered"));
			for (auto &l : g) if (x[0] == 'N' ? l != "353 me = #ctrlproxy @ctrlproxy me" && l.compare(0, 4, "366 ") : x[0] == 'T' ? l.compare(0, 18, "332 me #ctrlproxy ") && l.compare(0, 4, "421 ") : l.compare(0, 4, "324 ") && l.compare(0, 4, "221 ") && l.compare(0, 4, "368 ")) if (l != "421 me NAMES Unknown command") fail(c, "channelinfo", "%s was answered %s", q(x).c_str(), show(g).c_str());
			break;
		}
		}
	}
	for (auto &k : cls) delete k.v;
	close_all_peers();
	if (asked >= 4 && came >= 2) c.nontrivial();
	if (seen) c.tag("log shown");
}

Property the_property = {
	"P28",
	"four commands were given and two clients came",
	{"nothing is logged on more than one line"},
	{
		{"network", network, 16, 12, 50, 3000, 40000, 1},
	}};
