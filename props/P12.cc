// P12: what a client is sent of the past is what happened then, once, in order.
#include "world.h"

struct Ev { std::string origin; bool own; Strs a; time_t t; };   // a message kept
struct Cl { PeerP p; View *v; int id; };

static std::string stamp(time_t t)
{
	char b[64];
	strftime(b, sizeof b, "%H:%M:%S", localtime(&t));
	return "[" + std::string(b) + "]";
}

static bool action(const std::string &t) { return !t.compare(0, 7, "\001ACTION"); }

static std::string show(const Msg &m)
{
	std::string r = m.has_origin ? ":" + m.origin + " " : "";
	for (auto &a : m.a) r += q(a) + " ";
	return r;
}

static const Strs TEXT = {"hello", "say foo to all", ":-)", "", "caf\xc3\xa9 ol\xe9", "\001ACTION waves\001", "\001ACTION foo\001", "a  b", " x", "bar.", "FOO", "\001VERSION\001", "[12:00:00] x", "foobar"};

static void run(Src &s, Ctx &c, const std::string &backend)
{
	Src h = s.block(16);
	std::string rt = h.pick(Strs{"never", "replication", "always"});
	int off = h.chance(1, 4) ? 3600 * (int)h.range(3) : 0;
	start_global("[global]\nautosave=false\nreplication=" + backend + "\nmatch=foo;bar\nreport-time=" + rt + "\nreport-time-offset=" + std::to_string(off) + "\n");
	World w(h, "me");
	w.casevary = h.chance(1, 2);
	struct network_config *nc = add_network_config("net", "me");
	nc->ignore_first_nick = -1;
	nc->disable_cache = -1;
	PeerP srv;
	struct irc_network *n = start_network(nc, srv);
	std::vector<Ev> hist;
	std::vector<Cl> cls;
	size_t since_left = 0, since_said = 0, since_highlight = 0, since_backlog = 0;
	bool own_last = false;                  // the message at since_said may be shown or not
	size_t replayed = 0, attaches = 0, logins = 0;
	auto login = [&] {
		pump();
		for (auto &l : w.welcome()) srv->line(l);
		pump();
		// what we see from outside
		for (auto &l : srv->take()) if (!l.compare(0, 9, "USERHOST ")) srv->line(":irc.test 302 " + w.users[0].nick + " :" + w.users[0].nick + "=+myident@my.host");
		pump();
		hist.clear();
		since_left = since_said = since_highlight = since_backlog = 0;
		own_last = false;
		logins++;
	};
	auto quiet = [&](Cl &k) {
		for (auto &l : k.p->take()) k.v->apply(l);
		if (k.p->eof) fail(c, "dropped", "client %d was disconnected", k.id);
	};
	auto server = [&](const std::string &l) {
		c.log("S> %s", q(l).c_str());
		Msg m = msg(l);
		if (m.a.size() > 2 && (m.a[0] == "PRIVMSG" || m.a[0] == "NOTICE") && (m.a[2].empty() || m.a[2][0] != 1 || action(m.a[2]))) {
			bool own = m.has_origin && w.r.same(m.nick(), w.users[0].nick);
			hist.push_back({own ? m.nick() + "!cu@localhost" : m.has_origin ? m.origin : "", own, m.a, vtime});
		}
		srv->line(l);
	};
	// what the model says is shown of hist[i]
	auto shown = [&](const Ev &e) {
		Msg m;
		m.has_origin = !e.origin.empty();
		m.origin = e.origin;
		m.a = e.a;
		if (rt != "never") {
			std::string &t = m.a[2];
			if (action(t)) t = "\001ACTION " + stamp(e.t + off) + t.substr(7);
			else t = stamp(e.t + off) + " " + t;
		}
		return m;
	};
	// compare the messages in lines with history from..; returns a complaint
	auto compare = [&](const Strs &lines, size_t from, const std::function<bool(const Ev &)> &which, bool optional_first) {
		std::vector<Msg> want;
		for (size_t i = from; i < hist.size(); i++) if (which(hist[i])) want.push_back(shown(hist[i]));
		size_t j = 0, got = 0;
		for (auto &l : lines) {
			Msg m = msg(l);
			if (m.a.size() < 3 || (m.a[0] != "PRIVMSG" && m.a[0] != "NOTICE")) continue;
			if (m.a[0] == "NOTICE" && (m.a[1] == "*" || m.origin.find("ctrlproxy") != std::string::npos)) continue;
			// an earlier name of ours, when the client was not told of the change
			if (j < want.size() && m.origin != want[j].origin && m.nick() == want[j].nick() && want[j].origin.find("!cu@localhost") != std::string::npos && !w.r.same(m.nick(), w.users[0].nick) && m.origin == m.nick() + "!myident@my.host") m.origin = want[j].origin;
			if (j < want.size() && w.r.same(m.origin, want[j].origin)) m.origin = want[j].origin;
			if (optional_first && j == 0 && !want.empty() && !(m.a == want[0].a && m.origin == want[0].origin)) j = 1;
			if (j >= want.size()) return "was sent " + show(m) + "which is not due";
			if (m.a != want[j].a || m.origin != want[j].origin) return "was sent " + show(m) + "instead of " + show(want[j]);
			j++; got++;
		}
		if (optional_first && j == 0 && !want.empty()) j = 1;
		if (j < want.size()) return "was not sent " + show(want[j]);
		replayed += got;
		return std::string();
	};
	auto all = [](const Ev &) { return true; };
	auto add = [&] {
		Cl k;
		k.id = attaches++;
		c.log("-- client %d attaches", k.id);
		k.p = attach(n, w.users[0].nick);
		if (k.p->eof) fail(c, "dropped", "client %d was disconnected", k.id);
		Strs ls = k.p->take();
		k.v = new View(rules_from(ls), w.users[0].nick);
		k.v->users[k.v->me].query = true;
		for (auto &l : ls) {
			c.log("     %d> %s", k.id, q(l).c_str());
			if (l.size() > 510) fail(c, "long", "a line of %zu bytes", l.size() + 2);
			if (l.find("my.host") != std::string::npos && backend != "highlight") fail(c, "host", "client %d sees %s", k.id, q(l).c_str());
			k.v->apply(l);
		}
		std::string d;
		if (backend == "none") d = compare(ls, hist.size(), all, false);
		else if (backend == "lastdisconnect") d = compare(ls, since_left, all, false);
		else if (backend == "simple") d = compare(ls, since_said, all, own_last);
		else {
			d = compare(ls, since_highlight, [](const Ev &e) { return e.a[2].find("foo") != std::string::npos || e.a[2].find("bar") != std::string::npos; }, false);
			since_highlight = hist.size();
		}
		if (!d.empty()) fail(c, "messages", "client %d %s", k.id, d.c_str());
		d = client_diff(*k.v, n->external_state, backend == "none" || backend == "highlight" ? 1 : -1);
		if (!d.empty()) fail(c, "state", "client %d after the past it was sent: %s", k.id, d.c_str());
		for (auto &l : srv->take()) if (l.compare(0, 5, "PONG ")) fail(c, "server", "the server was sent %s when a client attached", q(l).c_str());
		cls.push_back(k);
	};
	auto leave = [&](size_t i) {
		c.log("-- client %d detaches", cls[i].id);
		cls[i].p->close();
		pump();
		delete cls[i].v;
		cls.erase(cls.begin() + i);
		since_left = hist.size();
	};
	login();
	if (h.chance(1, 2)) add();
	while (!s.empty()) {
		Src o = s.block(16);
		switch (o.range(16)) {
		case 0: case 1: case 2: case 3: case 4: {
			int u = o.chance(1, 6) ? 0 : w.other(o);
			std::string to = o.pick(Strs{w.users[0].nick, "#one", "#Two[x]", "#one", "@#one"});
			server(":" + w.users[u].mask() + " " + o.pick(Strs{"PRIVMSG", "NOTICE", "PRIVMSG"}) + " " + to + " :" + o.pick(TEXT));
			break;
		}
		default:
			for (auto &l : w.step(o)) server(l);
			break;
		case 10: case 11:
			if (cls.size() >= 3) leave(o.range(cls.size()));
			add();
			break;
		case 12: if (!cls.empty()) leave(o.range(cls.size())); break;
		case 13: case 14: {
			if (cls.empty()) break;
			Cl &k = cls[o.range(cls.size())];
			std::string t = o.pick(TEXT), cmd = o.pick(Strs{"PRIVMSG", "NOTICE", "PRIVMSG"}), to = o.pick(Strs{"#one", "bob", "#one,bob"});
			if (cmd == "NOTICE" && t[0] == 1) t = "x";
			std::string l = o.chance(1, 4) ? o.pick(Strs{"JOIN #one", "TOPIC #one :x", "PART #one :x", "AWAY :x"}) : cmd + " " + to + " :" + t;
			c.log("%d> %s", k.id, q(l).c_str());
			k.p->line(l);
			pump();
			srv->take();
			Msg m = msg(l);
			if ((m.a[0] == "PRIVMSG" || m.a[0] == "NOTICE") && (m.a[2][0] != 1 || action(m.a[2]))) {
				since_said = hist.size();
				own_last = true;
				hist.push_back({w.users[0].nick + "!cu@localhost", true, m.a, vtime});
			}
			break;
		}
		case 15:
			if (o.chance(1, 4) && logins < 4) {
				c.log("-- connection to the server lost and made again");
				srv->close();
				pump();
				for (auto &k : cls) quiet(k);
				for (auto &ch : w.chans) ch.members.erase(0);
				w.umodes.clear();
				w.away = false;
				srv = connect_server(n);
				pump();
				// log in under the configured name again
				for (size_t i = 1; i < w.users.size(); i++) if (w.r.same(w.users[i].nick, "me")) w.users[i].nick = "wasme";
				w.users[0].nick = "me";
				login();
			} else if (!cls.empty()) {
				Cl &k = cls[o.range(cls.size())];
				std::string obj = o.pick(Strs{"", "#one", "bob", "#ONE", "BOB", "#One"});
				pump();
				quiet(k);
				c.log("%d> CTRLPROXY BACKLOG %s", k.id, obj.c_str());
				k.p->line("CTRLPROXY BACKLOG" + (obj.empty() ? "" : " " + obj));
				pump();
				Strs ls = k.p->take();
				for (auto &l : ls) c.log("     %d> %s", k.id, q(l).c_str());
				std::string d = compare(ls, since_backlog, [&](const Ev &e) {
					if (obj.empty()) return true;
					for (size_t i = 0, j; i <= e.a[1].size(); i = j + 1) {
						j = std::min(e.a[1].find(',', i), e.a[1].size());
						if (w.r.same(e.a[1].substr(i, j - i), obj)) return true;
					}
					return false;
				}, false);
				if (!d.empty()) fail(c, "backlog", "client %d asking for the backlog %s", k.id, d.c_str());
				since_backlog = hist.size();
			}
			break;
		}
		pump();
		for (auto &k : cls) quiet(k);
		srv->take();
	}
	add();
	for (auto &k : cls) delete k.v;
	close_all_peers();
	if (attaches >= 2 && (replayed >= 2 || (backend == "none" && hist.size() > 5))) c.nontrivial();
	if (logins > 1) c.tag("logged in again");
}

static void simple(Src &s, Ctx &c) { run(s, c, "simple"); }
static void lastdisconnect(Src &s, Ctx &c) { run(s, c, "lastdisconnect"); }
static void highlight(Src &s, Ctx &c) { run(s, c, "highlight"); }
static void none(Src &s, Ctx &c) { run(s, c, "none"); }

Property the_property = {
	"P12",
	"at least two attachments, and at least two messages of the past were sent (without replication: more than five messages in the history)",
	{"clients attach only while the proxy is logged in", "the last message the user said may be shown or not by the replication since then", "messages the user sent under an earlier name may show either hostname where the change of name is not replayed", "modes of members are not compared after a replay"},
	{
		{"simple", simple, 16, 16, 50, 4000, 20000, 20},
		{"lastdisconnect", lastdisconnect, 16, 16, 50, 4000, 20000, 20},
		{"highlight", highlight, 16, 16, 50, 2000, 10000, 20},
		{"none", none, 16, 16, 50, 700, 10000, 20},
	}};
