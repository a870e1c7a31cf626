// P09: what the proxy answers from memory is what the server would answer.
#include "world.h"

struct Rig { World *w; struct irc_network *n; PeerP srv, a, b; };

typedef std::map<std::string, std::string> Facts;    // canonical content of an answer

static std::string pfx(Rules &r, const std::string &e, std::string &nick)
{
	size_t i = 0;
	while (i < e.size() && r.ps.find(e[i]) != std::string::npos) i++;
	nick = e.substr(i);
	return e.substr(0, std::min<size_t>(i, 1));
}

static Facts facts(World &w, const Strs &ls, Ctx &c, std::string &end)
{
	Facts f;
	end = "";
	for (auto &l : ls) {
		Msg m = msg(l);
		const std::string &k = m.a[0];
		if (!end.empty()) {
			if (k == "329" && end == "324") { f["created"] = m.arg(3); continue; }
			if (k == "333" && end == "332") { f["topic set"] = m.arg(3) + " " + m.arg(4); continue; }
			fail(c, "after", "%s after the end of the answer", q(l).c_str());
		}
		if (m.arg(1) != w.users[0].nick) fail(c, "target", "%s is addressed to %s", q(l).c_str(), m.arg(1).c_str());
		if (k == "353") {
			f["symbol"] = m.arg(2);
			std::string t = m.arg(4) + " ", cur, nick;
			for (char ch : t) {
				if (ch != ' ') { cur += ch; continue; }
				if (cur.empty()) continue;
				std::string p = pfx(w.r, cur, nick);
				std::string key = "member " + w.r.fold(nick);
				if (f.count(key)) fail(c, "twice", "%s is listed twice", nick.c_str());
				f[key] = p;
				cur.clear();
			}
		} else if (k == "352") {
			std::string key = "who " + w.r.fold(m.arg(6));
			if (f.count(key)) fail(c, "twice", "%s is listed twice", m.arg(6).c_str());
			f[key] = m.arg(6) + "!" + m.arg(3) + "@" + m.arg(4) + " " + m.arg(5) + " :" + m.arg(8);
		} else if (k == "367" || k == "348" || k == "346") {
			f["entry " + m.arg(3)] = "";
			f["name"] = w.r.fold(m.arg(2));
		} else if (k == "324") {
			size_t at = 4;
			f["name"] = w.r.fold(m.arg(2));
			for (char x : m.arg(3)) {
				if (x == '+') continue;
				std::string key = std::string("mode ") + x;
				if (w.r.mb.find(x) != std::string::npos || w.r.mc.find(x) != std::string::npos) f[key] = m.arg(at++);
				else f[key] = "";
			}
			if (at < m.a.size()) f["extra"] = m.arg(at);
			end = k;
		} else if (k == "331") { f["name"] = w.r.fold(m.arg(2)); f["topic"] = ""; end = k; }
		else if (k == "332") { f["name"] = w.r.fold(m.arg(2)); f["topic"] = m.arg(3); end = k; }
		else if (k == "366" || k == "315" || k == "368" || k == "349" || k == "347") { f["name"] = w.r.fold(m.arg(2)); end = k; }
		else fail(c, "unknown", "%s in an answer", q(l).c_str());
	}
	return f;
}

static std::string diff(const Facts &got, const Facts &want)
{
	for (auto &g : got) if (!want.count(g.first)) return "says " + g.first + " " + q(g.second);
	for (auto &x : want) {
		auto i = got.find(x.first);
		if (i == got.end()) return "does not say " + x.first + " " + q(x.second);
		if (i->second != x.second) return x.first + " is " + q(i->second) + ", should be " + q(x.second);
	}
	return "";
}

static void run(Src &s, Ctx &c)
{
	Src h = s.block(16);
	int age = h.pick(std::vector<int>{-1, 0, 30, 600});
	start_global("[global]\nautosave=false\nreplication=none\nreport-time=never\n" + (age < 0 ? std::string() : "max_who_age=" + std::to_string(age) + "\n"));
	World w(h, "me");
	struct network_config *nc = add_network_config("net", "me");
	nc->ignore_first_nick = -1;
	Rig r;
	r.n = start_network(nc, r.srv);
	View v(w.r, "me");
	auto serve = [&](const std::string &l) { r.srv->line(l); v.apply(l); };
	for (auto &l : w.welcome()) serve(l);
	pump();
	r.a = attach(r.n, "me");
	r.b = attach(r.n, "me");
	r.srv->take();
	int local = 0, asked = 0;
	auto lines = [](Peer &p) { Strs o; for (auto &l : p.take()) if (l.compare(0, 10, "NOTICE * :")) o.push_back(l); return o; };
	while (!s.empty()) {
		Src o = s.block(16);
		r.a->take();
		r.b->take();
		if (o.chance(1, 2)) {
			for (auto &l : w.step(o)) { c.log("S> %s", q(l).c_str()); serve(l); }
			pump();
			r.srv->take();
			if (o.chance(1, 4)) advance(o.pick(std::vector<int>{1, 29, 30, 31, 601}));
			continue;
		}
		std::vector<int> ins;
		for (size_t i = 0; i < w.chans.size(); i++) if (w.in(i, 0)) ins.push_back(i);
		int ch = ins.empty() || o.chance(1, 10) ? (int)o.range(w.chans.size()) : ins[o.range(ins.size())];
		std::string nm = w.vary(o, w.chans[ch].name), cmd, exotic;
		uint32_t kind = o.range(5);
		char list = o.pick(std::vector<char>{'b', 'b', 'e', 'I'});
		if (w.r.ma.find(list) == std::string::npos) list = 'b';
		Strs truth;
		switch (kind) {
		case 0: cmd = "NAMES " + nm; truth = w.names(o, ch); break;
		case 1: cmd = "WHO " + nm; truth = w.who(o, ch); break;
		case 2: cmd = "MODE " + nm; truth = w.modeis(ch); break;
		case 3: cmd = "TOPIC " + nm; truth = w.chans[ch].topic.empty() ? Strs{":irc.test 331 me " + nm + " :No topic is set"} : Strs{":irc.test 332 " + w.users[0].nick + " " + nm + " :" + w.chans[ch].topic, ":irc.test 333 " + w.users[0].nick + " " + nm + " " + w.chans[ch].topic_by + " " + std::to_string(w.chans[ch].topic_time)}; if (truth[0].find(" 331 ") != std::string::npos) truth[0] = ":irc.test 331 " + w.users[0].nick + " " + nm + " :No topic is set"; break;
		default: cmd = "MODE " + nm + (o.chance(1, 2) ? " +" : " ") + list; truth = w.list(ch, list); break;
		}
		bool odd = o.chance(1, 8);
		if (odd) {
			// questions the proxy does not answer itself
			cmd = o.pick(Strs{"NAMES " + nm + ",#other", "NAMES", "WHO " + nm + " o", "WHO *.example", "WHO " + nm + ",x", "MODE " + nm + ",#other", "TOPIC " + nm + " :new topic", "MODE " + nm + " bk key", "MODE " + nm + " -b", "MODE " + nm + " +b *!*@x", "NAMES " + nm + " irc.test", "WHO", "TOPIC", "MODE", "MODE " + w.users[0].nick, "WHOIS bob", "USERHOST bob", "TOPIC " + nm + ",#other", "MODE " + nm + " beI", "NAMES #nowhere", "WHO bob", "MODE bob"});
		}
		c.log("a> %s", q(cmd).c_str());
		r.a->line(cmd);
		pump();
		Strs up = r.srv->take(), got = lines(*r.a), other = lines(*r.b);
		asked++;
		if (!other.empty()) fail(c, "other", "the other client got %s", q(other[0]).c_str());
		if (!up.empty()) {
			if (!got.empty()) fail(c, "both", "%s was answered with %s and passed on as well", q(cmd).c_str(), q(got[0]).c_str());
			if (up.size() != 1 || up[0] != cmd) fail(c, "passed", "%s was passed on as %s", q(cmd).c_str(), q(up[0]).c_str());
			c.tag("passed on");
			if (odd) continue;
			if (!w.in(ch, 0)) {
				std::string e = ":irc.test 403 " + w.users[0].nick + " " + nm + " :No such channel";
				if (kind == 0) e = ":irc.test 366 " + w.users[0].nick + " " + nm + " :End";
				if (kind == 1) e = ":irc.test 315 " + w.users[0].nick + " " + nm + " :End";
				if (kind == 3) e = ":irc.test 442 " + w.users[0].nick + " " + nm + " :Not on channel";
				truth = {e};
			}
			for (auto &l : truth) { c.log("S> %s", q(l).c_str()); serve(l); }
			pump();
			r.a->take();
			// what came back shows up later on
			continue;
		}
		for (auto &l : got) c.log("   a> %s", q(l).c_str());
		c.tag("answered");
		if (odd) fail(c, "odd", "%s was not passed on", q(cmd).c_str());
		if (!w.in(ch, 0)) fail(c, "notin", "%s about a channel the user is not on was not passed on", q(cmd).c_str());
		if (kind == 1 && age == 0) fail(c, "age", "WHO answered although that is switched off");
		if (got.empty()) fail(c, "silent", "%s was neither answered nor passed on", q(cmd).c_str());
		local++;
		std::string e1, e2;
		Facts have = facts(w, got, c, e1), want = facts(w, truth, c, e2);
		if (e1 != e2) fail(c, "end", "the answer to %s ends with %s instead of %s", q(cmd).c_str(), e1.c_str(), e2.c_str());
		if (!have.count("topic set")) want.erase("topic set");
		if (!have.count("created")) want.erase("created");
		if (kind == 0)
			// a list of names only shows the highest prefix, what it hides is forgotten
			for (auto &m : v.chan(nm)->members) {
				std::string p;
				for (size_t i = 0; i < w.r.pm.size() && p.empty(); i++) if (m.second.count(w.r.pm[i])) p = w.r.ps[i];
				want["member " + m.first] = p;
			}
		if (kind == 1) {
			// clients see themselves with their own hostname
			auto &u = w.users[0];
			std::string k = "who " + w.r.fold(u.nick);
			want[k] = u.nick + "!cu@localhost" + want[k].substr(want[k].find(' '));
			for (auto &g : w.gone) { have.erase("who " + w.r.fold(g)); want.erase("who " + w.r.fold(g)); }
		}
		std::string d = diff(have, want);
		if (!d.empty()) fail(c, "content", "the answer to %s %s", q(cmd).c_str(), d.c_str());
	}
	close_all_peers();
	if (local >= 3 && asked > local) c.nontrivial();
}

Property the_property = {
	"P09",
	"at least three questions answered by the proxy and at least one passed on",
	{"the flags of a WHO answer may be as old as configured", "information about someone who changed out of sight is not compared"},
	{
		{"cache", run, 16, 16, 60, 24000, 200000, 20},
	}};
