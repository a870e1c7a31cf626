// P06: a client that attaches, whenever it does, ends up knowing the session.
#include "world.h"

struct Cl {
	PeerP p;
	std::string nick;
	View *v = nullptr;
	bool fresh = true;
};

static std::string read_in(Cl &k, Ctx &c, bool log)
{
	Strs ls = k.p->take();
	if (!k.v) {
		k.v = new View(rules_from(ls), k.nick);
		k.v->users[k.v->me].query = true;
	}
	for (auto &l : ls) {
		if (log) c.log("     %s> %s", k.nick.c_str(), q(l).c_str());
		if (l.size() > 510) return "a line to the client of " + std::to_string(l.size() + 2) + " bytes";
		Msg m = msg(l);
		if (m.a.empty()) return "an empty line to the client";
		// a client takes the name it is welcomed with
		k.v->apply(l);
	}
	return "";
}

static void run(Src &s, Ctx &c, bool follow)
{
	Src h = s.block(16);
	static const Strs repl = {"none", "highlight", "none", "bogus"};
	std::string rp = h.pick(repl);
	start_global("[global]\nautosave=false\nreplication=" + rp + "\nmatch=x;\n" + (h.chance(1, 4) ? "report-time=always\n" : ""));
	World w(h, "me");
	w.casevary = h.chance(1, 2);
	struct network_config *nc = add_network_config("net", "me");
	nc->ignore_first_nick = h.chance(1, 2);
	PeerP srv;
	struct irc_network *n = start_network(nc, srv);
	pump();
	// a client that is there before the login knows the defaults only
	bool early = h.chance(1, 4) && w.r.pm == "ov" && w.r.casemap == "rfc1459" && w.r.ma == "beI";
	std::vector<Cl> cls;
	auto add = [&](const std::string &nick) {
		Cl k;
		k.nick = nick;
		c.log("-- %s attaches", nick.c_str());
		k.p = attach(n, nick);
		cls.push_back(k);
	};
	if (early) add(h.chance(1, 2) ? "me" : "cl");
	for (auto &l : w.welcome()) srv->line(l);
	pump();
	int lines = 0;
	auto check = [&](Cl &k, bool now) {
		std::string d = read_in(k, c, true);
		if (!d.empty()) fail(c, "line", "%s", d.c_str());
		d = client_diff(*k.v, n->external_state, k.fresh ? 1 : 0);
		if (!d.empty()) fail(c, now ? "attach" : "follow", "%s %s: %s", k.nick.c_str(), now ? "just attached" : "after that", d.c_str());
		k.fresh = false;
	};
	for (auto &k : cls) check(k, true);
	while (!s.empty()) {
		Src o = s.block(16);
		if (o.chance(1, 8)) {
			if (cls.size() >= 3 || !follow) {
				if (!cls.empty()) { size_t i = o.range(cls.size()); c.log("-- %s detaches", cls[i].nick.c_str()); cls[i].p->close(); pump(); delete cls[i].v; cls.erase(cls.begin() + i); }
			}
			add(o.pick(Strs{"me", "cl", "ME", "other"}));
			check(cls.back(), true);
			// it may ask the server for its own nick, which the server refuses here
			srv->take();
			continue;
		}
		for (auto &l : w.step(o)) {
			c.log("S> %s", q(l).c_str());
			srv->line(l);
			lines++;
		}
		pump();
		std::string d = state_sound(n->external_state);
		if (!d.empty()) fail(c, "unsound", "%s", d.c_str());
		for (auto &k : cls) { if (k.p->eof) fail(c, "dropped", "%s was disconnected", k.nick.c_str()); if (follow) check(k, false); }
		if (!follow) for (auto &k : cls) k.p->take();
	}
	add("last");
	check(cls.back(), true);
	size_t mem = 0;
	for (GList *l = n->external_state->channels; l; l = l->next) mem += g_list_length(((struct irc_channel_state *)l->data)->nicks);
	if (lines >= 10 && mem >= 3) c.nontrivial();
	c.tag("channels " + std::to_string(g_list_length(n->external_state->channels)));
	for (auto &k : cls) delete k.v;
	close_all_peers();
}

static void attach_only(Src &s, Ctx &c) { run(s, c, false); }
static void follow(Src &s, Ctx &c) { run(s, c, true); }

// A crowded channel: the list of names needs many lines.
static void crowd(Src &s, Ctx &c)
{
	Src h = s.block(8);
	start_global("");
	World w(h, "me");
	struct network_config *nc = add_network_config("net", "me");
	PeerP srv;
	struct irc_network *n = start_network(nc, srv);
	pump();
	for (auto &l : w.welcome()) srv->line(l);
	std::string ch = "#" + std::string(h.range(180), 'c');
	if (ch.size() == 1) ch = "#c";
	srv->line(":me!myident@my.host JOIN " + ch);
	size_t k = 0;
	std::string cur;
	auto flush = [&] { if (!cur.empty()) srv->line(":irc.test 353 me = " + ch + " :" + cur); cur.clear(); };
	while (!s.empty() && k < 400) {
		Src o = s.block(2);
		uint32_t reps = 1 + o.range(12), len = 1 + o.range(o.chance(1, 8) ? 120 : 30);
		for (uint32_t i = 0; i < reps; i++) {
			std::string nick = "n" + std::to_string(k++) + std::string(len, 'x');
			if (cur.size() + nick.size() + ch.size() > 400) flush();
			cur += (cur.empty() ? "" : " ") + std::string(o.chance(1, 3) ? w.r.ps.substr(o.range(w.r.ps.size()), 1) : "") + nick;
		}
	}
	if (h.chance(2, 3)) { cur += (cur.empty() ? "" : " ") + std::string(1 + h.range(h.chance(1, 2) ? 3 : 30), 'z'); k++; }
	flush();
	srv->line(":irc.test 366 me " + ch + " :End");
	std::string t = std::string(h.range(390 - ch.size()), 't');
	srv->line(":irc.test 332 me " + ch + " :" + t);
	pump();
	c.log("%zu members on %s, topic of %zu bytes", k, ch.c_str(), t.size());
	Cl x;
	x.nick = "me";
	x.p = attach(n, "me");
	std::string d = read_in(x, c, false);
	if (d.empty()) d = client_diff(*x.v, n->external_state, 1);
	if (!d.empty()) fail(c, "crowd", "%s", d.c_str());
	delete x.v;
	close_all_peers();
	if (k >= 30) c.nontrivial();
}

Property the_property = {
	"P06",
	"at least 10 server lines and 3 memberships at the end; crowd: at least 30 members",
	{"the attaching client applies the lines it is sent like any IRC client", "only the highest prefix of a member is compared, as the protocol tells no more"},
	{
		{"attach", attach_only, 16, 16, 50, 3000, 30000, 20},
		{"follow", follow, 16, 16, 50, 3000, 30000, 20},
		{"crowd", crowd, 8, 2, 60, 1000, 10000, 20},
	}};
