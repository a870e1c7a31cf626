// P04: after any server history, tracked state is what a reference client knows.
#include "world.h"

static void feed(struct irc_network_state *st, const std::string &l)
{
	struct irc_line *x = irc_parse_line(l.c_str());
	if (!x) return;
	state_handle_data(st, x);
	free_line(x);
}

static void history(Src &s, Ctx &c)
{
	Src h = s.block(8);
	vtime = 1200000000;
	World w(h, "me");
	w.many = h.chance(1, 2);
	View v(w.r, "me");
	struct irc_network_state *st = network_state_init("tmp", "myident", "my.host");
	for (auto &l : w.welcome()) { v.apply(l); feed(st, l); c.log("< %s", q(l).c_str()); }
	int n = 0;
	size_t peak = 0;
	while (!s.empty()) {
		Src o = s.block(16);
		Strs ls = w.step(o);
		for (auto &g : w.gone) { v.tainted.insert(g); }
		w.gone.clear();
		for (auto &l : ls) {
			c.log("[%ld] < %s", (long)vtime, q(l).c_str());
			v.apply(l);
			feed(st, l);
			n++;
		}
		if (ls.empty()) continue;
		std::string d = view_diff(v, st);
		if (!d.empty()) fail(c, d.substr(0, 12).c_str(), "%s", d.c_str());
		peak = std::max(peak, v.users.size());
	}
	free_network_state(st);
	if (n >= 12 && peak >= 4) c.nontrivial();
	c.tag("users " + std::to_string(peak / 3 * 3) + "+");
}

// Lines no sane server sends: never a crash, the state stays sound, and
// what the lines do not concern stays as it was.
static void junk(Src &s, Ctx &c)
{
	static const Strs cmds = {"JOIN", "PART", "KICK", "QUIT", "TOPIC", "NICK", "PRIVMSG", "MODE", "001", "004", "005", "221", "302", "324", "329", "332", "333", "331", "353", "366", "367", "368", "346", "347", "348", "349", "352", "315", "306", "305", "join", "XX"};
	static const Strs words = {"#a", "#b", "#A", "me", "bob", "al", "@bob", "+al", "@+al", "", "@", "+", "*", "=", "#a,#b", "#a,", ",", "+o", "-o+v", "+kl", "-k", "+bbb", "+b-e", "+oooo", "al bob", "@al +bob me", "@ + x", "bob=+u@h", "al*=-u@h x= y", "=", "x!y@z", "b*!*@*", "0 Real", "12", "99999999999999999999", "bob,al", "me,bob", "\xff", "!", "a!b", "+\xff\x80", "PREFIX=(ohv)@%+", "PREFIX=", "CHANTYPES=", "CHANMODES=b,k,l,imn", "CASEMAPPING=ascii"};
	static const Strs orgs = {"me!u@h", "bob!u@h", "al!u@h", "srv", "", "al", "me", "@bob!u@h", "!u@h", "al!", "al!u", "@", "bob@h", "al!u!v@h@i"};
	struct irc_network_state *st = network_state_init("me", "u", "h");
	feed(st, ":me!u@h JOIN #a");
	feed(st, ":srv 353 me = #a :@me al +bob");
	feed(st, ":srv 366 me #a :End");
	feed(st, ":srv 368 me #a :End");
	int n = 0;
	while (!s.empty()) {
		Src o = s.block(16);
		std::string l;
		if (o.chance(7, 8)) l = ":" + (o.chance(1, 12) ? gen_text(o, 8) : o.pick(orgs)) + " ";
		l += o.pick(cmds);
		uint32_t k = o.range(9);
		if (o.chance(1, 2)) { l += " me"; if (o.chance(1, 2)) l += " #a"; }
		for (uint32_t i = 0; i < k; i++) {
			std::string w = o.chance(1, 16) ? gen_text(o, 6) : o.pick(words);
			if (w.find(' ') != std::string::npos || w.empty() || i + 1 == k) l += " :" + w;
			else l += " " + w;
		}
		c.log("< %s", q(l).c_str());
		feed(st, l);
		std::string d = state_sound(st);
		if (!d.empty()) fail(c, "unsound", "%s", d.c_str());
		n++;
	}
	free_network_state(st);
	if (n >= 4) c.nontrivial();
}

Property the_property = {
	"P04",
	"history: at least 12 lines received and 4 users known at some point; junk: at least 4 lines",
	{"the simulated server sends what RFC 1459/2812 and the ISUPPORT drafts allow, replies in one piece", "information about someone who changed out of sight is not compared"},
	{
		{"history", history, 8, 16, 60, 6000, 60000, 40},
		{"junk", junk, 0, 16, 30, 20000, 200000, 50},
	}};
