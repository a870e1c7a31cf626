// P03: names are compared under the network's case mapping, nothing else.
#include "gen.h"

static std::string fold(const std::string &s, int m)   // 0 rfc1459, 1 strict, 2 ascii
{
	std::string r = s;
	for (auto &c : r) {
		if (c >= 'A' && c <= 'Z') c += 32;
		else if (m < 2 && (c == '[' || c == ']' || c == '\\')) c += 32;
		else if (m == 0 && c == '^') c = '~';
	}
	return r;
}

static std::string gen_name(Src &s, int max)
{
	static const std::string al = "aAzZbBmM{[}]|\\~^_`@?09#&-!\x80\xff\xc3\xa1\xe1";
	std::string r;
	for (uint32_t k = s.range(max + 1); k--;) {
		if (s.chance(1, 10)) { uint8_t b = s.byte(); r += b ? (char)b : 'a'; }
		else r += al[s.range(al.size())];
	}
	return r;
}

// a string related to the other: equal up to case, or with one place changed
static std::string relate(Src &s, const std::string &a)
{
	std::string r = a;
	switch (s.range(5)) {
	case 0: return gen_name(s, 10);
	case 1: for (auto &c : r) if (s.chance(1, 2)) { if (c >= 'a' && c <= 'z') c -= 32; else if (c >= 'A' && c <= 'Z') c += 32; } return r;
	case 2: for (auto &c : r) if (s.chance(1, 2)) { if (c >= 0x61 && c <= 0x7e) c -= 32; else if (c >= 0x41 && c <= 0x5e) c += 32; } return r;
	case 3: if (!r.empty()) { size_t i = s.range(r.size()); r[i] = (char)(r[i] ^ (1 << s.range(8))); if (!r[i]) r[i] = 'q'; } return r;
	default: return s.chance(1, 2) ? r + gen_name(s, 3) : r.substr(0, s.range(r.size() + 1));
	}
}

static void cmp(Src &s, Ctx &c)
{
	struct irc_network_info *info = network_info_init();
	int m = s.range(3);
	network_info_parse(info, m == 0 ? "CASEMAPPING=rfc1459" : m == 1 ? "CASEMAPPING=strict-rfc1459" : "CASEMAPPING=ascii");
	bool noinfo = m == 0 && s.chance(1, 4);
	std::string a = gen_name(s, 12), b = relate(s, a);
	size_t n = s.range(14);
	c.log("mapping %d: %s vs %s, first %zu", m, q(a).c_str(), q(b).c_str(), n);
	const struct irc_network_info *i = noinfo ? NULL : info;
	bool eq = fold(a, m) == fold(b, m);
	if ((irccmp(i, a.c_str(), b.c_str()) == 0) != eq) fail(c, "irccmp", "%s, should be %s", eq ? "different" : "equal", eq ? "equal" : "different");
	if ((irccmp(i, b.c_str(), a.c_str()) == 0) != eq) fail(c, "irccmp-sym", "comparison not symmetric");
	bool eqn = fold(a.substr(0, n), m) == fold(b.substr(0, n), m);
	if ((ircncmp(i, a.c_str(), b.c_str(), n) == 0) != eqn) fail(c, "ircncmp", "first %zu: %s, should be %s", n, eqn ? "different" : "equal", eqn ? "equal" : "different");
	bool be = fold(a, 2) == fold(b, 2), bn = fold(a.substr(0, n), 2) == fold(b.substr(0, n), 2);
	if ((base_strcmp(a.c_str(), b.c_str()) == 0) != be) fail(c, "base_strcmp", "keyword comparison");
	if (n && (base_strncmp(a.c_str(), b.c_str(), n) == 0) != bn) fail(c, "base_strncmp", "keyword prefix comparison");
	free_network_info(info);
	c.tag(eq ? "equal" : eqn ? "equal-prefix" : "different");
	if (eq && a != b) { c.tag("equal-not-identical"); }
	if (a.size() > 1 && b.size() > 1) c.nontrivial();
}

// lookups of tracked nicks and channels go by the same rule
static void lookup(Src &s, Ctx &c)
{
	int m = s.range(3);
	auto clean = [](std::string n) { std::string r; for (char ch : n) if (!strchr(" ,:!@+\r\n", ch)) r += ch; return r.empty() ? std::string("n") : r; };
	std::string me = clean(s.chance(1, 2) ? "me[x]^" : gen_name(s, 6));
	struct irc_network_state *st = network_state_init(me.c_str(), "u", "h");
	network_info_parse(st->info, m == 0 ? "CASEMAPPING=rfc1459" : m == 1 ? "CASEMAPPING=strict-rfc1459" : "CASEMAPPING=ascii");
	Strs chans, nicks;
	c.log("own nick %s, mapping %d", q(me).c_str(), m);
	auto feed = [&](const std::string &l) { c.log("%s", l.c_str()); struct irc_line *x = irc_parse_line(l.c_str()); state_handle_data(st, x); free_line(x); };
	auto known = [&](const Strs &v, const std::string &n) { for (auto &x : v) if (fold(x, m) == fold(n, m)) return true; return false; };
	auto own = [&](const std::string &n) { return fold(n, m) == fold(me, m); };
	int folded = 0;
	while (!s.empty()) {
		Src o = s.block(24);
		if (chans.empty() || o.chance(1, 3)) {
			std::string ch = "#" + clean(chans.empty() || o.chance(1, 2) ? gen_name(o, 6) : relate(o, chans[o.range(chans.size())].substr(1)));
			if (known(chans, ch)) {
				std::string who = clean(gen_name(o, 6));
				if (own(who) || known(nicks, who) || is_prefix(who[0], st->info)) continue;
				for (auto &x : chans) if (x != ch && fold(x, m) == fold(ch, m)) folded++;
				feed(":" + who + "!u@h JOIN " + ch);
				nicks.push_back(who);
			} else { feed(":" + me + "!u@h JOIN " + ch); chans.push_back(ch); }
		} else {
			std::string who = clean(o.chance(1, 4) ? relate(o, me) : nicks.empty() ? gen_name(o, 6) : relate(o, nicks[o.range(nicks.size())]));
			bool k = known(nicks, who) || own(who);
			c.log("look up %s", q(who).c_str());
			struct network_nick *nn = find_network_nick(st, who.c_str());
			if ((nn != NULL) != k) fail(c, "find-nick", "lookup of %s %s", q(who).c_str(), k ? "failed" : "found another user");
			if (nn && fold(nn->nick, m) != fold(who, m)) fail(c, "find-nick-other", "lookup of %s found %s", q(who).c_str(), q(nn->nick).c_str());
			if ((nn == &st->me) != own(who)) fail(c, "find-me", "lookup of %s %s the own user", q(who).c_str(), own(who) ? "does not give" : "gives");
			if (own(who)) { if (who != me) folded++; continue; }
			if (is_prefix(who[0], st->info)) continue;
			feed(":" + who + "!u@h JOIN " + chans[0]);
			if (k) folded++; else nicks.push_back(who);
			struct channel_nick *cn = find_channel_nick(find_channel(st, chans[0].c_str()), who.c_str());
			if (!cn || fold(cn->global_nick->nick, m) != fold(who, m)) fail(c, "find-member", "member %s not found in %s", q(who).c_str(), q(chans[0]).c_str());
		}
		if (g_list_length(st->channels) != chans.size()) fail(c, "channels", "%u channels tracked, %zu joined", g_list_length(st->channels), chans.size());
		for (auto &ch : chans) {
			struct irc_channel_state *cs = find_channel(st, ch.c_str());
			if (!cs || cs->name != ch) fail(c, "find-channel", "lookup of %s gives %s", q(ch).c_str(), cs ? q(cs->name).c_str() : "nothing");
			std::string other = "#" + relate(o, ch.substr(1));
			cs = find_channel(st, other.c_str());
			if ((cs != NULL) != known(chans, other)) fail(c, "find-channel-other", "lookup of %s %s", q(other).c_str(), cs ? "finds a channel" : "fails");
		}
	}
	free_network_state(st);
	if (folded) c.nontrivial();
}

Property the_property = {
	"P03",
	"cmp: both names longer than one character; lookup: a history in which a name is used again in a different spelling",
	{"names contain no NUL"},
	{
		{"cmp", cmp, 80, 1, 1, 200000, 3000000, 500},
		{"lookup", lookup, 12, 24, 24, 15000, 150000, 50},
	}};
