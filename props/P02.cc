// P02: what the server advertises is what the proxy uses and re-advertises.
#include "gen.h"

struct Model {
	std::map<std::string, std::string> tok;   // printed tokens: key -> "=value" or ""
	std::string chantypes = "#&", prefix = "(ov)@+";
	std::vector<std::string> chanmodes = {"beI", "k", "l", "imnpsta"};
	std::string casemap = "rfc1459";
	std::set<char> elist;
	bool my = false;
	std::string chanm;
	void set(const std::string &k, const std::string &v) { tok[k] = "=" + v; }
};

static const Strs flags = {"OVERRIDE", "VBANLIST", "REMOVE", "WALLCHOPS", "MAP", "SSL", "WALLVOICES", "RFC2812", "PENALTY", "FNC", "SAFELIST", "USERIP", "CPRIVMSG", "CNOTICE", "KNOCK", "CAPAB", "HCN", "VCHANNELS", "WHOX", "CALLERID", "ACCEPT", "ESILENCE", "UHNAMES", "NAMESX", "SECURELIST"};
static const Strs nums = {"NICKLEN", "USERLEN", "HOSTLEN", "CHANNELLEN", "AWAYLEN", "KICKLEN", "TOPICLEN", "WATCH", "MAXPARA", "MAXCHANNELS", "MAXTARGETS", "MAXBANS", "MODES", "KEYLEN", "MAXNICKLEN", "MAXCHANNELLEN"};
static const Strs strs = {"NETWORK", "IRCD", "CHANLIMIT", "MAXLIST", "IDCHAN", "STATUSMSG", "CHARSET"};
static const Strs chars = {"EXCEPTS", "INVEX", "DEAF"};

static std::string word(Src &s, int max)
{
	static const std::string al = "abcXYZ0189#&+@%!~:,-_.b";
	std::string r;
	for (uint32_t k = s.range(max + 1); k--;) r += al[s.range(al.size())];
	return r;
}
static std::string up(std::string s) { for (auto &c : s) c = toupper(c); return s; }

static std::string subset(Src &s, const std::string &al)
{
	std::string r;
	uint32_t m = (s.byte() << 8) | s.byte();
	for (size_t i = 0; i < al.size(); i++) if (m >> (i % 16) & 1) r += al[i];
	return r;
}

// Apply one token to the model, by the meaning the token has in the
// RPL_ISUPPORT drafts.
static void apply(Model &m, const std::string &key0, bool hasval, const std::string &v)
{
	std::string k = up(key0);
	if (k == "MAXNICKLEN") k = "NICKLEN";
	if (k == "MAXCHANNELLEN") k = "CHANNELLEN";
	if (std::find(flags.begin(), flags.end(), k) != flags.end()) { m.tok[k] = ""; return; }
	if (std::find(nums.begin(), nums.end(), k) != nums.end()) {
		int n = hasval ? atoi(v.c_str()) : 0;
		if (n) m.set(k, std::to_string(n)); else m.tok.erase(k);
		return;
	}
	if (std::find(strs.begin(), strs.end(), k) != strs.end()) { if (hasval) m.set(k, v); else m.tok.erase(k); return; }
	if (std::find(chars.begin(), chars.end(), k) != chars.end()) {
		char d = k == "EXCEPTS" ? 'e' : k == "INVEX" ? 'I' : 'D';
		if (!hasval) m.set(k, std::string(1, d));
		else if (v.size() == 1) m.set(k, v);
		else if (v.empty()) m.tok.erase(k);
		return;
	}
	if (k == "SILENCE") {
		int n = hasval ? atoi(v.c_str()) : 0;
		if (n) m.set(k, std::to_string(n));
		else if (hasval) m.tok[k] = "";
		else if (!m.tok.count(k)) m.tok[k] = "";
	}
	if (k == "CHANTYPES") m.chantypes = v;
	if (k == "CHANMODES") {
		Strs p;
		size_t i = 0;
		while (true) {
			size_t e = v.find(',', i);
			if (e == std::string::npos || p.size() == 3) { p.push_back(v.substr(i)); break; }
			p.push_back(v.substr(i, e - i));
			i = e + 1;
		}
		if (p.size() != 4) { m.chanmodes = {"beI", "k", "l", "imnpsta"}; m.tok.erase(k); }
		else {
			m.chanmodes = p;
			m.set(k, v);
			if (m.my) for (auto &g : p) for (char c : g) if (m.chanm.find(c) == std::string::npos) m.chanm += c;
		}
	}
	if (k == "PREFIX" && (v.empty() || (v[0] == '(' && v.find(')') != std::string::npos))) m.prefix = v;
	if (k == "CASEMAPPING" && hasval) {
		std::string l = lower_ascii(v);
		m.casemap = (l == "ascii" || l == "strict-rfc1459") ? l : "rfc1459";
	}
	if (k == "ELIST") for (char c : v) if (strchr("MNUCT", c)) m.elist.insert(c);
	if (k == "EXTBAN") {
		if (!hasval) m.set(k, "~,cqr");
		else { size_t e = v.find(','); m.set(k, e == std::string::npos ? v + "," : v); }
	}
}

static std::string gen_token(Src &s, Model &m)
{
	std::string k, v;
	bool hv = true;
	switch (s.range(12)) {
	case 0: k = s.pick(flags); hv = s.chance(1, 8); break;
	case 1: case 2: k = s.pick(nums); v = std::to_string(s.chance(1, 4) ? 0 : s.range(2000)); break;
	case 3: k = s.pick(strs); v = word(s, 10); break;
	case 4: k = s.pick(chars); v = subset(s, "eIDq").substr(0, 2); hv = s.chance(2, 3); break;
	case 5: k = "CHANTYPES"; v = subset(s, "#&+!~"); break;
	case 6: {
		k = "CHANMODES";
		v = subset(s, "beIqZ") + "," + subset(s, "kfL") + "," + subset(s, "ljJ") + "," + subset(s, "imnpstaCcKMNRS");
		if (s.chance(1, 6)) v = subset(s, "beI,k");
		if (s.chance(1, 12)) v += ",xyz";
		break;
	}
	case 7: {
		k = "PREFIX";
		std::string pm = subset(s, "qaohv"), ps;
		for (char c : pm) ps += c == 'q' ? '~' : c == 'a' ? '&' : c == 'o' ? '@' : c == 'h' ? '%' : '+';
		v = s.chance(1, 12) ? "" : "(" + pm + ")" + ps;
		if (s.chance(1, 12)) v = word(s, 6);
		break;
	}
	case 8: k = "CASEMAPPING"; v = s.pick(Strs{"rfc1459", "ascii", "strict-rfc1459", "ASCII", "utf8"}); break;
	case 9: k = "ELIST"; v = subset(s, "MNUCTx"); break;
	case 10: k = s.chance(1, 2) ? "SILENCE" : "EXTBAN"; hv = s.chance(1, 2); v = k == "SILENCE" ? std::to_string(s.range(40)) : s.pick(Strs{"~,cqnr", "$,arxc", "$", "", ",abc"}); break;
	case 11: k = word(s, 8) + "Q"; v = word(s, 4); break;
	}
	if (s.chance(1, 16)) hv = false;
	if (s.chance(1, 16)) { v = word(s, 8); hv = true; }
	if (s.chance(1, 10)) k = lower_ascii(k);
	if (k.empty()) k = "X";
	if (k[0] == ':') k = "X" + k;
	std::string t = hv ? k + "=" + v : k;
	size_t e = t.find('=');
	apply(m, t.substr(0, e), e != std::string::npos, e == std::string::npos ? "" : t.substr(e + 1));
	return t;
}

static std::set<std::string> toks(const std::string &s)
{
	std::set<std::string> r;
	size_t i = 0;
	while (i < s.size()) { size_t e = s.find(' ', i); if (e == std::string::npos) e = s.size(); if (e > i) r.insert(s.substr(i, e - i)); i = e + 1; }
	return r;
}

static void check(Ctx &c, struct irc_network_info *info, const Model &m, const char *phase)
{
	std::set<std::string> want;
	for (auto &t : m.tok) want.insert(t.first + t.second);
	want.insert("CHANTYPES=" + m.chantypes);
	want.insert("PREFIX=" + m.prefix);
	want.insert("CASEMAPPING=" + m.casemap);
	if (!m.elist.empty()) { std::string e; for (char ch : std::string("MNUCT")) if (m.elist.count(ch)) e += ch; want.insert("ELIST=" + e); }
	std::string out = take(network_info_string(info));
	std::set<std::string> got = toks(out);
	for (auto &w : want) if (!got.count(w)) fail(c, "missing", "%s: %s not advertised: %s", phase, q(w).c_str(), q(out).c_str());
	for (auto &g : got) if (!want.count(g)) fail(c, "extra", "%s: %s advertised but not announced by the server", phase, q(g).c_str());
	// lookups
	size_t close = m.prefix.find(')');
	std::string pm = close == std::string::npos ? "" : m.prefix.substr(1, close - 1), ps = close == std::string::npos ? "" : m.prefix.substr(close + 1);
	bool wf = pm.size() == ps.size() && !m.prefix.empty();
	for (int ch = 1; ch < 256; ch++) {
		char s1[3] = {(char)ch, 'x', 0};
		bool isch = m.chantypes.find((char)ch) != std::string::npos;
		if (!!is_channelname(s1, info) != isch) fail(c, "chantypes", "%s: is a name starting with %s a channel? said %d", phase, q(std::string(1, (char)ch)).c_str(), !isch);
		if (wf) {
			bool isp = ps.find((char)ch) != std::string::npos;
			if (!!is_prefix((char)ch, info) != isp) fail(c, "prefix", "%s: is %s a prefix? said %d", phase, q(std::string(1, (char)ch)).c_str(), !isp);
			size_t at = pm.find((char)ch);
			char w = at == std::string::npos ? ' ' : ps[at];
			char g = get_prefix_by_mode((char)ch, info);
			if (w != g) fail(c, "prefix-by-mode", "%s: prefix of mode %s is '%c', said '%c'", phase, q(std::string(1, (char)ch)).c_str(), w, g);
			if (at != std::string::npos && pm.rfind((char)ch) == at) {
				irc_modes_t mo;
				memset(mo, 0, sizeof mo);
				mo[ch] = TRUE;
				if (at + 1 < pm.size()) mo[(unsigned char)pm.back()] = TRUE;
				char h = get_prefix_from_modes(info, mo);
				if (h != ps[at]) fail(c, "prefix-from-modes", "%s: highest prefix with mode %c is '%c', said '%c'", phase, ch, ps[at], h ? h : '0');
			}
		}
		int ty = 0;
		for (int i = 0; i < 4 && !ty; i++) if (m.chanmodes[i].find((char)ch) != std::string::npos) ty = i + 1;
		if ((int)network_chanmode_type((char)ch, info) != ty) fail(c, "chanmode-type", "%s: mode %s has type %d, said %d", phase, q(std::string(1, (char)ch)).c_str(), ty, network_chanmode_type((char)ch, info));
	}
	if (is_channelname("", info)) fail(c, "chantypes-empty", "the empty name is a channel");
	(void)is_prefix(0, info);
	if (irccmp(info, "a[]\\", "A{}|") == 0 && m.casemap == "ascii") fail(c, "casemap", "ascii mapping folds brackets");
	if (irccmp(info, "a[]\\", "A{}|") != 0 && m.casemap != "ascii") fail(c, "casemap", "%s mapping does not fold brackets", m.casemap.c_str());
	if ((irccmp(info, "^", "~") == 0) != (m.casemap == "rfc1459")) fail(c, "casemap", "%s mapping of ^ and ~", m.casemap.c_str());
}

static void announce(Src &s, Ctx &c)
{
	struct irc_network_state *st = network_state_init("me", "u", "h");
	Model m;
	int n = 0;
	if (s.chance(1, 3)) {
		m.my = true;
		m.chanm = subset(s, "beIklimnpsta");
		if (m.chanm.empty()) m.chanm = "b";
		std::string l = ":srv 004 me srv ver iow " + m.chanm;
		c.log("%s", l.c_str());
		struct irc_line *x = irc_parse_line(l.c_str());
		state_handle_data(st, x);
		free_line(x);
	}
	while (!s.empty()) {
		Src o = s.block(24);
		std::string l = ":srv 005 me";
		for (uint32_t k = 1 + o.range(3); k--;) { l += " " + gen_token(o, m); n++; }
		l += " :are supported by this server";
		c.log("%s", l.c_str());
		struct irc_line *x = irc_parse_line(l.c_str());
		state_handle_data(st, x);
		free_line(x);
	}
	check(c, st->info, m, "after the announcement");
	if (m.my) {
		std::string sup = S(st->info->supported_channel_modes);
		for (char ch : m.chanm) if (!is_channel_mode(st->info, ch)) fail(c, "supported", "mode %c missing from %s", ch, sup.c_str());
		if (sup.size() != m.chanm.size()) fail(c, "supported-extra", "modes %s, expected %s", sup.c_str(), m.chanm.c_str());
	}
	// a second proxy (or a client) reading our advertisement ends up the same
	std::string out = take(network_info_string(st->info));
	struct irc_network_info *i2 = network_info_init();
	for (auto &t : toks(out)) network_info_parse(i2, t.c_str());
	check(c, i2, m, "read back");
	free_network_info(i2);
	free_network_state(st);
	if (n >= 3) c.nontrivial();
	c.tag("tokens " + std::to_string(n / 5 * 5) + "+");
}

// arbitrary tokens: no crash, and the advertisement reads back to itself
static void junk(Src &s, Ctx &c)
{
	struct irc_network_info *i = network_info_init();
	Strs keys = flags;
	for (auto *l : {&nums, &strs, &chars}) keys.insert(keys.end(), l->begin(), l->end());
	for (auto k : {"CHANTYPES", "CHANMODES", "PREFIX", "CASEMAPPING", "ELIST", "SILENCE", "EXTBAN"}) keys.push_back(k);
	int n = 0;
	while (!s.empty()) {
		Src o = s.block(16);
		std::string t = o.pick(keys);
		if (o.chance(1, 10)) t = gen_text(o, 6);
		if (o.chance(4, 5)) t += "=" + (o.chance(1, 2) ? gen_text(o, 12) : word(o, 10));
		std::string u;
		for (char ch : t) if (ch != ' ') u += ch;
		c.log("token %s", q(u).c_str());
		network_info_parse(i, u.c_str());
		n++;
		for (int ch = 0; ch < 256; ch += 7) {
			char s1[2] = {(char)ch, 0};
			(void)!is_channelname(s1, i);
			(void)!is_prefix((char)ch, i);
			(void)!get_prefix_by_mode((char)ch, i);
			network_chanmode_type((char)ch, i);
		}
	}
	std::string out = take(network_info_string(i));
	struct irc_network_info *j = network_info_init();
	for (auto &t : toks(out)) network_info_parse(j, t.c_str());
	std::string out2 = take(network_info_string(j));
	if (toks(out) != toks(out2)) fail(c, "readback", "advertised %s, read back as %s", q(out).c_str(), q(out2).c_str());
	free_network_info(i);
	free_network_info(j);
	if (n >= 3) c.nontrivial();
}

Property the_property = {
	"P02",
	"announce: at least 3 announced parameters; junk: at least 3 tokens",
	{"parameters contain no blanks", "a malformed PREFIX is ignored, a CHANMODES that is not a 4-tuple falls back to the defaults"},
	{
		{"announce", announce, 4, 24, 20, 20000, 200000, 50},
		{"junk", junk, 0, 16, 20, 20000, 200000, 50},
	}};
