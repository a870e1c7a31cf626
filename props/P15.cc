// P15: everybody reads the same text, each in the character set of their own.
#include "tr.h"
#include "internals.h"

typedef std::pair<bool, std::string> Maybe;
static Maybe convert(const std::string &s, const std::string &to, const std::string &from)
{
	gsize r = 0, w = 0;
	char *o = g_convert(s.data(), s.size(), to.c_str(), from.c_str(), &r, &w, NULL);
	if (!o) return {false, ""};
	Maybe m(true, std::string(o, w));
	g_free(o);
	return m;
}
static std::string chop(std::string l) { while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back(); return l; }
// no character set: bytes are passed as they are
static Maybe decode(const std::string &cs, const std::string &l) { if (cs.empty()) return {true, l}; Maybe m = convert(l + "\r\n", "UTF-8", cs); m.second = chop(m.second); return m; }
static Maybe encode(const std::string &cs, const std::string &l) { if (cs.empty()) return {true, l}; Maybe m = convert(l + "\r\n", cs, "UTF-8"); m.second = chop(m.second); return m; }

static const Strs SETS = {"UTF-8", "ISO-8859-1", "KOI8-R", "ISO-2022-JP", "CP1252", "SHIFT_JIS", "US-ASCII", "utf-8", "ISO-8859-15", "GB18030", "EUC-JP", "BIG5"};
static const Strs BAD = {"klingon", "UTF-9", "ISO-8859-99"};
static const Strs TEXTS = {"plain", "caf\xc3\xa9", "na\xc3\xafve", "\xd0\xbf\xd1\x80\xd0\xb8\xd0\xb2\xd0\xb5\xd1\x82", "\xe3\x81\x82\xe3\x81\x84", "\xe6\xbc\xa2\xe5\xad\x97 kanji", "\xe2\x82\xac 5", "\xf0\x9f\x98\x80", "\xed\x95\x9c\xea\xb5\xad", "mixed \xe3\x81\x82 caf\xc3\xa9", "\xe2\x80\x9cquoted\xe2\x80\x9d", "end \xe3\x81\x82"};
// bytes that are not valid everywhere
static const Strs BYTES = {"\xe9t\xe9", "\xff\xfe", "\x1b$B$\"", "\x1b$B$\"\xff", "\xc3", "\xe3\x81", "a\x80z", "\x1b$)C\x0e"};

static std::string text(Src &o) { std::string r; for (uint32_t k = 1 + o.range(3); k--;) r += (r.empty() ? "" : " ") + o.pick(TEXTS); return r; }
// a line as somebody using cs would send it: mostly right
static std::string typed(Src &o, const std::string &cs, const std::string &head)
{
	if (o.chance(1, 6)) return head + o.pick(BYTES) + (o.chance(1, 2) ? " x" : "");
	std::string t = text(o);
	Maybe m = encode(cs, head + t);
	if (m.first) return m.second;
	return o.chance(1, 2) ? head + t : head + "plain";
}

static void line(Src &s, Ctx &c)
{
	Tr r;
	PeerP p = make(r, false);
	std::string cs;
	size_t sent = 0, n = 0, bad = 0, lost = 0, changes = 0;
	Strs want;
	while (!s.empty()) {
		Src o = s.block(8);
		std::string head = "PRIVMSG #x :" + std::to_string(n++) + " ";
		switch (o.range(8)) {
		default: {
			std::string l = typed(o, cs, head);
			c.log("arrives: %s", q(l).c_str());
			p->line(l);
			Maybe m = decode(cs, l);
			if (!m.first) { bad++; break; }
			struct irc_line *x = irc_parse_line(m.second.c_str());
			char *y = irc_line_string(x);
			want.push_back(y);
			g_free(y);
			free_line(x);
			break;
		}
		case 3: case 4: case 5: {
			std::string t = o.chance(1, 8) ? o.pick(BYTES) : text(o), l = head + t;
			c.log("sent: %s", q(l).c_str());
			p->take();
			struct irc_line *x = irc_parse_line(l.c_str());
			x->has_endcolon = WITH_COLON;
			transport_send_line(r.t, x, NULL);
			free_line(x);
			pump();
			Maybe m = encode(cs, l);
			Strs got = p->take();
			if (!m.first) { lost++; if (!got.empty()) fail(c, "sent", "sent %s", q(got[0]).c_str()); }
			else if (got != Strs{m.second}) fail(c, "sent", "in %s: sent %s, should be %s", cs.c_str(), got.empty() ? "nothing" : q(got[0]).c_str(), q(m.second).c_str());
			sent++;
			break;
		}
		case 6: case 7: {
			pump();
			int k = o.range(6);
			const std::string to = k == 0 ? o.pick(BAD) : k == 1 ? "" : o.pick(SETS);
			c.log("character set %s", to.empty() ? "none" : to.c_str());
			changes++;
			gboolean ok = transport_set_charset(r.t, to.empty() ? NULL : to.c_str());
			if (ok != (k != 0)) fail(c, "set", "setting %s %s", to.c_str(), ok ? "succeeded" : "failed");
			if (ok) cs = to;
			if ((r.t->charset ? r.t->charset : "") != cs) fail(c, "set", "the character set is said to be %s", r.t->charset);
			break;
		}
		}
		if (o.chance(1, 2)) pump();
	}
	pump();
	for (size_t i = 0; i < want.size() || i < r.got.size(); i++)
		if (i >= want.size() || i >= r.got.size() || want[i] != r.got[i])
			fail(c, "received", "line %zu is %s, should be %s", i, i < r.got.size() ? q(r.got[i]).c_str() : "missing", i < want.size() ? q(want[i]).c_str() : "nothing");
	if (r.charset_errors != (int)bad) fail(c, "errors", "%d errors for %zu lines that are not valid", r.charset_errors, bad);
	if (r.errors + r.hangups + r.disconnects) fail(c, "errors", "the connection was given up");
	release(r);
	pump();
	if (want.size() + sent >= 4 && changes) c.nontrivial();
	if (bad) c.tag("invalid line");
	if (lost) c.tag("unrepresentable line");
}

static void session(Src &s, Ctx &c)
{
	Src h = s.block(10);
	// A server that says what its character set is; the setting for clients is the same, see DESIGN.md
	std::string scs, def;
	bool announce = h.chance(1, 3);
	if (announce) { def = h.pick(SETS); for (auto &x : def) x = toupper(x); }
	start_global("[global]\nautosave=false\nreport-time=never\nreplication=none\n" + (announce ? "default-client-charset=" + def + "\n" : std::string()));
	struct network_config *nc = add_network_config("net", "me");
	nc->ignore_first_nick = -1;
	PeerP srv;
	struct irc_network *n = start_network(nc, srv);
	Strs chans;
	auto login = [&] {
		pump();
		srv->line(":irc.test 001 me :Welcome");
		srv->line(":irc.test 005 me CHANTYPES=# PREFIX=(ov)@+ CHANMODES=b,k,l,imnpst " + (announce ? "CHARSET=" + def + " " : std::string()) + "NICKLEN=9 :are supported");
		srv->line(":irc.test 376 me :End of MOTD");
		pump();
		scs = announce ? def : "";
		chans.clear();
		srv->take();
	};
	login();
	struct Cl { PeerP p; std::string cs; Strs want; size_t bad = 0; };
	std::vector<Cl> cls;
	Strs up;
	size_t num = 0, sets = 0, across = 0;
	auto tell = [&](const std::string &l, size_t except) {
		for (size_t i = 0; i < cls.size(); i++) if (i != except) {
			Maybe m = encode(cls[i].cs, l);
			if (m.first) { cls[i].want.push_back(m.second); if (m.second != l) across++; }
		}
	};
	auto check = [&] {
		pump();
		for (size_t i = 0; i < cls.size(); i++) {
			Strs g, all = cls[i].p->take();
			size_t bad = 0;
			for (auto &l : all) { if (l.find(" :m") != std::string::npos) g.push_back(l); if (l.find(" 980 ") != std::string::npos) bad++; }
			for (size_t k = 0; k < g.size() || k < cls[i].want.size(); k++)
				if (k >= g.size() || k >= cls[i].want.size() || g[k] != cls[i].want[k])
					fail(c, "client", "client %zu (%s) got %s, should get %s", i, cls[i].cs.c_str(), k < g.size() ? q(g[k]).c_str() : "nothing", k < cls[i].want.size() ? q(cls[i].want[k]).c_str() : "nothing");
			if (bad != cls[i].bad) fail(c, "told", "client %zu was told of %zu invalid lines instead of %zu", i, bad, cls[i].bad);
			cls[i].want.clear();
			cls[i].bad = 0;
			if (cls[i].p->eof) fail(c, "gone", "client %zu was disconnected", i);
		}
		Strs g;
		for (auto &l : srv->take()) if (l.find(" :m") != std::string::npos) g.push_back(l);
		for (size_t k = 0; k < g.size() || k < up.size(); k++)
			if (k >= g.size() || k >= up.size() || g[k] != up[k]) fail(c, "server", "the server got %s, should get %s", k < g.size() ? q(g[k]).c_str() : "nothing", k < up.size() ? q(up[k]).c_str() : "nothing");
		up.clear();
		if (srv->eof) fail(c, "gone", "the server was disconnected");
	};
	auto add = [&](bool usable) {
		Cl k;
		k.cs = def;
		k.p = attach(n, "me");
		pump();
		if (!usable) { if (!k.p->eof) fail(c, "unusable", "a client was let in although its character set is not known"); c.tag("refused"); return; }
		std::set<std::string> got, want;
		for (auto &l : k.p->take()) if (l.find(" JOIN ") != std::string::npos) got.insert(l.substr(l.find(" JOIN ") + 6));
		for (auto &x : chans) { Maybe m = encode(k.cs, ":me!cu@localhost JOIN " + x); if (m.first) want.insert(encode(k.cs, x).second); }
		if (got != want) fail(c, "channels", "a client using %s was told of %zu channels instead of %zu", k.cs.c_str(), got.size(), want.size());
		cls.push_back(k);
	};
	add(true);
	bool usable = true;
	while (!s.empty()) {
		Src o = s.block(10);
		switch (o.range(12)) {
		default: {
			std::string l = typed(o, scs, ":bob!u@h PRIVMSG " + std::string(o.chance(1, 3) ? "me" : "#c") + " :m" + std::to_string(num++) + " ");
			c.log("the server sends %s", q(l).c_str());
			srv->line(l);
			Maybe m = decode(scs, l);
			if (m.first) tell(m.second, -1);
			break;
		}
		case 4: case 5: case 6: {
			if (cls.empty()) break;
			size_t i = o.range(cls.size());
			std::string l = typed(o, cls[i].cs, "PRIVMSG #c :m" + std::to_string(num++) + " ");
			c.log("client %zu sends %s", i, q(l).c_str());
			cls[i].p->line(l);
			Maybe m = decode(cls[i].cs, l);
			if (!m.first) { cls[i].bad++; break; }
			tell(":me!cu@localhost " + m.second, i);
			Maybe u = encode(scs, m.second);
			if (u.first) { up.push_back(u.second); if (u.second != m.second) across++; }
			break;
		}
		case 7: case 8: {
			if (cls.empty()) break;
			check();
			size_t i = o.range(cls.size());
			bool ok = !o.chance(1, 5);
			std::string to = ok ? o.pick(SETS) : o.pick(BAD);
			c.log("client %zu chooses %s", i, to.c_str());
			cls[i].p->line("CTRLPROXY CHARSET " + to);
			if (ok) cls[i].cs = to;
			sets++;
			pump();
			Strs g = cls[i].p->take();
			if (ok ? !g.empty() : g.size() != 1) fail(c, "answer", "%zu lines as an answer to the choice of %s", g.size(), to.c_str());
			break;
		}
		case 9: if (cls.size() < 4) { check(); c.log("a client attaches"); add(usable); } else { check(); size_t i = o.range(cls.size()); c.log("client %zu leaves", i); cls[i].p->close(); cls.erase(cls.begin() + i); pump(); } break;
		case 10: {
			check();
			if (o.chance(1, 2)) {
				std::string name = "#" + o.pick(Strs{"caf\xc3\xa9", "\xe3\x81\x82", "abc", "\xd0\xbf"});
				Maybe m = encode(scs, ":me!u@h JOIN " + name);
				if (!m.first || std::find(chans.begin(), chans.end(), name) != chans.end()) break;
				c.log("join %s", q(name).c_str());
				srv->line(m.second);
				chans.push_back(name);
			} else {
				c.log("the server comes back");
				srv->close();
				pump();
				srv = connect_server(n);
				login();
				check();
			}
			break;
		}
		case 11: {
			if (cls.empty()) break;
			check();
			size_t i = o.range(cls.size());
			if (announce) break;
			usable = !o.chance(1, 5);
			def = usable ? o.pick(SETS) : o.pick(BAD);
			c.log("client %zu makes %s the default", i, def.c_str());
			cls[i].p->line("CTRLPROXY SET default-client-charset " + def);
			break;
		}
		}
		if (o.chance(3, 4)) check();
		else pump();
	}
	check();
	close_all_peers();
	if (num >= 5 && across) c.nontrivial();
	if (sets) c.tag("chosen");
	if (announce) c.tag("announced");
}

// The setting for clients is not a setting for the server (known finding; only replayed).
static void foreign(Src &s, Ctx &c)
{
	Src h = s.block(2);
	Strs sets{"ISO-8859-1", "KOI8-R", "CP1252", "UTF-8"};
	std::string def = sets[h.range(4)];
	start_global("[global]\nautosave=false\nreport-time=never\nreplication=none\ndefault-client-charset=" + def + "\n");
	struct network_config *nc = add_network_config("net", "me");
	PeerP srv;
	struct irc_network *n = start_network(nc, srv);
	pump();
	srv->line(":irc.test 001 me :Welcome");
	srv->line(":irc.test 005 me CHANTYPES=# CHARSET=UTF-8 :are supported");
	srv->line(":irc.test 376 me :End of MOTD");
	pump();
	PeerP p = attach(n, "me");
	pump();
	p->take();
	std::string l = ":bob!u@h PRIVMSG #c :m ";
	l += def == "KOI8-R" ? "\xd0\xbf" : "caf\xc3\xa9";
	c.log("the server, which announced UTF-8, sends %s", q(l).c_str());
	srv->line(l);
	pump();
	Strs g = p->take();
	if (g != Strs{encode(def, l).second}) fail(c, "server charset", "the client, who uses %s, got %s", def.c_str(), g.empty() ? "nothing" : q(g[0]).c_str());
	close_all_peers();
}

Property the_property = {
	"P15",
	"line: at least 4 lines and a change of the character set; session: at least 5 messages of which some look different on the two sides",
	{"the conversions themselves are those of iconv; only character sets in which ASCII is written as ASCII", "the character set of the server is only judged when it is the same as the default for clients, see DESIGN.md"},
	{
		{"line", line, 0, 8, 40, 6000, 80000, 20},
		{"session", session, 10, 10, 40, 2500, 30000, 20},
		{"foreign", foreign, 0, 2, 2, 0, 0, 1},
	}};
