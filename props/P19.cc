// P19: the log files hold everything that happened, once, where it belongs.
#include "world.h"
#include "globals.h"
#include <dirent.h>

typedef std::map<std::string, std::string> Files;   // path -> content

static std::string slashless(std::string s) { for (auto &ch : s) if (ch == '/') ch = '_'; if (s == ".") s = "_"; if (s == "..") s = "__"; return s; }

// ---- reference: what a format means for a line ----
static std::string token(char t, const Msg &m, const std::string &ident, const std::string &net)
{
	time_t now = vtime;
	struct tm tm = *localtime(&now);
	char b[64];
	auto tf = [&](const char *f) { strftime(b, sizeof b, f, &tm); return std::string(b); };
	std::string cmd = m.a[0];
	for (auto &ch : cmd) ch = toupper(ch);
	switch (t) {
	case '@': return ident;
	case 'h': return tf("%H");
	case 'M': return tf("%M");
	case 's': return tf("%S");
	case 'd': return tf("%d");
	case 'B': return tf("%m");
	case 'Y': return tf("%Y");
	case 'b': return tf("%b");
	case 'e': return std::to_string((long)now);
	case 'n': return m.has_origin ? m.nick() : "";
	case 'u': { size_t i = m.origin.find('!'); return i == std::string::npos ? "" : m.origin.substr(i + 1); }
	case 'N': return net;
	case 'S': return "";                     // no address known for this connection
	case '%': return "%";
	}
	if (t >= '0' && t <= '9') return m.arg(t - '0');
	if (cmd == "JOIN" && t == 'c') return m.arg(1);
	if (cmd == "PART") { if (t == 'c') return m.arg(1); if (t == 'm') return m.arg(2); }
	if (cmd == "KICK") { if (t == 'c') return m.arg(1); if (t == 't') return m.arg(2); if (t == 'r') return m.arg(3); }
	if (cmd == "QUIT" && t == 'm') return m.arg(1);
	if (cmd == "NOTICE" || cmd == "PRIVMSG") { if (t == 't') return m.arg(1); if (t == 'm') return m.arg(2); }
	if (cmd == "TOPIC") { if (t == 'c') return m.arg(1); if (t == 't') return m.arg(2); }
	if (cmd == "NICK" && t == 'r') return m.arg(1);
	if (cmd == "MODE") {
		if (t == 't') return m.arg(1);
		if (t == 'p') return m.arg(2);
		if (t == 'c') { std::string r; for (size_t i = 3; i < m.a.size(); i++) r += (i > 3 ? " " : "") + m.a[i]; return r; }
	}
	return "";
}
static std::string expand(const std::string &fmt, const Msg &m, const std::string &ident, const std::string &net, bool path)
{
	std::string r;
	for (size_t i = 0; i < fmt.size(); i++) {
		if (fmt[i] != '%') { r += fmt[i]; continue; }
		if (++i == fmt.size()) break;
		std::string t = token(fmt[i], m, ident, net);
		if (path) { t = slashless(fmt[i] == 'N' || fmt[i] == 'b' || (fmt[i] == 'c' && lower_ascii(m.a[0]) == "mode") ? t : lower_ascii(t)); }
		r += t;
	}
	return r;
}

// ---- what must be in the files ----
struct Model {
	std::map<std::string, std::vector<Strs>> files;   // lines of one event may come in any order
	long event = 0;
	std::map<std::string, long> last;
	std::string logfilename, net;
	std::map<std::string, std::string> fmt;      // by kind of event
	std::string block;                           // where nothing can be written
	long lines = 0, several = 0;
	void write(const std::string &kind, const Msg &m, const std::string &ident)
	{
		auto f = fmt.find(kind);
		if (f == fmt.end() || logfilename.empty()) return;
		std::string p = expand(logfilename, m, ident, net, true), part;
		if (p.back() == '/') return;
		for (size_t i = 0, j; i <= p.size(); i = j + 1) { j = std::min(p.find('/', i), p.size()); if (j - i > 255) return; }
		std::string norm;
		for (char ch : p) if (ch != '/' || norm.empty() || norm.back() != '/') norm += ch;
		if (!block.empty() && norm.compare(0, block.size(), block) == 0) return;
		if (!files.count(norm) || last[norm] != event) files[norm].emplace_back();
		last[norm] = event;
		files[norm].back().push_back(expand(f->second, m, ident, net, false) + "\n");
		lines++;
	}
};

static Strs commas(const std::string &s) { Strs r(1); for (char ch : s) if (ch == ',') r.emplace_back(); else r.back() += ch; return r; }

static void record(Model &M, View &v, const std::string &line, bool incoming)
{
	Msg m = msg(line);
	M.event++;
	std::string cmd = m.a[0];
	for (auto &ch : cmd) ch = toupper(ch);
	if (m.a.size() < 2 && cmd != "QUIT") return;
	auto targets = [&](const std::string &kind) { Strs t = commas(m.a[1]); if (t.size() > 1) M.several++; for (auto &x : t) M.write(kind, m, x); };
	auto talk = [&](const std::string &kind) {
		if (v.r.same(m.a[1], v.users[v.me].nick)) M.write(kind, m, m.has_origin ? m.nick() : "_messages_");
		else targets(kind);
	};
	auto everywhere = [&](const std::string &kind) {
		VUser *u = v.user(m.nick());
		if (!u) return;
		std::string key = v.r.fold(m.nick());
		int k = 0;
		if (u->query || key == v.me) { M.write(kind, m, m.nick()); k++; }
		for (auto &ch : v.chans) if (ch.second.members.count(key)) { M.write(kind, m, ch.second.name); k++; }
		if (k > 1) M.several++;
	};
	if (cmd == "PRIVMSG" && m.a.size() > 2) {
		std::string t = m.a[2];
		if (t.empty() || t[0] != 1) { talk("msg"); return; }
		if (lower_ascii(t.substr(0, 8)) != "\001action ") return;
		t = t.substr(8);
		if (!t.empty() && t.back() == 1) t.pop_back();
		m.a[2] = t;
		talk("action");
	} else if (cmd == "NOTICE") talk("notice");
	else if (cmd == "QUIT") { if (m.has_origin) everywhere("quit"); }
	else if (!incoming) return;
	else if (cmd == "JOIN") targets("join");
	else if (cmd == "PART") targets("part");
	else if (cmd == "KICK") targets("kick");
	else if (cmd == "MODE") { if (v.r.ischan(m.a[1])) targets("mode"); }
	else if (cmd == "TOPIC") targets(m.a.size() > 2 ? "topic" : "notopic");
	else if (cmd == "NICK" && m.has_origin) everywhere("nickchange");
}

static void walk(const std::string &d, Files &out, const std::string &skip)
{
	DIR *D = opendir(d.c_str());
	if (!D) return;
	while (struct dirent *e = readdir(D)) {
		std::string n = e->d_name, p = d + "/" + n;
		if (n == "." || n == ".." || p == skip) continue;
		struct stat st;
		if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) walk(p, out, skip);
		else out[p] = slurp(p);
	}
	closedir(D);
}

static void compare(Ctx &c, std::map<std::string, std::vector<Strs>> &events, Files got)
{
	Files want;
	for (auto &e : events) {
		std::string &w = want[e.first];
		Strs have;
		if (got.count(e.first)) for (auto ch : got[e.first]) { if (have.empty() || have.back().back() == '\n') have.emplace_back(); have.back() += ch; }
		size_t i = 0;
		std::string g;
		for (auto &ev : e.second) {
			size_t j = std::min(have.size(), i + ev.size());
			std::sort(ev.begin(), ev.end());
			std::sort(have.begin() + i, have.begin() + j);
			for (auto &x : ev) w += x;
			i = j;
		}
		for (auto &x : have) g += x;
		if (got.count(e.first)) got[e.first] = g;
	}
	for (auto &g : got) if (!want.count(g.first)) fail(c, "stray", "%s was written: %s", q(g.first).c_str(), q(g.second.substr(0, 200)).c_str());
	for (auto &w : want) {
		auto g = got.find(w.first);
		if (g == got.end()) fail(c, "missing", "%s was not written; it should hold %s", q(w.first).c_str(), q(w.second.substr(0, 200)).c_str());
		if (g->second == w.second) continue;
		size_t i = 0;
		while (i < g->second.size() && i < w.second.size() && g->second[i] == w.second[i]) i++;
		size_t b = i ? w.second.rfind('\n', i - 1) : std::string::npos;
		b = b == std::string::npos ? 0 : b + 1;
		auto ln = [&](const std::string &x) { return b >= x.size() ? std::string("the end") : q(x.substr(b, x.find('\n', b) - b)); };
		fail(c, "content", "%s holds %s where it should hold %s", q(w.first).c_str(), ln(g->second).c_str(), ln(w.second).c_str());
	}
}

static const Strs KINDS = {"nickchange", "topic", "notopic", "part", "join", "msg", "notice", "action", "kick", "quit", "mode"};
static const char *IRSSI[] = {
	"%h:%M -!- %n is now known as %r", "%h:%M -!- %n has changed the topic to %t", "%h:%M -!- %n has removed the topic",
	"%h:%M -!- %n [%u] has left %c [%m]", "%h:%M -!- %n [%u] has joined %c", "%h:%M < %n> %m", "%h:%M < %n> %m", "%h:%M  * %n %m",
	"%h:%M -!- %t has been kicked by %n [%r]", "%h:%M -!- %n [%u] has quit [%m]", "%h:%M -!- mode/%t [%p %c] by %n"};

static std::string gen_format(Src &s)
{
	static const std::string T = "@hMsdBYebnuNS%cmtrp012345z";
	std::string f = s.pick(Strs{"-", "<", "x ", "%n"});
	for (uint32_t k = s.range(8); k--;) {
		if (s.chance(2, 3)) { f += '%'; f += T[s.range(T.size())]; }
		else f += s.pick(Strs{"a", " b", "[", "]", "=", "%%", "100%%", "\xc3\xa9"});
	}
	return f + (s.chance(1, 12) ? "%" : ".");
}

static std::string setup(Src &s, Ctx &c, Model &M, std::string &root)
{
	root = scratch() + "/l/o/g/s";
	std::string cfg = "[global]\nautosave=false\nreplication=none\nreport-time=never\nmotd-file=/nonexistent/motd\n";
	switch (s.range(6)) {
	case 0: cfg += "logging=irssi\n"; root = scratch() + "/cfg/log_irssi"; M.logfilename = root + "/%N/%@"; break;
	case 1: cfg += "logging=irssi\nlogdir=" + root + "\n"; M.logfilename = root + "/%N/%@"; break;
	case 2: cfg += "logging=irssi\nlogfile=" + root + "/all\n"; M.logfilename = root + "/all"; break;
	case 3: cfg += "[log-irssi]\nlogfile=" + root + "\n"; M.logfilename = root + "/%N/%@"; break;
	default: {
		bool old = s.chance(1, 4);
		cfg += old ? "[log-custom]\n" : "logging=custom\n";
		if (!s.chance(1, 12)) {
			static const Strs A = {"%N", "%@", "d-%N", "d-%Y-%B-%d", "d-%t", "d-%c%m", "d", "%n", "%m", "d-%u-%0"}, B = {"f-%@", "f", "f-%n", "f-%m", "f-%t%1", "f-%d%%", "f-%r.log"}, B2 = {"%@", "%N", "%n", "%m", "%t", "%c", "f%h"};
			std::string a = s.pick(A), b = s.pick(a[0] == 'd' && s.chance(1, 2) ? B2 : B);
			M.logfilename = root + "/" + a + "/" + b;
			cfg += "logfilename=" + M.logfilename + "\n";
		}
		for (auto &k : KINDS) if (!s.chance(1, 10)) { M.fmt[k] = gen_format(s); cfg += (old ? "" : "log-format-") + k + "=" + M.fmt[k] + "\n"; }
	}
	}
	if (M.fmt.empty()) for (size_t i = 0; i < KINDS.size(); i++) M.fmt[KINDS[i]] = IRSSI[i];
	c.log("logging to %s", q(M.logfilename.substr(std::min(M.logfilename.size(), scratch().size()))).c_str());
	return cfg;
}

static void history(Src &s, Ctx &c)
{
	Model M;
	std::string root;
	Src cs = s.block(48);
	std::string cfg = setup(cs, c, M, root);
	start_global(cfg);
	M.net = cs.pick(Strs{"net", "Net/x", "a b"});
	struct network_config *nc = add_network_config(M.net, "me");
	PeerP srv;
	struct irc_network *n = start_network(nc, srv);
	pump();
	srv->take();
	Files known;
	walk(scratch(), known, root);
	std::unique_ptr<World> w;
	std::unique_ptr<View> v;
	auto from = [&](const std::string &l) {
		c.log("< %s", q(l).c_str());
		record(M, *v, l, true);
		v->apply(l);
		srv->line(l);
		pump();
	};
	auto login = [&](const std::string &me) {
		w.reset(new World(cs, me));
		w->casevary = w->r.casemap == "ascii";
		v.reset(new View(w->r, me));
		from("NOTICE AUTH :*** Looking up your hostname");
		for (auto &l : w->welcome()) from(l);
	};
	login("me");
	PeerP cl = attach(n, "me");
	pump();
	srv->take();
	Strs texts = {"hello", "", "..", ".", "a/../../../../../../etc", "100% %n %@", "/", "g", std::string(300, 'x'), "\xff\xfe", "a,b", " spaced  out ", "../x", "\002bold\002"};
	auto check = [&] {
		Files got, all;
		walk(root, got, "");
		compare(c, M.files, got);
		walk(scratch(), all, root);
		for (auto &a : all) if (!known.count(a.first) && a.first.find("/linestack") == std::string::npos) fail(c, "outside", "%s was written", q(a.first).c_str());
	};
	while (!s.empty()) {
		Src o = s.block(16);
		uint32_t op = o.range(16);
		std::string me = v->users[v->me].nick;
		std::vector<int> mine;
		for (size_t i = 0; i < w->chans.size(); i++) if (w->in(i, 0)) mine.push_back(i);
		if (op < 7) {
			for (auto &l : w->step(o)) from(l);
			vtime += o.range(3) ? 0 : o.range(5000);
		} else if (op < 11) {            // said by others
			WUser &u = w->users[w->other(o)];
			std::string t = o.chance(1, 2) && !mine.empty() ? w->chans[mine[o.range(mine.size())]].name : me;
			std::string origin = o.chance(1, 8) ? w->srv : o.chance(1, 10) ? "stranger!s@h" : u.mask(), text = o.pick(texts);
			if (t == me && v->r.same(origin.substr(0, origin.find('!')), "stranger") && false) continue;
			switch (o.range(6)) {
			case 0: case 1: from(":" + origin + " PRIVMSG " + t + " :" + text); break;
			case 2: from(":" + origin + " NOTICE " + t + " :" + text); break;
			case 3: from(":" + origin + " PRIVMSG " + t + " :\001" + o.pick(Strs{"ACTION ", "action "}) + text + (o.chance(3, 4) ? "\001" : "")); break;
			case 4: from(":" + origin + " PRIVMSG " + t + " :\001" + o.pick(Strs{"VERSION", "PING 123", "DCC SEND f 1 2 3", "ACTIONS x"}) + "\001"); break;
			case 5: if (o.chance(1, 2)) from("PRIVMSG " + me + " :" + text); else if (t != me) from(":" + u.mask() + " TOPIC " + t + (o.chance(1, 3) ? "" : " :" + text)); break;
			}
		} else if (op < 14) {            // said by the user
			std::string t = o.chance(1, 2) && !mine.empty() ? w->chans[mine[o.range(mine.size())]].name : o.pick(Strs{"bob", "Al", "#else", "s/x"}), text = o.pick(texts);
			if (o.chance(1, 6)) t += o.pick(Strs{",bob", ",#z,#y/.."});
			std::string l;
			switch (o.range(6)) {
			case 0: case 1: case 2: l = "PRIVMSG " + t + " :" + text; break;
			case 3: l = "NOTICE " + t + " :" + text; break;
			case 4: l = "PRIVMSG " + t + " :\001ACTION " + text + "\001"; break;
			case 5: l = o.pick(Strs{"TOPIC #c :x", "MODE #c +i", "JOIN #q", "PART #q :x", "KICK #c bob", "NICK other"}); break;
			}
			c.log("client: %s", q(l).c_str());
			struct irc_client *ic = (struct irc_client *)n->clients->data;
			record(M, *v, std::string(":") + ic->state->me.hostmask + " " + l, false);
			cl->line(l);
			pump();
			srv->take(); cl->take();
		} else if (op == 14) {
			switch (o.range(4)) {
			case 0:
				if (!M.block.empty()) break;
				c.log("files moved away, then SIGHUP");
				if (!hup_fn) fail(c, "hup", "nothing is done at SIGHUP");
				check();
				if (rename(root.c_str(), (scratch() + "/old").c_str()) == 0) { std::string cmd = "rm -rf '" + scratch() + "/old'"; if (system(cmd.c_str())) abort(); }
				M.files.clear();
				hup_fn(hup_data);
				c.tag("hup");
				break;
			case 1: if (hup_fn) { c.log("SIGHUP"); hup_fn(hup_data); } break;
			case 2:              // nothing can be written for a while
				if (!M.block.empty()) {
					c.log("unblocked");
					unlink(M.block.c_str());
					M.block.clear();
				} else {
					Files got;
					walk(root, got, "");
					if (!got.empty()) break;
					std::string cmd = "rm -rf '" + root + "' && mkdir -p '" + root.substr(0, root.rfind('/')) + "'";
					if (system(cmd.c_str())) abort();
					c.log("blocked");
					M.block = root;
					write_file(root, "");
					c.tag("blocked");
				}
				break;
			case 3: {
				c.log("the server comes back");
				// leaving is part of what happened
				record(M, *v, std::string(":") + n->external_state->me.hostmask + " QUIT", false);
				srv->close();
				pump();
				srv = connect_server(n);
				pump();
				srv->take();
				login(n->external_state->me.nick);
				break;
			}
			}
		} else if (op == 15 && o.chance(1, 2)) check();
	}
	check();
	close_all_peers();
	if (M.files.size() > 1 && M.lines > 5 && M.several) c.nontrivial();
}

// More conversations than files that may be open at once.
static int fds() { int k = 0; for (int i = 0; i < 2000; i++) if (fcntl(i, F_GETFD) >= 0) k++; return k; }
static void many(Src &s, Ctx &c)
{
	Model M;
	Src cs = s.block(8);
	std::string root = scratch() + "/logs";
	start_global("[global]\nautosave=false\nreplication=none\nreport-time=never\nmotd-file=/nonexistent/motd\nlogging=irssi\nlogdir=" + root + "\n");
	M.net = "net";
	M.logfilename = root + "/%N/%@";
	for (size_t i = 0; i < KINDS.size(); i++) M.fmt[KINDS[i]] = IRSSI[i];
	struct network_config *nc = add_network_config("net", "me");
	PeerP srv;
	start_network(nc, srv);
	pump();
	World w(cs, "me");
	View v(w.r, "me");
	for (auto &l : w.welcome()) { record(M, v, l, true); v.apply(l); srv->line(l); }
	pump();
	int before = fds(), most = 0;
	uint32_t total = 0;
	while (!s.empty()) {
		Src o = s.block(6);
		uint32_t k = o.range(300), base = o.range(3) * 300;
		bool again = o.chance(1, 3);
		c.log("%u people talk, from number %u", k, base);
		for (uint32_t i = 0; i < k; i++) {
			std::string l = ":u" + std::to_string(base + i) + "!i@h PRIVMSG me :" + (again ? "again" : "hi");
			record(M, v, l, true);
			srv->line(l);
			if (i % 50 == 49) pump();
		}
		pump();
		total += k;
		if (o.chance(1, 3)) { vtime += 1000 + o.range(5000); }
		if (o.chance(1, 6) && hup_fn) hup_fn(hup_data);
		most = std::max(most, fds() - before);
		if (most > 320) fail(c, "open", "%d files are open", most);
	}
	Files got;
	walk(root, got, "");
	compare(c, M.files, got);
	close_all_peers();
	if (M.files.size() > 301) c.nontrivial();
	if (total > 900) c.tag("many");
}

Property the_property = {
	"P19",
	"history: several files, six lines and an event that belongs in more than one file; many: over 301 files",
	{"channels are spelled by the server in one way, but for the case of letters", "a change of the own nick is also logged under the own nick", "fixed time zone"},
	{
		{"history", history, 48, 16, 60, 4000, 60000, 1},
		{"many", many, 8, 6, 12, 60, 600, 1},
	}};
