// P18: what is configured is what is loaded, and what is saved is what is loaded next time.
#include "world.h"
#include "internals.h"
#include <optional>
#include <sys/resource.h>
#include <sys/stat.h>
#include <signal.h>
#include <dirent.h>

typedef std::optional<std::string> Opt;
typedef std::map<std::string, std::string> Dump;
static std::string show(const Opt &o) { return o ? q(*o) : "unset"; }
static Opt opt(const char *p) { return p ? Opt(p) : Opt(); }

// ---- the configuration in the abstract ----
struct MServer { std::string host, port; bool ssl; Opt pass, bind; };
struct MChan { Opt key; bool autojoin; };
struct MNet {
	std::string name, stored;           // current name, name of the section or file
	bool file = false, autoconnect = false, ignore = false;
	Opt nick, full, user, pass, bind;
	Strs autocmd;
	int queue = 0;
	long reconnect = -1;
	int type = 0;                       // TCP, virtual, program
	std::string what;
	std::vector<MServer> servers;
	std::map<std::string, MChan> chans;
};
struct MListener { Opt address; std::string port; Opt pass, network; std::vector<std::pair<std::string, Opt>> rules; bool def = false; };
struct MCfg {
	std::map<std::string, Opt> str;     // by key in [global]
	std::map<std::string, bool> flag;
	std::map<std::string, int> num;
	int report = 0;
	int log = 0;                        // none, irssi, custom
	std::map<std::string, Opt> logs;
	std::vector<MNet> nets;
	std::vector<MListener> listeners;
};
static const Strs STRS = {"admin-user", "default-client-charset", "replication", "default-fullname", "default-nick", "default-username", "auto-away-message", "auto-away-nick"};
static const Strs FLAGS = {"autosave", "admin-log", "learn-nickserv", "learn-network-name", "create-implicit", "auto-away-enable"};
static const Strs NUMS = {"max-who-age", "report-time-offset", "auto-away-client-limit", "auto-away-time"};
static const Strs LOGKEYS = {"nickchange", "topic", "notopic", "part", "join", "msg", "notice", "action", "kick", "quit", "mode"};
static const char *REPORT[] = {"always", "never", "replication"};
static bool flag_default(const std::string &k) { return k != "auto-away-enable"; }
static int num_default(const std::string &k) { return k[0] == 'a' ? -1 : 0; }

static std::string canon_port(const std::string &p, bool ssl) { return (!ssl && p == "ircd") ? "6667" : (ssl && p == "ircs") ? "994" : p; }

static Dump dump(const MCfg &m)
{
	Dump d;
	for (auto &k : STRS) { auto i = m.str.find(k); d[k] = show(i == m.str.end() ? Opt() : i->second); }
	{ auto i = m.str.find("password"); d["password"] = show(i == m.str.end() ? Opt() : i->second); }
	{ auto i = m.str.find("motd-file"); d["motd-file"] = show(i == m.str.end() || !i->second ? Opt("motd") : i->second); }
	for (auto &k : FLAGS) { auto i = m.flag.find(k); d[k] = (i == m.flag.end() ? flag_default(k) : i->second) ? "true" : "false"; }
	for (auto &k : NUMS) { auto i = m.num.find(k); d[k] = std::to_string(i == m.num.end() ? num_default(k) : i->second); }
	d["report-time"] = REPORT[m.report];
	d["logging"] = std::to_string(m.log);
	if (m.log) for (auto &i : m.logs) d["logging/" + i.first] = show(i.second);
	for (auto &n : m.nets) {
		std::string p = "network " + q(n.name) + "/";
		d[p + "nick"] = show(n.nick); d[p + "fullname"] = show(n.full); d[p + "username"] = show(n.user); d[p + "password"] = show(n.pass);
		std::string a;
		for (auto &x : n.autocmd) a += q(x) + ";";
		d[p + "autocmd"] = a;
		d[p + "queue-speed"] = std::to_string(n.queue);
		d[p + "reconnect-interval"] = std::to_string(n.reconnect);
		d[p + "autoconnect"] = n.autoconnect ? "true" : "false";
		d[p + "ignore_first_nick"] = n.ignore ? "true" : "false";
		d[p + "type"] = std::to_string(n.type) + " " + (n.type ? q(n.what) : "");
		if (!n.type) {
			d[p + "bind"] = show(n.bind);
			std::string s;
			for (auto &x : n.servers) s += q(x.host) + " " + canon_port(x.port, x.ssl) + (x.ssl ? " ssl " : " ") + show(x.pass) + " " + show(x.bind) + ";";
			d[p + "servers"] = s;
		}
		for (auto &x : n.chans) if (x.second.autojoin || x.second.key) d[p + "channel " + q(x.first)] = std::string(x.second.autojoin ? "autojoin " : "") + show(x.second.key);
	}
	for (auto &l : m.listeners) {
		std::string s = std::string(l.def ? "default " : "") + show(l.pass) + " " + show(l.network);
		for (auto &r : l.rules) s += " " + q(r.first) + "=" + show(r.second);
		d["listener " + show(l.address) + " " + l.port] = s;
	}
	return d;
}

static Dump dump(struct ctrlproxy_config *cfg, const Strs &skip = {})
{
	Dump d;
	d["admin-user"] = show(opt(cfg->admin_user)); d["default-client-charset"] = show(opt(cfg->client_charset)); d["replication"] = show(opt(cfg->replication));
	d["default-fullname"] = show(opt(cfg->default_realname)); d["default-nick"] = show(opt(cfg->default_nick)); d["default-username"] = show(opt(cfg->default_username));
	d["auto-away-message"] = show(opt(cfg->auto_away.message)); d["auto-away-nick"] = show(opt(cfg->auto_away.nick));
	d["password"] = show(opt(cfg->password));
	d["motd-file"] = show(opt(cfg->motd_file ? cfg->motd_file : "motd"));
	auto b = [](bool x) { return x ? "true" : "false"; };
	d["autosave"] = b(cfg->autosave); d["admin-log"] = b(cfg->admin_log); d["learn-nickserv"] = b(cfg->learn_nickserv); d["learn-network-name"] = b(cfg->learn_network_name);
	d["create-implicit"] = b(cfg->create_implicit); d["auto-away-enable"] = b(cfg->auto_away.enabled);
	d["max-who-age"] = std::to_string(cfg->cache.max_who_age); d["report-time-offset"] = std::to_string(cfg->report_time_offset);
	d["auto-away-client-limit"] = std::to_string(cfg->auto_away.client_limit); d["auto-away-time"] = std::to_string(cfg->auto_away.max_idle_time);
	d["report-time"] = REPORT[cfg->report_time];
	struct log_file_config *l = cfg->log_file;
	d["logging"] = !l ? "0" : l->is_irssi ? "1" : "2";
	if (l) {
		if (l->is_irssi) d["logging/logdir"] = l->logbasedir_is_default ? "unset" : show(opt(l->logbasedir));
		if (!l->is_irssi || !l->logbasedir) d["logging/logfilename"] = show(opt(l->logfilename));
		if (!l->is_irssi) {
			const char *f[] = {l->nickchange, l->topic, l->notopic, l->part, l->join, l->msg, l->notice, l->action, l->kick, l->quit, l->mode};
			for (size_t i = 0; i < LOGKEYS.size(); i++) d["logging/" + LOGKEYS[i]] = show(opt(f[i]));
		}
	}
	for (GList *gl = cfg->networks; gl; gl = gl->next) {
		struct network_config *n = (struct network_config *)gl->data;
		bool no = n->implicit;
		for (auto &x : skip) if (x == n->name) no = true;
		if (no) continue;
		std::string p = "network " + q(n->name) + "/";
		if (d.count(p + "nick")) d[p + "twice"] = "yes";
		d[p + "nick"] = show(opt(n->nick)); d[p + "fullname"] = show(opt(n->fullname)); d[p + "username"] = show(opt(n->username)); d[p + "password"] = show(opt(n->password));
		std::string a;
		for (char **x = n->autocmd; x && *x; x++) a += q(*x) + ";";
		d[p + "autocmd"] = a;
		d[p + "queue-speed"] = std::to_string(n->queue_speed);
		d[p + "reconnect-interval"] = std::to_string((long)(int)n->reconnect_interval);
		d[p + "autoconnect"] = b(n->autoconnect); d[p + "ignore_first_nick"] = b(n->ignore_first_nick);
		switch (n->type) {
		case network_config::NETWORK_TCP: {
			d[p + "type"] = "0 ";
			d[p + "bind"] = show(opt(n->type_settings.tcp.default_bind_address));
			std::string s;
			for (GList *g = n->type_settings.tcp.servers; g; g = g->next) {
				struct tcp_server_config *x = (struct tcp_server_config *)g->data;
				s += q(x->host) + " " + canon_port(x->port, x->ssl) + (x->ssl ? " ssl " : " ") + show(opt(x->password)) + " " + show(opt(x->bind_address)) + ";";
			}
			d[p + "servers"] = s;
			break;
		}
		case network_config::NETWORK_VIRTUAL: d[p + "type"] = "1 " + q(n->type_settings.virtual_name); break;
		case network_config::NETWORK_PROGRAM: d[p + "type"] = "2 " + q(n->type_settings.program_location); break;
		default: d[p + "type"] = "other";
		}
		for (GList *g = n->channels; g; g = g->next) {
			struct channel_config *x = (struct channel_config *)g->data;
			if (x->autojoin || x->key) d[p + "channel " + q(x->name)] = std::string(x->autojoin ? "autojoin " : "") + show(opt(x->key));
		}
	}
	for (GList *gl = cfg->listeners; gl; gl = gl->next) {
		struct listener_config *x = (struct listener_config *)gl->data;
		// the default listener has the general password unless it has one of its own
		std::string s = std::string(x->is_default ? "default " : "") + show(x->is_default && !x->allow_rules ? opt(cfg->password) : opt(x->password)) + " " + show(opt(x->network));
		for (GList *g = x->allow_rules; g; g = g->next) { struct allow_rule *r = (struct allow_rule *)g->data; s += " " + q(r->username) + "=" + show(opt(r->password)); }
		d["listener " + show(opt(x->address)) + " " + x->port] = s;
	}
	return d;
}

static void compare(Ctx &c, const char *when, const Dump &got, const Dump &want)
{
	for (auto &i : want) {
		auto j = got.find(i.first);
		if (j == got.end()) fail(c, "lost", "%s: %s is gone (was %s)", when, i.first.c_str(), i.second.c_str());
		if (j->second != i.second) fail(c, "changed", "%s: %s is %s, should be %s", when, i.first.c_str(), j->second.c_str(), i.second.c_str());
	}
	for (auto &j : got) if (!want.count(j.first)) fail(c, "invented", "%s: %s is %s, was not there", when, j.first.c_str(), j.second.c_str());
}

// ---- generators ----
static std::string value(Src &o)
{
	if (o.chance(2, 3)) return o.pick(Strs{"x", "me", "some words", "irc.test", "/tmp/x", "admin", "secret", "none", "simple", "UTF-8"});
	if (o.chance(1, 2)) return o.pick(Strs{"", " leading", "trailing ", "a;b", "a\\b", "\\n", "#x", "[x]", "k=v", "tab\there", "line\nbreak", "cr\r", "\xc3\xa9t\xc3\xa9", "\xe9t\xe9", "\xe9\\;\\s", ";", "\\", "\x01", "\"q\"", "%n %s", "true", "0"});
	std::string r;
	for (uint32_t k = o.range(10); k--;) { char ch = 1 + o.range(255); if (ch != '\f' && ch != '\v') r += ch; } // GLib takes these for blanks in front
	return r;
}
static Opt maybe(Src &o) { return o.chance(2, 3) ? Opt(value(o)) : Opt(); }
static const Strs NETNAMES = {"net", "OFTC", "a b", "irc.some.net", "\xc3\xa9", "x=y", "net2", "1", "listener2", "host:7000"};
static const Strs CHANS = {"#a", "#b c", "&loc", "+x", "!ABCDEx", "#\xe9", "#c;d", "##", "#k\\"};
static const Strs HOSTS = {"irc.test", "h2", "10.0.0.1", "::1", "fe80::1:2"};
static const Strs PORTS = {"6667", "994", "7000", "ircd", "ircs", "6697", "9944", "66670", "16667", "994x", "99", "ircsx", "1"};

static MServer server(Src &o)
{
	MServer s{o.pick(HOSTS), o.pick(PORTS), o.chance(1, 4), {}, {}};
	if (o.chance(1, 3)) s.pass = value(o);
	if (o.chance(1, 4)) s.bind = o.pick(Strs{"127.0.0.1", "::1", "x"});
	return s;
}
// A URL has one section in a file, whoever uses it.
static bool same_url(const MServer &a, const MServer &b) { return a.host == b.host && canon_port(a.port, a.ssl) == canon_port(b.port, b.ssl) && a.ssl == b.ssl; }
static void align(MCfg &m)
{
	std::vector<MServer *> seen;
	for (auto &n : m.nets) {
		std::vector<MServer *> local;
		auto &v = n.file ? local : seen;
		for (auto &s : n.servers) {
			for (auto p : v) if (same_url(*p, s)) { s.pass = p->pass; s.bind = p->bind; }
			v.push_back(&s);
		}
	}
}
static void fill_net(Src &o, MNet &n)
{
	if (o.chance(1, 2)) n.nick = maybe(o);
	if (o.chance(1, 3)) n.full = maybe(o);
	if (o.chance(1, 3)) n.user = maybe(o);
	if (o.chance(1, 4)) n.pass = value(o);
	for (uint32_t k = o.chance(1, 3) ? o.range(4) : 0; k--;) { std::string v = value(o); if (!v.empty()) n.autocmd.push_back(v); }
	if (o.chance(1, 4)) n.queue = 1 + o.range(1000);
	if (o.chance(1, 4)) n.reconnect = o.range(1000);
	n.autoconnect = o.chance(1, 2);
	n.type = o.chance(1, 4) ? 1 + o.range(2) : 0;
	if (n.type) { n.what = o.pick(Strs{"admin", "/bin/bitlbee -I", "x;y"}); }
	else {
		if (o.chance(1, 4)) n.bind = value(o);
		for (uint32_t k = o.range(3); k--;) n.servers.push_back(server(o));
	}
	for (uint32_t k = o.range(4); k--;) { MChan ch{{}, o.chance(1, 2)}; if (o.chance(1, 2)) { std::string v; for (char x : value(o)) if (x != '\t' && x != '\n') v += x; ch.key = v; } n.chans[o.pick(CHANS)] = ch; }
}

// ---- writing a configuration the way a user does ----
static std::string esc(const std::string &s, bool list = false)
{
	std::string r;
	for (size_t i = 0; i < s.size(); i++) {
		char ch = s[i];
		if (ch == '\\') r += "\\\\";
		else if (ch == '\n') r += "\\n";
		else if (ch == '\t') r += "\\t";
		else if (ch == '\r') r += "\\r";
		else if (ch == ' ' && i == 0) r += "\\s";
		else if (ch == ';' && list) r += "\\;";
		else r += ch;
	}
	return r;
}
static std::string kv(const std::string &k, const std::string &v) { return k + "=" + esc(v) + "\n"; }
static std::string kvo(const std::string &k, const Opt &v) { return v ? kv(k, *v) : ""; }
static std::string url(const MServer &s) { return std::string(s.ssl ? "ircs://" : "irc://") + s.host + ":" + s.port; }
static std::string net_text(const MNet &n, const std::string &group, std::set<std::string> &urls)
{
	std::string t = "[" + group + "]\n", u;
	t += kvo("nick", n.nick) + kvo("fullname", n.full) + kvo("username", n.user) + kvo("password", n.pass);
	if (!n.autocmd.empty()) { t += "autocmd="; for (auto &x : n.autocmd) t += esc(x, true) + ";"; t += "\n"; }
	if (n.queue) t += "queue-speed=" + std::to_string(n.queue) + "\n";
	if (n.reconnect != -1) t += "reconnect-interval=" + std::to_string(n.reconnect) + "\n";
	if (n.ignore) t += "ignore_first_nick=true\n";
	if (n.type == 1) t += kv("virtual", n.what);
	if (n.type == 2) t += kv("program", n.what);
	if (!n.type) {
		t += kvo("bind", n.bind) + "servers=";
		for (auto &s : n.servers) {
			t += url(s) + ";";
			if ((s.pass || s.bind) && urls.insert(url(s)).second) u += "[" + url(s) + "]\n" + kvo("password", s.pass) + kvo("bind", s.bind);
		}
		t += "\n";
	}
	std::string aj;
	for (auto &x : n.chans) if (x.second.autojoin) aj += esc(x.first, true) + ";";
	if (!aj.empty()) t += "autojoin=" + aj + "\n";
	return t + u;
}
static void write_config(const std::string &dir, const MCfg &m, Src &o)
{
	std::string t = "# a comment\n[global]\n", rest, keys = "; keys\n";
	for (auto &i : m.str) t += kvo(i.first, i.second);
	for (auto &i : m.flag) t += i.first + "=" + (i.second ? "true" : "false") + "\n";
	for (auto &i : m.num) t += (i.first == "max-who-age" && o.chance(1, 3) ? "max_who_age" : i.first) + "=" + std::to_string(i.second) + "\n";
	t += std::string("report-time=") + (m.report == 1 && o.chance(1, 3) ? "False" : REPORT[m.report]) + "\n";
	if (m.log == 1) {
		t += "logging=irssi\n";
		if (m.logs.count("logdir") && m.logs.at("logdir")) t += kvo("logdir", m.logs.at("logdir"));
		if (m.logs.count("logfilename")) t += kvo("logfile", m.logs.at("logfilename"));
	} else if (m.log == 2) {
		bool old = o.chance(1, 3);
		std::string x;
		for (auto &i : m.logs) x += kvo(i.first == "logfilename" || old ? i.first : "log-format-" + i.first, i.second);
		if (old) rest += "[log-custom]\n" + x;
		else t += "logging=custom\n" + x;
	} else if (o.chance(1, 2)) t += "logging=none\n";
	for (auto &l : m.listeners) if (!l.rules.empty()) {
		rest += "[socks]\n" + kv("port", l.port) + kvo("bind", l.address) + kvo("password", l.pass) + kvo("default-network", l.network) + "allow=";
		for (auto &r : l.rules) rest += esc(r.first + (r.second ? ":" + *r.second : ""), true) + ";";
		rest += "\n";
	} else if (l.def) t += kv("port", l.port) + kvo("bind", l.address) + kvo("default-network", l.network);
	std::string lt, ac;
	for (auto &l : m.listeners) if (!l.def && l.rules.empty()) lt += "[" + (l.address ? *l.address + ":" : "") + l.port + "]\n" + kvo("password", l.pass) + kvo("network", l.network);
	if (!lt.empty()) write_file(dir + "/listener", lt);
	std::set<std::string> urls;
	for (auto &n : m.nets) {
		if (n.autoconnect) ac += esc(n.name, true) + ";";
		for (auto &x : n.chans) if (x.second.key) keys += x.first + "\t" + *x.second.key + "\t" + n.name + "\n";
		if (n.file) { mkdir((dir + "/networks").c_str(), 0700); std::set<std::string> u; write_file(dir + "/networks/" + n.stored, net_text(n, "global", u)); }
		else rest += net_text(n, n.stored, urls);
	}
	if (!ac.empty()) t += "autoconnect=" + ac + "\n";
	if (o.chance(1, 3)) t += "some-plugin-setting=kept\n";
	write_file(dir + "/config", t + rest);
	write_file(dir + "/keys", keys);
}

static void gen(Src &h, MCfg &m)
{
	for (auto &k : STRS) if (h.chance(1, 3)) m.str[k] = value(h);
	if (h.chance(1, 2)) m.str["password"] = value(h);
	if (h.chance(1, 4)) m.str["motd-file"] = value(h);
	for (auto &k : FLAGS) if (h.chance(1, 3)) m.flag[k] = h.chance(1, 2);
	for (auto &k : NUMS) if (h.chance(1, 3)) m.num[k] = (int)h.range(500) - 1;
	m.report = h.range(3);
	m.log = h.range(3);
	if (m.log == 1) { m.logs["logdir"] = {}; switch (h.range(3)) { case 1: m.logs["logdir"] = value(h); break; case 2: m.logs["logfilename"] = value(h); m.logs["logdir"] = {}; break; } }
	if (m.log == 2) { m.logs["logfilename"] = maybe(h); for (auto &k : LOGKEYS) m.logs[k] = h.chance(1, 2) ? Opt(value(h)) : Opt(); }
	if (h.chance(2, 3)) { MListener l; l.def = true; l.port = h.pick(Strs{"57000", "6668"}); if (h.chance(1, 3)) l.address = value(h); if (h.chance(1, 3)) l.network = value(h); m.listeners.push_back(l); }
	for (uint32_t k = h.range(3); k--;) { MListener l; l.port = std::to_string(7000 + m.listeners.size()); if (h.chance(1, 2)) l.address = h.pick(Strs{"127.0.0.1", "localhost", "::1"}); if (h.chance(1, 2)) l.pass = value(h); if (h.chance(1, 3)) l.network = value(h); m.listeners.push_back(l); }
	if (h.chance(1, 3)) {
		MListener l;
		l.port = "1080";
		l.def = m.listeners.empty() || !m.listeners[0].def;
		for (uint32_t k = 1 + h.range(3); k--;) { std::string u = h.pick(Strs{"u", "joe", "x y"}); l.rules.push_back({u, h.chance(3, 4) ? Opt(value(h)) : Opt()}); }
		m.listeners.push_back(l);
	}
}

static std::string lc(const std::string &s) { std::string r = s; for (auto &x : r) x = g_ascii_tolower(x); return r; }
static MNet *find(MCfg &m, const std::string &n) { for (auto &x : m.nets) if (lc(x.name) == lc(n)) return &x; return NULL; }
static struct network_config *find(struct ctrlproxy_config *cfg, const std::string &n)
{
	for (GList *g = cfg->networks; g; g = g->next) if (!g_ascii_strcasecmp(((struct network_config *)g->data)->name, n.c_str())) return (struct network_config *)g->data;
	return NULL;
}
static char *dup(const Opt &o) { return o ? g_strdup(o->c_str()) : NULL; }
static void put(char *&p, const Opt &o) { g_free(p); p = dup(o); }
static GList *add_server(GList *l, const MServer &s)
{
	struct tcp_server_config *t = g_new0(struct tcp_server_config, 1);
	t->host = g_strdup(s.host.c_str()); t->port = g_strdup(s.port.c_str()); t->ssl = s.ssl; t->password = dup(s.pass); t->bind_address = dup(s.bind);
	return g_list_append(l, t);
}

static void apply_net(struct network_config *n, const MNet &m)
{
	put(n->nick, m.nick); put(n->fullname, m.full); put(n->username, m.user); put(n->password, m.pass);
	g_strfreev(n->autocmd);
	n->autocmd = m.autocmd.empty() ? NULL : g_new0(char *, m.autocmd.size() + 1);
	for (size_t i = 0; i < m.autocmd.size(); i++) n->autocmd[i] = g_strdup(m.autocmd[i].c_str());
	n->queue_speed = m.queue; n->reconnect_interval = m.reconnect; n->autoconnect = m.autoconnect ? -1 : 0;
	if (n->type == network_config::NETWORK_TCP) {
		put(n->type_settings.tcp.default_bind_address, m.bind);
		n->type_settings.tcp.servers = NULL;
		for (auto &s : m.servers) n->type_settings.tcp.servers = add_server(n->type_settings.tcp.servers, s);
	}
	n->channels = NULL;
	for (auto &x : m.chans) { struct channel_config *ch = g_new0(struct channel_config, 1); ch->name = g_strdup(x.first.c_str()); ch->key = dup(x.second.key); ch->autojoin = x.second.autojoin; n->channels = g_list_append(n->channels, ch); }
}

static void edit(Src &o, Ctx &c, MCfg &m, struct ctrlproxy_config *cfg)
{
	switch (o.range(8)) {
	case 0: case 1: {
		Strs ks = STRS; ks.push_back("password"); ks.push_back("motd-file");
		std::string k = o.pick(ks);
		Opt v = maybe(o);
		m.str[k] = v;
		c.log("set %s %s", k.c_str(), show(v).c_str());
		if (k == "admin-user") put(cfg->admin_user, v);
		if (k == "default-client-charset") put(cfg->client_charset, v);
		if (k == "replication") put(cfg->replication, v);
		if (k == "default-fullname") put(cfg->default_realname, v);
		if (k == "default-nick") put(cfg->default_nick, v);
		if (k == "default-username") put(cfg->default_username, v);
		if (k == "auto-away-message") put(cfg->auto_away.message, v);
		if (k == "auto-away-nick") put(cfg->auto_away.nick, v);
		if (k == "motd-file") put(cfg->motd_file, v);
		if (k == "password") {
			put(cfg->password, v);
			for (GList *g = cfg->listeners; g; g = g->next) { struct listener_config *l = (struct listener_config *)g->data; if (l->is_default && !l->allow_rules) put(l->password, v); }
			for (auto &l : m.listeners) if (l.def && l.rules.empty()) l.pass = v;
		}
		return;
	}
	case 2: {
		std::string k = o.pick(FLAGS);
		bool v = o.chance(1, 2);
		m.flag[k] = v;
		c.log("set %s %d", k.c_str(), v);
		(k == "autosave" ? cfg->autosave : k == "admin-log" ? cfg->admin_log : k == "learn-nickserv" ? cfg->learn_nickserv : k == "learn-network-name" ? cfg->learn_network_name : k == "create-implicit" ? cfg->create_implicit : cfg->auto_away.enabled) = v;
		return;
	}
	case 3: {
		std::string k = o.pick(NUMS);
		int v = o.chance(1, 3) ? num_default(k) : (int)o.range(5000);
		m.num[k] = v;
		c.log("set %s %d", k.c_str(), v);
		if (k == "max-who-age") cfg->cache.max_who_age = v;
		if (k == "report-time-offset") cfg->report_time_offset = v;
		if (k == "auto-away-client-limit") cfg->auto_away.client_limit = v;
		if (k == "auto-away-time") cfg->auto_away.max_idle_time = v;
		m.report = o.range(3);
		cfg->report_time = (decltype(cfg->report_time))m.report;
		return;
	}
	case 4: {
		std::string name = o.pick(NETNAMES);
		MNet *n = find(m, name);
		if (n) {
			c.log("delete network %s", q(n->name).c_str());
			config_del_network(cfg, n->name.c_str());
			m.nets.erase(m.nets.begin() + (n - &m.nets[0]));
		} else {
			MNet x;
			x.name = x.stored = name;
			fill_net(o, x);
			if (x.type == 2) x.type = 0; // TCP is what can be added while running
			if (x.type == 1) x.type = 0;
			x.ignore = false;
			m.nets.push_back(x);
			align(m);
			struct network_config *nc = network_config_init(cfg);
			nc->name = g_strdup(name.c_str());
			for (auto &y : m.nets) apply_net(find(cfg, y.name), y);
			c.log("add network %s", q(name).c_str());
		}
		return;
	}
	case 5: {
		if (m.nets.empty()) return;
		MNet &n = m.nets[o.range(m.nets.size())];
		std::string to = o.pick(NETNAMES);
		if (find(m, to)) {
			// exchange the names
			MNet *p = find(m, to);
			if (p == &n) return;
			struct network_config *a = find(cfg, n.name), *b = find(cfg, p->name);
			std::swap(a->name, b->name);
			std::swap(n.name, p->name);
			c.log("exchange the names of %s and %s", q(n.name).c_str(), q(p->name).c_str());
			return;
		}
		c.log("rename %s to %s", q(n.name).c_str(), q(to).c_str());
		struct network_config *a = find(cfg, n.name);
		put(a->name, to);
		n.name = to;
		return;
	}
	case 6: {
		if (m.nets.empty()) return;
		MNet &n = m.nets[o.range(m.nets.size())];
		MNet x;
		fill_net(o, x);
		x.name = n.name; x.stored = n.stored; x.file = n.file; x.type = n.type; x.what = n.what; x.ignore = n.ignore;
		if (x.type) { x.servers.clear(); x.bind = {}; }
		n = x;
		align(m);
		c.log("change network %s", q(n.name).c_str());
		for (auto &y : m.nets) apply_net(find(cfg, y.name), y);
		return;
	}
	case 7: {
		for (GList *g = cfg->listeners; g; g = g->next) {
			struct listener_config *l = (struct listener_config *)g->data;
			if (!l->is_default) continue;
			for (auto &x : m.listeners) if (x.def) {
				x.address = maybe(o); x.network = maybe(o); x.port = o.pick(Strs{"57000", "6668", "ircd"});
				put(l->address, x.address); put(l->network, x.network); put(l->port, x.port);
				c.log("default listener %s %s network %s", show(x.address).c_str(), x.port.c_str(), show(x.network).c_str());
			}
		}
	}
	}
}

static void settle(MCfg &m)
{
	for (auto &l : m.listeners) if (l.def && l.rules.empty()) l.pass = m.str.count("password") ? m.str["password"] : Opt();
	for (auto &n : m.nets) for (auto i = n.chans.begin(); i != n.chans.end();) if (!i->second.autojoin && !i->second.key) i = n.chans.erase(i); else ++i;
}

static std::map<std::string, std::string> files(const std::string &d, const std::string &pre = "")
{
	std::map<std::string, std::string> r;
	DIR *dir = opendir(d.c_str());
	if (!dir) return r;
	while (struct dirent *e = readdir(dir)) {
		if (e->d_name[0] == '.') continue;
		std::string p = d + "/" + e->d_name;
		struct stat st;
		if (stat(p.c_str(), &st)) continue;
		if (S_ISDIR(st.st_mode)) { for (auto &x : files(p, pre + e->d_name + "/")) r.insert(x); }
		else r[pre + e->d_name] = slurp(p);
	}
	closedir(dir);
	return r;
}

static void history(Src &s, Ctx &c, bool faults)
{
	Src h = s.block(300);
	MCfg m;
	gen(h, m);
	for (uint32_t k = h.range(4); k--;) {
		MNet n;
		n.name = h.pick(NETNAMES);
		if (find(m, n.name)) continue;
		n.stored = n.name;
		n.file = h.chance(1, 2) && n.name.find(':') == std::string::npos;
		n.ignore = h.chance(1, 6);
		fill_net(h, n);
		m.nets.push_back(n);
	}
	align(m);
	std::string dir = scratch() + "/cfg";
	mkdir(dir.c_str(), 0700);
	write_config(dir, m, h);
	settle(m);
	for (auto &f : files(dir)) c.log("%s:\n%s", f.first.c_str(), f.second.c_str());
	struct ctrlproxy_config *cfg = load_configuration(dir.c_str(), TRUE);
	if (!cfg) fail(c, "load", "the configuration could not be loaded");
	compare(c, "as loaded", dump(cfg), dump(m));
	int saves = 0, edits = 0, cut = 0;
	while (!s.empty()) {
		Src o = s.block(40);
		if (!o.chance(1, 4)) { edit(o, c, m, cfg); settle(m); edits++; continue; }
		compare(c, "changed", dump(cfg), dump(m));
		if (faults) {
			auto before = files(dir);
			struct rlimit old, now;
			getrlimit(RLIMIT_FSIZE, &old);
			now = old;
			now.rlim_cur = o.range(1500);
			signal(SIGXFSZ, SIG_IGN);
			setrlimit(RLIMIT_FSIZE, &now);
			save_configuration(cfg, dir.c_str());
			setrlimit(RLIMIT_FSIZE, &old);
			auto mid = files(dir);
			save_configuration(cfg, dir.c_str());
			auto after = files(dir);
			for (auto &f : mid) {
				if (!before.count(f.first) && !after.count(f.first)) fail(c, "rest", "a failed save leaves %s", f.first.c_str());
				if (before.count(f.first) && before[f.first] == f.second) continue;
				if (after.count(f.first) && after[f.first] == f.second) continue;
				fail(c, "torn", "a save that failed after %ld bytes leaves %s with neither what was nor what should be in it:\n%s", (long)now.rlim_cur, f.first.c_str(), f.second.c_str());
			}
			for (auto &f : before) if (!mid.count(f.first) && after.count(f.first)) fail(c, "torn", "a save that failed loses %s", f.first.c_str());
			if (mid != before && mid != after) cut++;
			if (mid == before && before != after) cut++;
		} else save_configuration(cfg, dir.c_str());
		saves++;
		if (o.chance(1, 2)) {
			free_config(cfg);
			cfg = load_configuration(dir.c_str(), TRUE);
			if (!cfg) fail(c, "load", "the saved configuration could not be loaded");
			c.log("saved and loaded");
			compare(c, "loaded again", dump(cfg), dump(m));
		} else c.log("saved");
	}
	save_configuration(cfg, dir.c_str());
	struct ctrlproxy_config *again = load_configuration(dir.c_str(), TRUE);
	if (!again) fail(c, "load", "the saved configuration could not be loaded");
	compare(c, "loaded at the end", dump(again), dump(m));
	if (slurp(dir + "/config").find("# a comment") == std::string::npos) fail(c, "comment", "the user's comment is gone");
	if (edits >= 3 && saves && (!faults || cut)) c.nontrivial();
	if (cut) c.tag("save cut off");
}
static void roundtrip(Src &s, Ctx &c) { history(s, c, false); }
static void fault(Src &s, Ctx &c) { history(s, c, true); }

// Any files at all: nothing wild happens, and saving what was made of them is stable.
static void any(Src &s, Ctx &c)
{
	std::string dir = scratch() + "/cfg", t[3];
	mkdir(dir.c_str(), 0700);
	mkdir((dir + "/networks").c_str(), 0700);
	size_t n = 0;
	std::set<std::string> had;          // a setting given twice is not judged
	std::string group[3] = {"global", "99", "global"};
	while (!s.empty()) {
		Src o = s.block(16);
		size_t w = o.chance(1, 4) ? 1 + o.range(2) : 0;
		std::string &f = t[w];
		static const Strs GROUPS = {"global", "net", "#chan", "irc://irc.test:6667", "socks", "auto-away", "log-custom", "log-irssi", "admin", "client", "listener", "127.0.0.1:99", ":1", "", "x]y"};
		static const Strs KEYS = {"autosave", "auto-away-time", "client-charset", "charset", "max_who_age", "replication", "report-time", "report-time-offset", "motd-file", "admin-log", "admin-user", "without_privmsg", "log", "password", "default-nick", "listener-auto", "listener-autoport", "logging", "logfile", "logdir", "port", "bind", "default-network", "autoconnect", "servers", "nick", "fullname", "username", "autojoin", "autocmd", "queue-speed", "reconnect-interval", "virtual", "program", "allow", "time", "only_noclient", "client_limit", "message", "key", "auth", "log-format-msg", "logfilename", "default-fullname", "default-username", "network", "match"};
		static const Strs VALUES = {"", "true", "false", "1", "-1", "net", "irc://irc.test:6667", "irc://", "ircs://x/", "http://x", "irssi", "custom", "none", "always", "a;b;c", "99999999999", "\xe9", "\\x", "x:y;z:;:", "irc://[::1]:1", ":::", "300 # in seconds", ";", "#a;#b", "irc.test", "irc.test:7000"};
		switch (o.range(8)) {
		case 0: group[w] = o.pick(GROUPS); f += "[" + group[w] + "]\n"; break;
		case 1: if (o.chance(1, 8)) { f += gen_text(o, 12) + "\n"; break; } // fall through
		default: { std::string k = o.pick(KEYS); if (had.insert(std::to_string(w) + group[w] + "/" + k).second) { f += k + "=" + o.pick(VALUES) + "\n"; n++; } break; }
		case 2: if (o.chance(1, 3)) f += "# comment\n"; break;
		}
	}
	bool bare = t[0].empty() || (t[0][0] == '[' && n % 2);      // no [global] at all, perhaps
	write_file(dir + "/config", (bare ? "" : "[global]\n") + t[0]);
	if (!t[1].empty()) write_file(dir + "/listener", "[99]\n" + t[1]);
	if (!t[2].empty()) write_file(dir + "/networks/file", "[global]\n" + t[2]);
	for (auto &f : files(dir)) c.log("%s:\n%s", f.first.c_str(), f.second.c_str());
	auto before = files(dir);
	struct ctrlproxy_config *cfg = load_configuration(dir.c_str(), TRUE);
	if (!cfg) { c.tag("refused"); return; }
	save_configuration(cfg, dir.c_str());
	for (auto &f : before) if (f.first.compare(0, 9, "networks/") == 0 && !files(dir).count(f.first)) fail(c, "lost", "%s is gone", f.first.c_str());
	struct ctrlproxy_config *b = load_configuration(dir.c_str(), TRUE);
	if (!b) fail(c, "load", "what was saved can not be loaded");
	Dump d = dump(b);
	save_configuration(b, dir.c_str());
	struct ctrlproxy_config *e = load_configuration(dir.c_str(), TRUE);
	if (!e) fail(c, "load", "what was saved can not be loaded");
	compare(c, "loaded once more", dump(e), d);
	free_config(cfg);
	free_config(b);
	if (n >= 4) c.nontrivial();
}

// URLs of servers.
static void urls(Src &o, Ctx &c)
{
	static const Strs HS = {"h", "irc.test", "10.0.0.1", "::1", "fe80::1:2:3", "a-b.c", "x_y", "[", "::ffff:1.2.3.4"};
	std::string host = o.pick(HS), port = o.chance(2, 3) ? o.pick(PORTS) : std::to_string(o.range(65536));
	bool ssl = o.chance(1, 2);
	if (host == "[") host = "h[";
	char *u = irc_create_url(host.c_str(), port.c_str(), ssl), *h2 = NULL, *p2 = NULL;
	gboolean s2;
	c.log("%s %s %d: %s", host.c_str(), port.c_str(), ssl, u);
	for (std::string t : {std::string(u), std::string(u) + "/", std::string(u) + "/x:1/y"}) {
		if (!irc_parse_url(t.c_str(), &h2, &p2, &s2)) fail(c, "url", "%s is refused", t.c_str());
		if (host != h2 || canon_port(port, ssl) != canon_port(p2, ssl) || !!s2 != ssl) fail(c, "url", "%s is taken for host %s port %s ssl %d, should be %s %s %d", t.c_str(), h2, p2, s2, host.c_str(), port.c_str(), ssl);
	}
	std::string br = std::string(ssl ? "ircs" : "irc") + "://[" + host + "]:" + port;
	if (host.find(':') != std::string::npos) {
		if (!irc_parse_url(br.c_str(), &h2, &p2, &s2) || host != h2 || port != p2 || !!s2 != ssl) fail(c, "url", "%s is taken for host %s port %s", br.c_str(), h2, p2);
	}
	if (port != "6667") c.nontrivial();
}

Property the_property = {
	"P18",
	"histories: at least three changes and one save (with faults: one that was really cut off); any: at least four settings; urls: a port other than the usual",
	{"one section per server URL: servers of the same URL in one file have the same password and address", "SSL listeners are left out (they make certificates)"},
	{
		{"roundtrip", roundtrip, 300, 40, 24, 4000, 40000, 20},
		{"fault", fault, 300, 40, 16, 2000, 20000, 20},
		{"any", any, 0, 16, 30, 6000, 60000, 20},
		{"urls", urls, 8, 1, 1, 4000, 20000, 100},
	}};
