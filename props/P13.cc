// P13: only who knows the password gets a session, and gets the one asked for.
#include "world.h"
extern "C" {
#include "listener.h"
}

struct Auth {                       // who may get in, from the configuration alone
	bool has_global = false, has_listener = false;
	std::string global, listener;
	std::vector<std::pair<std::string, std::string>> rules;
	bool ok(bool has_user, const std::string &user, const std::string &pass) const {
		if (has_user) for (auto &r : rules) if (r.first == user && r.second == pass) return true;
		if (has_listener) return pass == listener;
		if (has_global) return pass == global;
		return true;
	}
};

struct Conn {
	PeerP p;
	int id;
	std::string bytes;              // all that it will send
	size_t sent = 0;
	Strs want;                      // codes of the lines it must get
	std::string raw;                // the bytes it must get before them
	std::string net;                // the network it ends up on
	bool closed = false;            // the proxy must close it
	bool left = false;              // it left early
	bool socks = false;
	std::string what;
};

struct Rig { Auth au; std::string dflt; std::map<std::string, struct irc_network *> nets; };

// login lines of a client whose network is net ("" none)
static void session(Src &o, Conn &k, const std::string &net)
{
	bool user_first = o.chance(1, 3);
	std::string n = "NICK cl" + std::to_string(k.id) + "\r\n", u = "USER u 0 * :Real Name\r\n", cur = net;
	if (o.chance(1, 6)) { k.bytes += "PRIVMSG bob :hi\r\n"; k.want.push_back("451"); }
	if (o.chance(1, 8)) {
		std::string to = o.pick(Strs{"other", "net", "nosuch", "OTHER"});
		k.bytes += "CONNECT " + to + "\r\n";
		cur = to == "nosuch" ? "" : lower_ascii(to);
	}
	k.bytes += user_first ? u + n : n + u;
	if (cur.empty()) { k.want.push_back("ERROR"); k.closed = true; return; }
	k.net = cur;
	k.want.push_back("001");
}

static std::string guess(Src &o, const std::string &right, bool ok)
{
	if (ok) return right;
	switch (o.range(8)) {
	case 0: return "";
	case 1: return right + "x";
	case 2: return right.substr(0, right.size() / 2);
	case 3: { std::string r = right; for (auto &c : r) c ^= isalpha((unsigned char)c) ? 32 : 0; return r; }
	case 4: return "wrong";
	case 5: return "net";
	case 6: return right + right;
	default: return "%s%n";
	}
}

static std::string some_secret(Src &o, Rig &r)
{
	Strs s = {"secret"};
	if (r.au.has_global) s.push_back(r.au.global);
	if (r.au.has_listener) s.push_back(r.au.listener);
	for (auto &x : r.au.rules) s.push_back(x.second);
	return s[o.range(s.size())];
}

static void irc(Src &o, Conn &k, Rig &r)
{
	for (uint32_t n = o.range(4); n--;) {
		switch (o.range(9)) {
		case 0: k.bytes += "NICK cl\r\n"; k.want.push_back("451"); break;
		case 1: k.bytes += "USER a b c :d\r\n"; k.want.push_back("451"); break;
		case 2: k.bytes += o.pick(Strs{"JOIN #x", "CONNECT net", "CTRLPROXY HELP", "\xc3\xa9\xff", "QUIT", "CAP LS 302"}) + "\r\n"; k.want.push_back("451"); break;
		case 3: k.bytes += "PASS\r\n"; k.want.push_back("461"); break;
		case 4: k.bytes += "PING x\r\n"; k.want.push_back("451"); break;
		case 5: k.bytes += "FOO " + std::string(o.range(900), 'y') + "\r\n"; k.want.push_back("451"); break;
		default: {
			std::string pw = guess(o, some_secret(o, r), o.chance(1, 3));
			if (r.au.ok(false, "", pw)) break;
			k.bytes += "PASS " + std::string(pw.empty() || pw.find(32) != std::string::npos || o.chance(1, 3) ? ":" : "") + pw + (o.chance(1, 3) ? ":" + o.pick(Strs{"net", "other", "nosuch"}) : "") + "\r\n";
			k.want.push_back("464");
		}
		}
	}
	if (o.chance(1, 6)) { k.what = "gives up"; return; }
	std::string pw = some_secret(o, r);
	std::string net = r.dflt, sel;
	uint32_t w = o.range(6);
	if (w == 1) sel = "net"; else if (w == 2) sel = "other"; else if (w == 3) sel = "nosuch"; else if (w == 4) sel = "NET";
	std::string a = pw;
	if (w && w < 5) { a += ":" + sel; net = lower_ascii(sel); }
	bool extra = a.find(32) == std::string::npos && !a.empty() && a[0] != ':' && o.chance(1, 8);
	k.bytes += (o.chance(1, 10) ? ":x!y@z " : "") + std::string(o.chance(1, 8) ? "pass" : "PASS") + " " + ((a.empty() || a[0] == ':' || a.find(32) != std::string::npos || (!extra && o.chance(1, 3))) ? ":" : "") + a + (extra ? " more" : "") + (o.chance(1, 8) ? "\n" : "\r\n");
	if (!r.au.ok(false, "", pw)) { k.want.push_back("464"); k.what = "wrong password"; if (o.chance(1, 2)) { k.bytes += "NICK a\r\nUSER a b c d\r\n"; k.want.push_back("451"); k.want.push_back("451"); } return; }
	if (net == "nosuch") { k.want.push_back("464"); k.closed = true; k.what = "unknown network"; return; }
	k.want.push_back("NOTICE");
	k.what = "logs in";
	session(o, k, net);
}

static void socks(Src &o, Conn &k, Rig &r)
{
	k.socks = true;
	auto put = [&](std::string b) { k.bytes += b; };
	auto byte = [](int b) { return std::string(1, (char)b); };
	std::string ms;
	for (uint32_t n = o.range(o.chance(1, 10) ? 256 : 5); n--;) ms += byte(o.pick(std::vector<int>{0, 2, 3, 5, 255, 1, 128}));
	if (o.chance(5, 6)) ms.insert(o.range(ms.size() + 1), byte(2));
	if (ms.size() > 255) ms.resize(255);
	put(byte(5) + byte(ms.size()) + ms);
	bool pass = ms.find(byte(2)) != std::string::npos;
	k.raw += byte(5) + byte(pass ? 2 : 255);
	if (!pass) { k.closed = true; k.what = "no method"; return; }
	std::string user = "u", pw = some_secret(o, r);
	if (!r.au.rules.empty() && o.chance(1, 2)) { auto &x = r.au.rules[o.range(r.au.rules.size())]; user = x.first; pw = x.second; }
	if (o.chance(1, 4)) pw = guess(o, pw, false);
	if (o.chance(1, 6)) user = guess(o, user, false);
	if (o.chance(1, 12)) user = std::string(o.range(256), 'U');
	if (o.chance(1, 20)) pw = std::string(o.range(256), 'P');
	if (o.chance(1, 16)) {
		put(byte(o.pick(std::vector<int>{0, 2, 4, 80})) + byte(1));
		k.raw += byte(5) + byte(1) + byte(0) + byte(3) + byte(0) + byte(0) + byte(0);
		k.closed = true; k.what = "wrong version"; return;
	}
	put(byte(o.chance(1, 4) ? 5 : 1) + byte(user.size()) + user + byte(pw.size()) + pw);
	bool ok = r.au.ok(true, user, pw);
	k.raw += byte(1) + byte(ok ? 0 : 1);
	if (!ok) { k.closed = true; k.what = "socks: refused"; return; }
	uint32_t w = o.range(12);
	int err = 0;
	if (w == 0) { put(byte(o.pick(std::vector<int>{0, 1, 4})) + byte(1) + byte(0) + byte(3)); err = 1; }
	else if (w == 1) { put(byte(5) + byte(o.pick(std::vector<int>{0, 2, 3, 200})) + byte(0) + byte(3)); err = 7; }
	else if (w == 2) { put(byte(5) + byte(1) + byte(0) + byte(o.pick(std::vector<int>{0, 1, 2, 4, 5, 255}))); err = 8; }
	else {
		std::string to = o.pick(Strs{"net", "other", "nosuch", "Net", "net"});
		if (o.chance(1, 12)) to = std::string(o.range(256), 'n');
		put(byte(5) + byte(1) + byte(o.range(2)) + byte(3) + byte(to.size()) + to + byte(o.range(256)) + byte(o.range(256)));
		std::string n = lower_ascii(to);
		if (r.nets.count(n)) {
			k.raw += byte(5) + byte(0) + byte(0) + byte(3) + byte(9) + "localhost" + byte(4) + byte(1);
			k.what = "socks: logs in";
			session(o, k, n);
			return;
		}
		err = 3;
	}
	k.raw += byte(5) + byte(err) + byte(0) + byte(3) + byte(0) + byte(0) + byte(0);
	k.closed = true;
	k.what = "socks: error " + std::to_string(err);
}

static std::string code(const std::string &l) { Msg m = msg(l); return m.a[0]; }

static void check(Ctx &c, Conn &k)
{
	std::string raw = k.p->raw;
	if (raw.compare(0, k.raw.size(), k.raw)) {
		if (k.left && k.raw.compare(0, raw.size(), raw) == 0) return;
		fail(c, "bytes", "connection %d (%s) got %s, not %s", k.id, k.what.c_str(), q(raw.substr(0, 40)).c_str(), q(k.raw).c_str());
	}
	raw = raw.substr(k.raw.size());
	Strs got;
	for (size_t i = 0, e; i < raw.size(); i = e + 2) {
		e = raw.find("\r\n", i);
		if (e == std::string::npos) fail(c, "cut", "connection %d got an unfinished line %s", k.id, q(raw.substr(i)).c_str());
		got.push_back(raw.substr(i, e - i));
	}
	size_t j = 0;
	for (auto &w : k.want) {
		if (j >= got.size()) { if (k.left) return; fail(c, "missing", "connection %d (%s) did not get %s", k.id, k.what.c_str(), w.c_str()); }
		std::string g = code(got[j]);
		if (g != w) fail(c, "reply", "connection %d (%s) got %s where %s was due", k.id, k.what.c_str(), q(got[j]).c_str(), w.c_str());
		if (w == "NOTICE" && got[j] != "NOTICE AUTH :PASS OK") fail(c, "reply", "connection %d got %s", k.id, q(got[j]).c_str());
		j++;
	}
	bool in = !k.want.empty() && k.want.back() == "001";
	if (!in && j < got.size()) fail(c, "extra", "connection %d (%s) got %s", k.id, k.what.c_str(), q(got[j]).c_str());
	if (in) {
		bool mark = false;
		for (; j < got.size(); j++) if (got[j].find("channel-of-" + k.net) != std::string::npos) mark = true; else if (got[j].find("channel-of-") != std::string::npos) fail(c, "network", "connection %d got %s, but asked for %s", k.id, q(got[j]).c_str(), k.net.c_str());
		if (!mark && !k.left) fail(c, "session", "connection %d was not told about the session on %s", k.id, k.net.c_str());
	}
	if (!k.left && k.p->eof != k.closed) fail(c, "close", "connection %d (%s) %s", k.id, k.what.c_str(), k.closed ? "was not closed" : "was closed");
}

static void run(Src &s, Ctx &c)
{
	Src h = s.block(24);
	Rig r;
	r.au.has_global = h.chance(2, 3);
	r.au.global = h.pick(Strs{"secret", "Secret", "p w", ""});
	if (r.au.has_global && h.chance(1, 8)) r.au.global = std::string(200, 'g');
	bool unixl = h.chance(1, 6);
	if (!unixl) {
		r.au.has_listener = h.chance(1, 2);
		r.au.listener = h.pick(Strs{"listen", "secret2", "net"});
		for (uint32_t n = h.range(3); n--;) r.au.rules.push_back({h.pick(Strs{"joe", "ann", "u"}), h.pick(Strs{"secret", "joespw", "x"})});
		r.dflt = h.pick(Strs{"net", "other", ""});
	}
	start_global("[global]\nautosave=false\nreport-time=never\ncreate-implicit=false\n");
	G->config->create_implicit = FALSE;
	if (r.au.has_global) G->config->password = g_strdup(r.au.global.c_str());
	PeerP servers[2];
	int i = 0;
	for (const char *name : {"net", "other"}) {
		struct network_config *nc = add_network_config(name, "me");
		nc->ignore_first_nick = -1;
		struct irc_network *n = start_network(nc, servers[i]);
		pump();
		servers[i]->line(":irc.test 001 me :Welcome");
		servers[i]->line(":irc.test 376 me :End of MOTD");
		servers[i]->line(std::string(":me!my@h JOIN #channel-of-") + name);
		r.nets[name] = n;
		i++;
	}
	pump();
	struct irc_listener *l;
	if (unixl) {
		G->config->network_socket = g_strdup((scratch() + "/sock").c_str());
		if (!start_unix_domain_socket_listener(G)) fail(c, "start", "cannot start the listener");
		l = G->unix_domain_socket_listener;
	} else {
		struct listener_config *lc = g_new0(struct listener_config, 1);
		if (r.au.has_listener) lc->password = g_strdup(r.au.listener.c_str());
		if (!r.dflt.empty()) lc->network = g_strdup(r.dflt.c_str());
		for (auto &x : r.au.rules) {
			struct allow_rule *a = g_new0(struct allow_rule, 1);
			a->username = g_strdup(x.first.c_str());
			a->password = g_strdup(x.second.c_str());
			lc->allow_rules = g_list_append(lc->allow_rules, a);
		}
		l = listener_init(G, lc);
	}
	c.log("global password %s, listener password %s, %zu rules, network '%s'%s", r.au.has_global ? q(r.au.global).c_str() : "none", r.au.has_listener ? q(r.au.listener).c_str() : "none", r.au.rules.size(), r.dflt.c_str(), unixl ? ", unix socket" : "");
	std::vector<Conn> all;
	std::vector<size_t> open;
	int sessions = 0, refused = 0;
	auto finish = [&](size_t x) {
		Conn &k = all[x];
		pump();
		check(c, k);
		if (k.net.size() && !k.left) sessions++; else refused++;
	};
	while (!s.empty() || !open.empty()) {
		Src o = s.block(16);
		bool more = !s.empty();
		if (more && (open.empty() || (open.size() < 4 && o.chance(1, 3)))) {
			Conn k;
			k.id = all.size();
			if (o.chance(1, 2)) socks(o, k, r); else irc(o, k, r);
			int sv[2];
			if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv) < 0) abort();
			k.p = std::make_shared<Peer>(sv[1]);
			listener_new_pending_client(l, g_io_channel_unix_new(sv[0]));
			c.log("connection %d (%s): %s", k.id, k.what.c_str(), q(k.bytes).c_str());
			open.push_back(all.size());
			all.push_back(k);
			if (o.chance(1, 2)) { all.back().p->send(all.back().bytes); all.back().sent = all.back().bytes.size(); pump(); }
			continue;
		}
		if (open.empty()) continue;
		size_t w = o.range(open.size());
		Conn &k = all[open[w]];
		size_t left = k.bytes.size() - k.sent, n = std::min(left, more ? (size_t)(1 + o.range(o.chance(1, 2) ? 6 : 60)) : left);
		if (n) { k.p->send(k.bytes.substr(k.sent, n)); k.sent += n; if (o.chance(3, 4)) pump(); }
		if (k.sent == k.bytes.size()) { finish(open[w]); open.erase(open.begin() + w); }
		else if (more && o.chance(1, 20)) { c.log("connection %d leaves", k.id); k.left = true; k.closed = false; k.p->close(); pump(); finish(open[w]); open.erase(open.begin() + w); }
	}
	pump();
	for (auto &kv : r.nets) {
		size_t want = 0;
		for (auto &k : all) if (!k.left && k.net == kv.first) want++;
		if (g_list_length(kv.second->clients) != want) fail(c, "count", "%u clients on %s, should be %zu", g_list_length(kv.second->clients), kv.first.c_str(), want);
	}
	for (auto &k : all) if (!k.left) check(c, k);
	if (h.chance(1, 2)) {
		c.log("the listener is stopped");
		if (unixl) stop_unix_domain_socket_listener(G); else listener_stop(l);
		pump();
		for (auto &k : all) if (!k.left && k.net.empty() && !k.p->eof) fail(c, "stop", "connection %d is still open after the listener was stopped", k.id);
		for (auto &k : all) if (!k.left && !k.net.empty() && k.p->eof) fail(c, "stop", "the session of connection %d was closed with the listener", k.id);
	}
	close_all_peers();
	pump();
	if (sessions && refused) c.nontrivial();
	c.tag("sessions " + std::to_string(std::min(sessions, 5)));
}

Property the_property = {
	"P13",
	"at least one connection got a session and at least one did not",
	{"passwords do not contain a colon (it separates the network in PASS)", "GSSAPI never succeeds here: there are no service credentials"},
	{
		{"login", run, 24, 16, 60, 6000, 60000, 20},
	}};
