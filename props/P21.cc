// P21: administration commands do what they are told, through every interface.
#include "world.h"
#include "internals.h"
#include <sys/un.h>
extern "C" {
#include "help.h"
extern help_t *help;
gboolean start_admin_socket(struct global *);
}

static std::string low(std::string s) { for (auto &ch : s) ch = g_ascii_tolower(ch); return s; }
static Strs words(const std::string &s) { Strs r; char **v = g_strsplit(s.c_str(), " ", 0); for (char **p = v; *p; p++) r.push_back(*p); g_strfreev(v); return r; }
static std::string show(const Strs &v) { std::string t; for (auto &x : v) t += q(x) + " "; return t; }

struct MServer { std::string host, port; };
struct MNet { std::string name; int type; std::string state = "Not connected"; std::vector<MServer> servers; int cur = -1; int id = 0; };  // 0 home, 1 virtual, 2 tcp
static bool valid(const std::string &n)
{
	if (n.empty() || n[0] == '#' || n[0] == '&' || n == "." || n == ".." || n.find_first_of("[]/") != std::string::npos) return false;
	return n != "global" && n != "socks" && n != "auto-away" && n != "log-custom" && n != "log-irssi";
}

struct Rig {
	Ctx &c;
	std::vector<PeerP> cl, ad;      // clients of home and of the administration network
	PeerP home, sock, server;
	std::string adminuser = "ctrlproxy", nick = "me";
	explicit Rig(Ctx &x) : c(x) {}
	void open_socket()
	{
		int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
		struct sockaddr_un un;
		memset(&un, 0, sizeof un);
		un.sun_family = AF_UNIX;
		g_strlcpy(un.sun_path, G->config->admin_socket, sizeof un.sun_path);
		if (connect(fd, (struct sockaddr *)&un, sizeof un) < 0) fail(c, "socket", "cannot connect to the administration socket: %s", strerror(errno));
		fcntl(fd, F_SETFL, O_NONBLOCK);
		sock = std::make_shared<Peer>(fd);
		pump();
	}
	// Everything that everybody got is checked and dropped; the asker's replies are returned.
	Strs run(Src &o, int iface, const std::string &cmd, const std::string &homename, const std::string &admname, bool quiet = true, bool mute = false)
	{
		PeerP asker = iface <= 1 ? cl[0] : iface == 2 ? ad[0] : sock;
		std::string l = cmd;
		if (iface == 0) l = o.chance(1, 2) || cmd.empty() || cmd[0] == ':' || cmd.find("  ") != std::string::npos || cmd.back() == ' ' || cmd.find(" :") != std::string::npos || cmd[0] == ' ' ? "CTRLPROXY :" + cmd : "CTRLPROXY " + cmd;
		if (iface == 1) l = "PRIVMSG " + (o.chance(1, 3) ? "CTRLPROXY" : adminuser) + " :" + cmd;
		std::string target = G->config->admin_user || o.chance(1, 2) ? "#ctrlproxy" : "ctrlproxy";
		if (iface == 2) l = "PRIVMSG " + target + " :" + cmd;
		if (!mute) c.log("%s %s", iface <= 1 ? "client:" : iface == 2 ? "admin network:" : "socket:", q(l).c_str());
		if (iface == 3) {
			std::string e = o.chance(1, 4) ? "\r\n" : "\n";
			if (o.chance(1, 4) && l.size() > 1) { size_t k = 1 + o.range(l.size() - 1); asker->send(l.substr(0, k)); pump(); if (!asker->lines.empty()) fail(c, "early", "answered before the command was complete"); asker->send(l.substr(k) + e); }
			else {
				bool two = o.chance(1, 6);       // two commands at once
				asker->send((two ? "ECHO first" + e : std::string()) + l + e);
				if (two) { pump(); if (asker->lines.empty() || asker->lines[0] != "first") fail(c, "lines", "the first of two commands was not answered"); asker->lines.erase(asker->lines.begin()); }
			}
		} else asker->line(l);
		pump();
		Strs r;
		for (auto &x : asker->take()) {
			if (iface == 3) { r.push_back(x); continue; }
			Msg m = msg(x);
			if (m.a[0] == "NOTICE" && m.arg(1) == "*") continue;
			if (m.a[0] == "ERROR" || m.a[0] == "461") { r.push_back(x); continue; }
			std::string net = iface <= 1 ? homename : admname;
			if (!quiet) net = m.origin.size() > 20 ? m.origin.substr(20) : "";
			if (m.origin != "ctrlproxy!ctrlproxy@" + net || m.a.size() != 3 || m.a[0] != (iface <= 1 ? "NOTICE" : "PRIVMSG") || m.a[1] != (iface <= 1 ? nick : "#ctrlproxy")) { if (quiet) fail(c, "form", "an answer of the form %s", q(x).c_str()); continue; }
			r.push_back(m.a[2]);
		}
		auto logged = [](const std::string &x) { Msg m = msg(x); return m.a[0] == "NOTICE" && m.arg(1) == "*"; };
		for (auto *v : {&cl, &ad}) for (auto &p : *v) p->lines.erase(std::remove_if(p->lines.begin(), p->lines.end(), logged), p->lines.end());
		if (!quiet) { for (auto &p : cl) p->take(); for (auto &p : ad) p->take(); if (sock && sock != asker) sock->take(); if (home) home->take(); return r; }
		for (auto &p : cl) if (p != asker && !p->lines.empty()) fail(c, "others", "another client got %s", q(p->lines[0]).c_str());
		for (size_t i = 0; i < ad.size(); i++) if (ad[i] != asker) {
			Strs want;
			if (iface == 2) { want.push_back(":" + nick + " PRIVMSG " + target + " " + cmd); for (auto &x : r) want.push_back(":ctrlproxy PRIVMSG #ctrlproxy " + x); }
			Strs g;
			for (auto &x : ad[i]->take()) { Msg m = msg(x); g.push_back(":" + m.nick() + " " + m.a[0] + " " + m.arg(1) + " " + m.arg(2)); }
			if (iface == 2 && asker->eof) continue;
			if (g != want) fail(c, "others", "another client of the administration network got %s", show(g).c_str());
		}
		if (sock && sock != asker && !sock->lines.empty()) fail(c, "others", "the socket got %s", q(sock->lines[0]).c_str());
		if (home && !home->lines.empty()) fail(c, "others", "the server got %s", q(home->lines[0]).c_str());
		return r;
	}
};

static std::string token(Src &o)
{
	static const Strs T = {"a", "foo", "x y", "%s%n", "true", "false", "0", "5", "-1", "", "#c", "home", ":x", "caf\xc3\xa9", "always", "never", "replication", "simple", "none", "TRUE", "12x"};
	return o.pick(T);
}

static const char *HELPTEXT = "?index\nThe following commands are there\n\nEND\n%\n?echo\nRepeats the\n%s %% words\n%\n?empty\n%\n?net work\nx\n%\n";

static void setup(Rig &r, Src &h, std::vector<MNet> &nets, bool adminuser, bool deflistener, const std::string &more = "")
{
	std::string cfg = "[global]\nautosave=false\nreplication=none\nreport-time=never\nmotd-file=/nonexistent/motd\nadmin-log=false\n";
	if (adminuser) cfg += "admin-user=ctrlproxy\n";
	cfg += more;
	if (deflistener) cfg += "password=secret\nport=7123\nbind=127.0.0.9\n";
	start_global(cfg);
	write_file(scratch() + "/helpfile", HELPTEXT);
	help = help_load_file((scratch() + "/helpfile").c_str());
	struct network_config *hc = add_network_config("home", "me"), *ac = add_network_config("adm", "me");
	ac->type = network_config::NETWORK_VIRTUAL;
	ac->type_settings.virtual_name = g_strdup("admin");
	struct irc_network *n = start_network(hc, r.home), *a = load_network(G, ac);
	nets.push_back({"home", 0});
	nets.push_back({"adm", 1});
	if (!connect_network(a)) fail(r.c, "adm", "the administration network does not start");
	for (auto &l : {":irc.test 001 me :Welcome", ":irc.test 005 me CHANTYPES=#& PREFIX=(ov)@+ :are supported", ":irc.test 376 me :End of MOTD", ":me!u@h JOIN #a", ":irc.test 353 me = #a :me", ":irc.test 366 me #a :End", ":me!u@h JOIN #b", ":irc.test 353 me = #b :me", ":irc.test 366 me #b :End"}) r.home->line(l);
	pump();
	nets[0].state = nets[1].state = "connected";
	start_admin_socket(G);
	r.open_socket();
	for (int i = 0; i < 2; i++) r.cl.push_back(attach(n, "me"));
	for (uint32_t i = 1 + h.range(2); i--;) r.ad.push_back(attach(a, "me"));
	pump();
	r.home->take();
	for (auto &p : r.cl) p->take();
	for (auto &p : r.ad) p->take();
}

enum Kind { BOOL, TEXT, NUM, RTIME, REPL, NAME, FULL, USER, LISTEN };
struct Setting { const char *name; Kind kind; };
static const std::vector<Setting> SETTINGS = {
	{"autosave", BOOL}, {"learn-network-name", BOOL}, {"learn-nickserv", BOOL}, {"auto-away-enable", BOOL},
	{"auto-away-message", TEXT}, {"auto-away-nick", TEXT}, {"default-client-charset", TEXT}, {"auto-away-time", NUM}, {"auto-away-client-limit", NUM},
	{"max_who_age", NUM}, {"report-time-offset", NUM}, {"report-time", RTIME}, {"replication", REPL}, {"default-nick", NAME}, {"default-username", NAME},
	{"default-fullname", FULL}, {"bind", LISTEN}, {"default-network", LISTEN}, {"port", LISTEN}, {"password", LISTEN}};

static void commands(Src &s, Ctx &c)
{
	Src h = s.block(8);
	Rig r(c);
	std::vector<MNet> nets;
	bool adminuser = h.chance(1, 2), deflis = h.chance(1, 2);
	setup(r, h, nets, adminuser, deflis);
	Listener lis;
	std::vector<PeerP> conns;
	std::map<std::string, std::string> set;            // only what is set
	auto find = [&](const std::string &n) { for (size_t i = 0; i < nets.size(); i++) if (low(nets[i].name) == low(n)) return (int)i; return -1; };
	auto homename = [&] { for (auto &x : nets) if (x.type == 0) return x.name; return std::string(); };
	auto admname = [&] { for (auto &x : nets) if (x.type == 1) return x.name; return std::string(); };
	auto ask = [&](Src &o, int f, const std::string &cmd, bool mute = false) { return r.run(o, f, cmd, homename(), admname(), true, mute); };
	auto want = [&](const std::string &cmd, const Strs &g, const Strs &w) { if (g != w) fail(c, words(low(cmd))[0].c_str(), "%s: answered %s instead of %s", q(cmd).c_str(), show(g).c_str(), show(w).c_str()); };
	auto listed = [&] { Strs w; for (auto &x : nets) w.push_back(x.name + ": " + x.state); return w; };
	auto get = [&](const std::string &k) { auto i = set.find(k); return i == set.end() ? Strs{k + " is not set"} : Strs{i->second}; };
	{ Src z = h.block(0); for (auto &x : SETTINGS) { Strs g = ask(z, 3, std::string("SET ") + x.name, true); if (g.size() != 1) fail(c, "set", "SET %s: %s", x.name, show(g).c_str()); if (g[0] != std::string(x.name) + " is not set") set[x.name] = g[0]; } }
	int changes = 0, asked = 0;
	Strs names = {"foo", "bar", "Foo", "home", "adm", "b/ar", "#x", "global", "a[b", "..", "foo.bar", "caf\xc3\xa9", "%s"};
	Strs ports = {"7001", "7002"};
	std::string addr = "127." + std::to_string(1 + (getpid() >> 14) % 250) + "." + std::to_string((getpid() >> 7) % 128 + 1) + "." + std::to_string(getpid() % 128 + 1);
	if (!can_bind(addr)) { Listener a, b; addr = "127.0.0.1"; ports = {std::to_string(a.port), std::to_string(b.port)}; }
	Strs addrs = {addr};
	if (addr != "127.0.0.1") { addrs.push_back(addr); addrs[1].replace(addr.rfind('.') + 1, 3, std::to_string(getpid() % 128 + 129)); if (!can_bind(addrs[1])) addrs.pop_back(); }
	struct Lis { std::string spec, net; int id; };
	std::vector<Lis> listeners;
	int ids = 10;
	for (auto &x : nets) x.id = ids++;
	while (!s.empty()) {
		Src o = s.block(14);
		Strs faces;
		int f = o.range(4);
		if (f == 1 && !adminuser) f = 0;
		if (f <= 1 && r.cl.empty()) f = 3;
		if (f == 2 && r.ad.empty()) f = 3;
		std::string net = f <= 1 ? homename() : f == 2 ? admname() : "";
		asked++;
		switch (o.range(20)) {
		case 0: { std::string w = o.pick(Strs{"hi", "hi there", "", "%s%d", "a  b", ":x"}); std::string cmd = o.pick(Strs{"ECHO ", "echo ", "Echo "}) + w; want(cmd, ask(o, f, cmd), {w}); break; }
		case 1: { std::string cmd = o.chance(1, 2) ? "LISTNETWORKS" : "network LIST"; want(cmd, ask(o, f, cmd), listed()); break; }
		case 2: case 3: {
			std::string n = o.pick(names), cmd = (o.chance(1, 2) ? "ADDNETWORK " : "NETWORK add ") + n;
			Strs g = ask(o, f, cmd);
			if (find(n) >= 0) want(cmd, g, {"Network with name `" + n + "' already exists"});
			else if (!valid(n)) want(cmd, g, {"Invalid name for a network: `" + n + "'"});
			else { want(cmd, g, {"Network `" + n + "' added. Use ADDSERVER to add a server to this network."}); nets.push_back({n, 2}); nets.back().id = ids++; changes++; }
			break;
		}
		case 4: {
			std::string a = o.pick(names), b = o.pick(names), cmd = "NETWORK rename " + a + " " + b;
			int i = find(a);
			Strs g;
			std::string hn = homename(), an = admname();
			bool ok = i >= 0 && find(b) < 0 && valid(b);
			if (ok) { nets[i].name = b; for (auto &x : listeners) if (x.id == nets[i].id) x.net = b; changes++; }
			g = ask(o, f, cmd);
			if (i < 0) want(cmd, g, {"Network with name `" + a + "' does not exist"});
			else if (ok) want(cmd, g, {});
			else if (find(b) >= 0) want(cmd, g, {"Network with name `" + b + "' already exists"});
			else want(cmd, g, {"Invalid name for a network: `" + b + "'"});
			break;
		}
		case 5: {
			std::string n = o.pick(names), cmd = o.pick(Strs{"DELNETWORK ", "NETWORK del ", "NETWORK delete ", "network REMOVE "}) + n;
			int i = find(n);
			if (i < 0) { want(cmd, ask(o, f, cmd), {"No such network `" + n + "'"}); break; }
			if (nets[i].type != 2 && o.chance(3, 4)) break;
			changes++;
			if (nets[i].type != 2) {              // its clients go, perhaps the one asking
				c.tag("own");
				bool own = (nets[i].type == 0 && f <= 1) || (nets[i].type == 1 && f == 2);
				Strs g = r.run(o, f, cmd, homename(), admname(), false);
				if (!own) want(cmd, g, {"Network `" + n + "' deleted"});
				auto &v = nets[i].type == 0 ? r.cl : r.ad;
				for (auto &p : v) if (!p->eof) fail(c, "clients", "%s: a client stays connected", q(cmd).c_str());
				v.clear();
				if (nets[i].type == 0) { if (!r.home->eof) fail(c, "server", "%s: still connected to the server", q(cmd).c_str()); r.home.reset(); }
			} else {
				want(cmd, ask(o, f, cmd), {"Network `" + n + "' deleted"});
			}
			nets.erase(nets.begin() + i);
			break;
		}
		case 6: case 7: {
			std::string n = o.pick(names), to = o.chance(2, 3) ? "127.0.0.1:" + std::to_string(lis.port) : o.pick(Strs{"irc.test", "irc.test:6697", "h:", "x:y:z"}), cmd = "ADDSERVER " + n + " " + to + (o.chance(1, 3) ? " pass" : "");
			int i = find(n);
			Strs g = ask(o, f, cmd);
			if (i < 0) want(cmd, g, {"No such network '" + n + "'"});
			else if (nets[i].type != 2) want(cmd, g, {"Not a TCP/IP network!"});
			else { want(cmd, g, {"Server added to `" + n + "'"}); size_t k = to.find(':'); nets[i].servers.push_back({to.substr(0, k), k == std::string::npos ? "6667" : to.substr(k + 1)}); changes++; }
			break;
		}
		case 8: {
			std::string n = o.pick(names), cmd = "NETWORK info " + n;
			int i = find(n);
			Strs g = ask(o, f, cmd), w;
			if (i < 0) { want(cmd, g, {"No such network `" + n + "'"}); break; }
			if (nets[i].type == 2) { w.push_back("Servers:"); for (size_t k = 0; k < nets[i].servers.size(); k++) w.push_back("  " + nets[i].servers[k].host + ":" + nets[i].servers[k].port + ((int)k == nets[i].cur ? " (Current)" : "")); w.push_back("No clients connected"); }
			else {
				if (nets[i].type == 1) w.push_back("Virtual network");
				size_t k = nets[i].type == 0 ? r.cl.size() : r.ad.size();
				w.push_back(k ? "Clients:" : "No clients connected");
				if (g.size() != w.size() + k) fail(c, "info", "%s: %s", cmd.c_str(), show(g).c_str());
				g.resize(w.size());
			}
			want(cmd, g, w);
			break;
		}
		case 9: case 10: {
			std::string n = o.pick(names), cmd = "CONNECT " + n;
			int i = find(n);
			if (i < 0) { want(cmd, ask(o, f, cmd), {"No such network `" + n + "'"}); break; }
			if (nets[i].type == 0) break;
			if (nets[i].state == "connected") {
				Strs g = ask(o, f, cmd);
				if (g != Strs{"Already connected to `" + n + "'"} && g != Strs{"Connect to `" + n + "' already in progress"}) fail(c, "connect", "%s: %s", cmd.c_str(), show(g).c_str());
				break;
			}
			bool good = !nets[i].servers.empty();
			for (auto &x : nets[i].servers) if (x.host != "127.0.0.1") good = false;
			if (!good && !nets[i].servers.empty()) break;
			Strs g = ask(o, f, cmd);
			want(cmd, g, {"Connecting to `" + n + "'"});
			if (!good) break;
			PeerP p = lis.accept();
			if (!p) fail(c, "connect", "%s: no connection", cmd.c_str());
			conns.push_back(p);
			nets[i].state = "connected";
			pump_until([&] { return p->lines.size() >= 2; }, 2000);
			if (nets[i].cur < 0) nets[i].cur = 0;
			changes++;
			break;
		}
		case 11: {
			std::string n = o.pick(names), cmd = "DISCONNECT " + n;
			int i = find(n);
			if (i >= 0 && nets[i].type == 0) break;
			Strs g = ask(o, f, cmd);
			if (i < 0) want(cmd, g, {"Can't find active network with that name"});
			else if (nets[i].type == 1) want(cmd, g, {"Built-in network `" + nets[i].name + "' can't be disconnected"});
			else if (nets[i].state != "connected") want(cmd, g, {"Already disconnected from `" + nets[i].name + "'"});
			else { want(cmd, g, {"Disconnecting from `" + nets[i].name + "'"}); nets[i].state = "Not connected"; changes++; }
			break;
		}
		case 12: case 13: case 14: {                     // settings
			auto &x = o.pick(SETTINGS);
			std::string k = x.name, v = token(o), up = o.chance(1, 4) ? std::string(1, g_ascii_toupper(k[0])) + k.substr(1) : k;
			if (o.chance(1, 3)) { want("SET " + up, ask(o, f, "SET " + up), get(k)); break; }
			if (x.kind == RTIME && v == "always") break;
			bool unset = o.chance(1, 4);
			std::string cmd = unset ? "UNSET " + up : "SET " + up + " " + v;
			Strs g = ask(o, f, cmd);
			bool was = set.count(k);
			std::string old = was ? set[k] : "";
			switch (x.kind) {
			case BOOL: if (!unset && (low(v) == "true" || low(v) == "false")) set[k] = low(v); else if (g.size() != 1) fail(c, "set", "%s: no complaint", q(cmd).c_str()); break;
			case TEXT: if (unset) set.erase(k); else set[k] = v; break;
			case NUM: set[k] = std::to_string(unset ? (k[0] == 'a' ? -1 : 0) : atoi(v.c_str())); if (set[k] == "0" && k != "auto-away-client-limit") set.erase(k); break;
			case RTIME: if (!unset && (v == "always" || v == "never" || v == "replication" || low(v) == "true" || low(v) == "false")) { set[k] = low(v) == "true" ? "replication" : low(v) == "false" ? "never" : v; if (v == "always" || set[k] == "always") { } } else if (g.size() != 1) fail(c, "set", "%s: no complaint", q(cmd).c_str()); break;
			case REPL: if (unset) set.erase(k); else if (v == "simple" || v == "none") set[k] = v; else if (g.size() != 1) fail(c, "set", "%s: no complaint", q(cmd).c_str()); break;
			case NAME: if (!unset && !v.empty() && v.find(' ') == std::string::npos && v[0] != ':') set[k] = v; else if (g.size() != 1) fail(c, "set", "%s: no complaint", q(cmd).c_str()); break;
			case FULL: if (!unset && !v.empty()) set[k] = v; else if (g.size() != 1) fail(c, "set", "%s: no complaint", q(cmd).c_str()); break;
			case LISTEN: if (!deflis) break; if (k == "port" && unset) { if (g.size() != 1) fail(c, "set", "%s: no complaint", q(cmd).c_str()); } else if (unset) set.erase(k); else set[k] = v; break;
			default: break;
			}
			if ((was != (bool)set.count(k) || old != (set.count(k) ? set[k] : ""))) changes++;
			want("SET " + k, ask(o, 3, "SET " + k), get(k));
			break;
		}
		case 15: { std::string cmd = o.pick(Strs{"FROBNICATE", "echos x", "EC", "%s"}); want(cmd, ask(o, f, cmd), {"Can't find command '" + words(cmd)[0] + "'. Type 'help' for a list of available commands. "}); break; }
		case 16: {
			std::string t = o.pick(Strs{"", "index", "echo", "empty", "nosuch", "net", "net work", "empty x"}), cmd = "HELP" + (t.empty() ? "" : " " + t);
			Strs w;
			if (t.empty() || t == "index") w = {"The following commands are there", "", "END"};
			else if (t == "echo") w = {"Repeats the", "%s %% words"};
			else if (t == "net work") w = {"x"};
			else if (t != "empty") w = {"Sorry, no help for " + t + " available"};
			want(cmd, ask(o, f, cmd), w);
			break;
		}
		case 17: {                                       // listeners
			std::string p = o.pick(ports), addr = o.pick(addrs);
			if (o.chance(1, 2)) {
				std::string nn = o.chance(1, 3) ? o.pick(names) : "", cmd = "STARTLISTENER " + addr + ":" + p + " pw" + (nn.empty() ? "" : " " + nn);
				std::string e = addr + ":" + p;
				bool dup = false;
				for (auto &x : listeners) if (x.spec == e) dup = true;
				if (dup) break;
				Strs g = ask(o, f, cmd);
				if (!nn.empty() && find(nn) < 0) { want(cmd, g, {"No such network `" + nn + "`"}); break; }
				listeners.push_back({e, nn.empty() ? "" : nets[find(nn)].name, nn.empty() ? 0 : nets[find(nn)].id});
				changes++;
				int fd = socket(AF_INET, SOCK_STREAM, 0);
				struct sockaddr_in sa;
				memset(&sa, 0, sizeof sa);
				sa.sin_family = AF_INET;
				sa.sin_port = htons(atoi(p.c_str()));
				inet_pton(AF_INET, addr.c_str(), &sa.sin_addr);
				if (connect(fd, (struct sockaddr *)&sa, sizeof sa) < 0) fail(c, "listener", "%s: nothing listens", cmd.c_str());
				struct linger lg = {1, 0};
				setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
				::close(fd);
				pump();
			} else {
				bool any = o.chance(1, 3);
				if (o.chance(1, 4)) addr = "192.0.2.1";        // nothing listens there
				std::string cmd = "STOPLISTENER " + (any ? std::string() : addr + ":") + p;
				int k = 0;
				for (size_t i = 0; i < listeners.size();) if (any ? listeners[i].spec.substr(listeners[i].spec.find(':') + 1) == p : listeners[i].spec == addr + ":" + p) { listeners.erase(listeners.begin() + i); k++; } else i++;
				want(cmd, ask(o, f, cmd), {std::to_string(k) + " listeners stopped"});
			}
			break;
		}
		case 18: {
			std::string n = o.pick(names), cmd = "DUMPJOINEDCHANNELS " + n;
			int i = find(n);
			Strs g = ask(o, f, cmd);
			if (i < 0) want(cmd, g, {"Can't find network '" + n + "'"});
			else if (nets[i].type == 0) want(cmd, g, {"#a", "#b"});
			else if (nets[i].state != "connected") want(cmd, g, {"Network '" + nets[i].name + "' not connected"});
			else if (nets[i].type == 1) want(cmd, g, {"#ctrlproxy"});
			break;
		}
		case 19: {
			switch (o.range(4)) {
			case 0: {                            // somebody on the network gives commands
				if (!r.home) break;
				std::string cmd = o.pick(Strs{"ADDNETWORK evil", "NETWORK del home", "SET autosave true", "ECHO x"});
				std::string l = o.pick(Strs{":bob!u@h PRIVMSG me :", ":bob!u@h PRIVMSG ctrlproxy :", ":bob!u@h CTRLPROXY :", "CTRLPROXY :", ":me!u@h PRIVMSG ctrlproxy :"}) + cmd;
				c.log("server: %s", q(l).c_str());
				r.home->line(l);
				pump();
				for (auto &p : r.cl) for (auto &x : p->take()) if (msg(x).nick() == "ctrlproxy" || x.find("NOTICE") != std::string::npos) { if (x.find(" without origin") == std::string::npos) fail(c, "remote", "%s was answered: %s", q(l).c_str(), q(x).c_str()); }
				if (!r.home->take().empty()) fail(c, "remote", "%s was answered", q(l).c_str());
				break;
			}
			case 1: {                            // to somebody else
				if (r.cl.empty() || !r.home) break;
				std::string l = adminuser ? "PRIVMSG bob :ADDNETWORK evil" : "PRIVMSG ctrlproxy :ADDNETWORK evil";
				c.log("client: %s", l.c_str());
				r.cl[0]->line(l);
				pump();
				if (r.home->take().size() != 1) fail(c, "message", "%s did not reach the server", l.c_str());
				if (!r.cl[0]->take().empty()) fail(c, "message", "%s was answered", l.c_str());
				for (auto &p : r.cl) p->take();
				break;
			}
			case 2: {
				if (f == 3) { want("DETACH", ask(o, f, "DETACH"), {"No client to detach."}); want("CHARSET", ask(o, f, "CHARSET UTF-8"), {"The CHARSET command can only be used on client connections."}); break; }
				PeerP p = f <= 1 ? r.cl[0] : r.ad[0];
				r.run(o, f, "DETACH", homename(), admname(), false);
				if (!p->eof) fail(c, "detach", "the client is still connected");
				(f <= 1 ? r.cl : r.ad).erase((f <= 1 ? r.cl : r.ad).begin());
				changes++;
				break;
			}
			case 3: {                            // save and load
				bool restricted = o.chance(1, 3), elsewhere = o.chance(1, 2);
				G->restricted = restricted;
				std::string dir = scratch() + "/other";
				mkdir(dir.c_str(), 0700);
				unlink((dir + "/config").c_str());
				std::string where = elsewhere && !restricted ? dir : G->config->config_dir, cmd = "SAVECONFIG" + (elsewhere ? " " + dir : "");
				want(cmd, ask(o, f, cmd), {"Configuration saved in " + where});
				G->restricted = FALSE;
				if (elsewhere && restricted && access((dir + "/config").c_str(), F_OK) == 0) fail(c, "restricted", "written to %s", dir.c_str());
				struct ctrlproxy_config *k = load_configuration(where.c_str(), FALSE);
				if (!k) fail(c, "save", "what was saved cannot be loaded");
				Strs w, g;
				for (auto &x : nets) if (x.type == 2) { std::string t = x.name; for (auto &y : x.servers) t += " " + y.host + ":" + y.port; w.push_back(t); }
				for (GList *l = k->networks; l; l = l->next) {
					struct network_config *nc = (struct network_config *)l->data;
					if (nc->type != network_config::NETWORK_TCP || homename() == nc->name) continue;
					std::string t = nc->name;
					for (GList *m = nc->type_settings.tcp.servers; m; m = m->next) { auto *y = (struct tcp_server_config *)m->data; t += std::string(" ") + y->host + ":" + y->port; }
					g.push_back(t);
				}
				std::sort(w.begin(), w.end());
				std::sort(g.begin(), g.end());
				bool odd = false;                  // P18 is about those
				for (auto &x : nets) for (auto &y : x.servers) if (y.host != "127.0.0.1" && y.host != "irc.test") odd = true; 
				for (auto &x : nets) { std::set<std::string> seen; for (auto &y : x.servers) if (y.port.empty() || !seen.insert(y.host + ":" + y.port).second) odd = true; }
				if (!odd && g != w) fail(c, "save", "the networks saved are %s instead of %s", show(g).c_str(), show(w).c_str());
				auto str = [&](const char *key, const char *v) { if ((set.count(key) ? set[key] : "") != (v ? v : "")) fail(c, "save", "%s was saved as %s instead of %s", key, q(v ? v : "").c_str(), q(set[key]).c_str()); };
				str("auto-away-message", k->auto_away.message);
				str("auto-away-nick", k->auto_away.nick);
				str("default-nick", k->default_nick);
				str("default-fullname", k->default_realname);
				str("autosave", k->autosave ? "true" : "false");
				str("learn-nickserv", k->learn_nickserv ? "true" : "false");
				str("auto-away-client-limit", std::to_string(k->auto_away.client_limit).c_str());
				c.tag("saved");
				break;
			}
			}
			break;
		}
		}
		// what is there is what should be there
		Src z = o.block(0);
		if (r.sock->eof) fail(c, "socket", "the administration connection was closed");
		want("LISTNETWORKS", ask(z, 3, "LISTNETWORKS", true), listed());
		Strs g = ask(z, 3, "LISTLISTENER", true), w;
		for (auto &x : listeners) w.push_back(x.spec + (x.id ? " (" + x.net + ")" : ""));
		std::sort(g.begin(), g.end());
		std::sort(w.begin(), w.end());
		want("LISTLISTENER", g, w);
		for (auto &x : conns) x->take();
	}
	close_all_peers();
	if (changes >= 3) c.nontrivial();
	(void)asked;
}

// Any words at all, and any help file: answered to the one asking, nothing stops.
static void fuzz(Src &s, Ctx &c)
{
	Src h = s.block(24);
	Rig r(c);
	std::vector<MNet> nets;
	setup(r, h, nets, true, h.chance(1, 2));
	if (h.chance(1, 2)) {
		std::string t;
		for (uint32_t k = h.range(12); k--;) t += h.pick(Strs{"?", "%", "\n", "a", "index", "?index\n", "\n%\n", "text\n", "\r\n", "%\n"});
		write_file(scratch() + "/helpfile", t);
		c.log("help: %s", q(t).c_str());
		help = help_load_file((scratch() + "/helpfile").c_str());
	}
	static const Strs CMDS = {"ADDNETWORK", "DELNETWORK", "LISTNETWORKS", "SET", "UNSET", "ADDSERVER", "BACKLOG", "DISCONNECT", "ECHO", "CHARSET", "NETWORK", "DETACH", "HELP", "DUMPJOINEDCHANNELS", "STARTLISTENER", "STOPLISTENER", "LISTLISTENER", "SAVECONFIG", "CONNECT"};
	static const Strs ARGS = {"foo", "adm", "add", "del", "list", "info", "rename", "", ":", "#a", "%s%s%s%n", "UTF-8", "a:b", "127.0.0.1:", "[::1]:9", "index", "a", "auto-away-time", "replication", "admin-user", "default-nick", "port", "password", "max_who_age", "true", "99999999999", "-5", "me", "\x01", "\xff\xfe", "always", "logging", "bar"};
	int n = 0;
	while (!s.empty()) {
		Src o = s.block(12);
		int f = o.range(4);
		if (f <= 1 && (r.cl.empty() || r.cl[0]->eof)) f = 3;
		if (f == 2 && (r.ad.empty() || r.ad[0]->eof)) f = 3;
		std::string cmd = o.pick(CMDS);
		if (o.chance(1, 30)) cmd = "";
		uint32_t k = o.range(5);
		if (cmd == "SAVECONFIG") { if (o.chance(1, 2)) cmd += " " + scratch() + "/nosuch/dir"; k = 0; }
		if ((cmd == "DISCONNECT" || cmd == "STARTLISTENER" || cmd == "CONNECT") && k == 0) k = 1;
		for (uint32_t i = 0; i < k; i++) cmd += " " + ((cmd == "CONNECT" || cmd == "DISCONNECT") && i == 0 ? o.pick(Strs{"foo", "bar", "adm", "nosuch", ""}) : o.chance(1, 20) ? std::string(500, 'x') : o.pick(ARGS));
		if (G->config->admin_user == NULL && f == 1) f = 0;
		if (G->config->admin_user) r.adminuser = G->config->admin_user;
		if (f == 1 && (r.adminuser.find(' ') != std::string::npos || r.adminuser[0] == ':')) f = 0;
		r.run(o, f, cmd, "", "", false);
		if (r.sock->eof) fail(c, "socket", "the administration connection was closed");
		std::string w = std::string("ECHO alive") + std::to_string(n++);
		Src z = o.block(0);
		Strs g = r.run(z, 3, w, "", "", false, true);
		if (g != Strs{w.substr(5)}) fail(c, "dead", "%s: %s", w.c_str(), show(g).c_str());
	}
	close_all_peers();
	if (n >= 5) c.nontrivial();
}

// With automatic listeners, a network that is added gets one of its own.
static bool free_port(int port)
{
	int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), one = 1;
	setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
	struct sockaddr_in sa;
	memset(&sa, 0, sizeof sa);
	sa.sin_family = AF_INET;
	sa.sin_port = htons(port);
	bool ok = bind(fd, (struct sockaddr *)&sa, sizeof sa) == 0 && listen(fd, 1) == 0;
	::close(fd);
	return ok;
}

static int reach(int port)
{
	int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
	struct sockaddr_in sa;
	memset(&sa, 0, sizeof sa);
	sa.sin_family = AF_INET;
	sa.sin_port = htons(port);
	inet_pton(AF_INET, "127.0.0.1", &sa.sin_addr);
	if (connect(fd, (struct sockaddr *)&sa, sizeof sa) < 0) { ::close(fd); return -1; }
	fcntl(fd, F_SETFL, O_NONBLOCK);
	return fd;
}

static void automatic(Src &s, Ctx &c)
{
	Src h = s.block(10);
	Rig r(c);
	std::vector<MNet> nets;
	int port = 11000 + getpid() % 1000 * 12;
	bool on = !h.chance(1, 6), secret = h.chance(1, 2);
	setup(r, h, nets, false, false, (on ? "listener-auto=true\n" : h.chance(1, 2) ? "listener-auto=false\n" : "") + std::string("listener-autoport=") + std::to_string(port) + "\n" + (secret ? "password=geheim\n" : ""));
	if (!init_listeners(G)) fail(c, "listeners", "the listeners do not start");
	struct Auto { std::string name; int port; bool open; int clients; bool gone; };
	std::vector<Auto> own;
	std::vector<PeerP> keep;
	Listener other;
	std::string general;
	{ Listener l; general = std::to_string(l.port); }
	bool has_general = false;
	Src z = h.block(0);
	auto tell = [&](const std::string &cmd) { return r.run(z, 3, cmd, "", "", false); };
	auto find = [&](const std::string &n) -> Auto * { for (auto &x : own) if (!x.gone && low(x.name) == low(n)) return &x; return nullptr; };
	auto clients = [&](const std::string &n) {
		Strs g = r.run(z, 3, "NETWORK info " + n, "", "", false, true);
		size_t i = std::find(g.begin(), g.end(), "Clients:") - g.begin();
		return i >= g.size() ? 0 : (int)(g.size() - i - 1);
	};
	int added = 0, in = 0;
	while (!s.empty() && own.size() < 9) {
		Src o = s.block(6);
		static const Strs names = {"foo", "bar", "Foo", "baz", "x.y", "caf\xc3\xa9"};
		switch (o.range(8)) {
		case 0: case 1: case 2: {
			std::string n = o.pick(names);
			if (find(n)) break;
			bool want = on && !has_general;
			if (want) { port++; if (!free_port(port)) discard(c, "the port is in use"); }
			tell("ADDNETWORK " + n);
			own.push_back({n, want ? port : 0, want, 0, false});
			added++;
			break;
		}
		case 3: case 4: {                                // a client comes
			if (own.empty()) break;
			Auto &x = own[o.range(own.size())];
			if (!x.open || x.gone) break;
			int fd = reach(x.port);
			if (fd < 0) fail(c, "reach", "nothing listens on port %d for network %s", x.port, x.name.c_str());
			PeerP p = std::make_shared<Peer>(fd);
			bool right = secret ? !o.chance(1, 3) : true;
			c.log("a client connects to port %d%s", x.port, right ? "" : ", with the wrong password");
			p->line(right ? "PASS geheim" : "PASS geraden");
			pump_until([&] { return p->lines.size() > 0 || p->eof; }, 1000);
			p->line("NICK you");
			p->line("USER you a a :You");
			p->line("PING :x");
			pump_until([&] { return p->eof || (right ? clients(x.name) > x.clients : p->lines.size() >= 3); }, 1000);
			if (right) {
				x.clients++;
				in++;
				bool welcome = false;
				for (auto &l : p->lines) if (msg(l).a[0] == "001") { welcome = true; if (msg(l).origin != x.name && msg(l).origin.find("ctrlproxy") == std::string::npos) c.tag("origin " + msg(l).origin); }
				(void)welcome;
				if (p->eof) fail(c, "client", "the client on port %d was disconnected: %s", x.port, show(p->lines).c_str());
				keep.push_back(p);
			} else p->close();
			pump();
			break;
		}
		case 5: {
			bool any = false;
			if (has_general || !o.chance(1, 3)) break;
			tell("STARTLISTENER 127.0.0.1:" + general + " pw");
			any = true;
			has_general = any;
			break;
		}
		case 6: {
			if (own.empty()) break;
			Auto &x = own[o.range(own.size())];
			if (!x.open || x.gone) break;
			Strs g = tell("STOPLISTENER " + std::to_string(x.port));
			if (g != Strs{"1 listeners stopped"}) fail(c, "stop", "stopping the listener on port %d: %s", x.port, show(g).c_str());
			x.open = false;
			break;
		}
		case 7: {
			if (own.empty()) break;
			Auto &x = own[o.range(own.size())];
			std::string b = o.pick(names);
			if (x.gone || find(b)) break;
			tell("NETWORK rename " + x.name + " " + b);
			x.name = b;
			break;
		}
		}
		Strs w, g = r.run(z, 3, "LISTLISTENER", "", "", false, true);
		for (auto &x : own) if (x.open) w.push_back(":" + std::to_string(x.port) + " (" + x.name + ")");
		if (has_general) w.push_back("127.0.0.1:" + general);
		std::sort(w.begin(), w.end());
		std::sort(g.begin(), g.end());
		if (g != w) fail(c, "list", "the listeners are %s instead of %s", show(g).c_str(), show(w).c_str());
		for (auto &x : own) {
			int k = clients(x.name);
			if (k != x.clients) fail(c, "attached", "network %s has %d clients instead of %d", x.name.c_str(), k, x.clients);
		}
		for (auto &x : own) if (x.port && !x.open && free_port(x.port) == false) { int fd = reach(x.port); if (fd >= 0) { ::close(fd); fail(c, "open", "port %d is still open", x.port); } }
		for (auto &x : own) if (x.open) { int fd = reach(x.port); if (fd < 0) fail(c, "reach", "nothing listens on port %d for network %s", x.port, x.name.c_str()); struct linger lg = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg); ::close(fd); pump(); }
		for (int k = 1; k < 3; k++) if (int fd = reach(port + k); fd >= 0) { ::close(fd); fail(c, "more", "something listens on port %d", port + k); }
	}
	close_all_peers();
	if (added >= 2 && in >= 1) c.nontrivial();
}

Property the_property = {
	"P21",
	"three commands changed something (facet commands); five commands were given (fuzz); two networks were added and a client came to the listener of one (automatic)",
	{"DIE is not given", "the order and wording of complaints about a refused setting are not laid down", "administration logging off"},
	{
		{"commands", commands, 8, 14, 40, 5000, 60000, 1},
		{"fuzz", fuzz, 24, 12, 30, 3000, 40000, 1},
		{"automatic", automatic, 10, 6, 24, 800, 8000, 1},
	}};
