// P05: nothing a server or a client sends crashes the proxy or stops it from serving.
#include "world.h"

static std::string config(Src &s)
{
	std::string d = scratch();
	std::string c = "[global]\nautosave=false\n";
	uint32_t f = s.byte() | s.byte() << 8;
	if (f & 1) c += "logging=irssi\nlogdir=" + d + "/logs\n";
	else if (f & 2) {
		c += "logging=custom\nlogfilename=" + d + "/clog/%N/%@\n";
		for (auto k : {"nickchange", "topic", "notopic", "part", "join", "msg", "notice", "action", "kick", "quit", "mode"}) c += std::string("log-format-") + k + "=%Y %n %u %m %t %c %p %r %s %S %% %q\n";
	}
	if (f & 4) c += "admin-user=ctrlproxy\n";
	c += std::string("replication=") + (f & 8 ? f & 16 ? "highlight" : "simple" : f & 16 ? "lastdisconnect" : "none") + "\n";
	c += std::string("report-time=") + (f & 32 ? "always" : f & 64 ? "replication" : "never") + "\n";
	c += "max-who-age=100\n";
	if (f & 128) c += "auto-away-enable=true\nauto-away-time=60\nauto-away-message=gone\nauto-away-nick=meaway\n";
	if (f & 256) c += "motd-file=" + d + "/motd\n";
	if (f & 512) c += "learn-nickserv=false\n";
	if (f & 1024) c += "default-client-charset=ISO-8859-1\n";
	write_file(d + "/motd", "line one\n%s %n\n\nlast");
	return c;
}

static const Strs SCMD = {"JOIN", "PART", "KICK", "QUIT", "TOPIC", "NICK", "PRIVMSG", "NOTICE", "MODE", "PING", "PONG", "ERROR", "INVITE", "WALLOPS", "KILL",
	"001", "002", "004", "005", "221", "301", "302", "303", "305", "306", "311", "312", "314", "315", "317", "318", "319", "321", "322", "323", "324", "329", "331", "332", "333", "346", "347", "348", "349", "351", "352", "353", "366", "367", "368", "369", "371", "372", "375", "376", "391", "401", "403", "404", "421", "422", "431", "432", "433", "437", "441", "451", "461", "471", "473", "475", "482", "501", "join", "", "0", "999", "1000", "-1", "3.3"};
static const Strs ARGS = {"me", "#one", "#Two[x]", "bob", "alice", "*", "=", "", "@bob", "+", "-", "+o", "-b+k", "#one,#Two[x]", "me,bob", "bob=+u@h", "*!*@*", "0 Real Name", "\001PING 12\001", "\001VERSION\001", "\001", "\001\001", "\001ACTION waves\001", "\001ACTION", "\001DCC SEND x 1 2 3\001", "\001CLIENTINFO PING\001", "\001TIME\001", "\001FINGER", "\001PING\001", "%s%n", "caf\xc3\xa9", "\xff\xfe", "me: hello", "123456789012", "irc.test", "NickServ", "IDENTIFY secret", "identify", "This nickname is registered", "\xe2\x80\xa9x", ":x", "0", "-1"};
static const Strs ORGS = {"irc.test", "bob!u@h", "alice!~u@h1.example", "me!myident@my.host", "", "me", "bob", "NickServ!s@services", "@x", "!u@h", "a!b", "x@y", "\xff!\xfe@\xfd"};
static const Strs CCMD = {"PRIVMSG", "NOTICE", "JOIN", "PART", "MODE", "TOPIC", "NAMES", "WHO", "WHOIS", "WHOWAS", "USERHOST", "ISON", "NICK", "USER", "PASS", "PING", "PONG", "AWAY", "LIST", "INVITE", "KICK", "CTRLPROXY", "CONNECT", "MOTD", "VERSION", "LUSERS", "STATS", "LINKS", "TIME", "ADMIN", "INFO", "QUOTE", "privmsg", "OPER", "TRACE", "SQUERY", "", "BOGUS"};
static const Strs CARGS = {"#one", "me", "bob", "ctrlproxy", "CTRLPROXY", "", "*", "b", "+b", "#one,#Two[x]", "hello", "\001PING 1\001", "\001VERSION\001", "\001ACTION x\001", "\001", "NickServ", "IDENTIFY secret", "identify me secret", "GHOST me pw", "help", "help set", "listnetwork", "detach", "backlog", "echo hi", "dumpjoinedchannels", "networkinfo", "charset", "set", "set report-time always", "unset admin-user", "set auto-away-message I am gone", "set replication simple", "unset replication", "set motd-file", "unset default-nick", "set admin-log true", "listnetworks", "network list", "network info net", "network add other", "network rename other third", "connect net", "disconnect net", "nextserver net", "nextserver", "disconnect", "cycle", "addserver other x pw", "connect other", "startlistener 0 pw", "startlistener 127.0.0.1:0 pw net", "stoplistener 0", "listlistener", "charset latin1", "charset bogus", "backlog #one", "echo", "set", "unset", "foo\xff" "bar", "#", "x y z", ":z", "%s%n", "0", "99999999999"};

// commands that end the proxy or remove the network by request, or write to a path of their own
static bool stops_proxy(std::string l)
{
	for (auto &ch : l) ch = tolower((unsigned char)ch);
	for (auto w : {"die", "abort", "delnetwork", "network del", "network remove", "saveconfig "}) if (l.find(w) != std::string::npos) return true;
	return false;
}

static std::string junk_line(Src &o, const Strs &cmds, const Strs &args, bool origin)
{
	std::string l;
	if (origin && o.chance(7, 8)) l = ":" + (o.chance(1, 16) ? gen_text(o, 8) : o.pick(ORGS)) + " ";
	l += o.chance(1, 40) ? gen_text(o, 6) : o.pick(cmds);
	uint32_t k = o.range(o.chance(1, 10) ? 18 : 7);
	for (uint32_t i = 0; i < k; i++) {
		std::string w = o.chance(1, 12) ? gen_text(o, 8) : o.pick(args);
		if (o.chance(1, 60)) w = std::string(100 + o.range(600), 'y');
		if (w.find(' ') != std::string::npos || w.empty() || w[0] == ':' || (i + 1 == k && o.chance(1, 2))) { l += " :" + w; if (o.chance(1, 2)) break; }
		else l += " " + w;
	}
	return l;
}

// what a server would send, cut short or with a word replaced
static const std::vector<Strs> WHOLE = {
	{"JOIN", "#one"}, {"PART", "#one", "bye"}, {"KICK", "#one", "bob", "out"}, {"KICK", "#one", "me", "out"}, {"MODE", "#one", "+o-v", "bob", "me"}, {"MODE", "#one", "+kl-b", "key", "5", "*!*@*"}, {"MODE", "me", "+i-w"},
	{"TOPIC", "#one", "a topic"}, {"NICK", "bob2"}, {"PRIVMSG", "#one", "hello"}, {"INVITE", "me", "#one"}, {"PING", "x", "y"},
	{"001", "me", "Welcome"}, {"004", "me", "irc.test", "v1", "iw", "bklov"}, {"005", "me", "PREFIX=(ov)@+", "CHANMODES=b,k,l,imnpst", "are supported"}, {"221", "me", "+i"}, {"301", "me", "bob", "gone"}, {"302", "me", "bob=+u@h alice*=-u@h"},
	{"324", "me", "#one", "+kl", "key", "5"}, {"329", "me", "#one", "1234567890"}, {"331", "me", "#one", "No topic"}, {"332", "me", "#one", "a topic"}, {"333", "me", "#one", "bob", "1234567890"},
	{"346", "me", "#one", "*!*@i", "bob", "12345"}, {"347", "me", "#one", "End"}, {"348", "me", "#one", "*!*@e", "bob", "12345"}, {"349", "me", "#one", "End"}, {"367", "me", "#one", "*!*@b", "bob", "12345"}, {"368", "me", "#one", "End"},
	{"352", "me", "#one", "u", "h", "irc.test", "bob", "H@", "0 Real Name"}, {"315", "me", "#one", "End"}, {"353", "me", "=", "#one", "@bob +alice me"}, {"366", "me", "#one", "End"}, {"305", "me", "back"}, {"306", "me", "away"},
	{"376", "me", "End"}, {"421", "me", "FOO", "Unknown"}, {"433", "me", "bob", "in use"}, {"451", "*", "not registered"}, {"464", "*", "bad password"}, {"ERROR", "closing"}, {"NOTICE", "me", "This nickname is registered"},
};

static std::string cut_line(Src &o)
{
	Strs a = o.pick(WHOLE);
	a.resize(1 + o.range(a.size()));
	if (a.size() > 1 && o.chance(1, 3)) a[1 + o.range(a.size() - 1)] = o.pick(ARGS);
	std::string l = ":" + o.pick(Strs{"irc.test", "irc.test", "bob!u@h", "me!myident@my.host", "me", ""}) + " ";
	if (l == ": ") l = "";
	for (size_t i = 0; i < a.size(); i++) {
		bool last = i && (a[i].empty() || a[i][0] == ':' || a[i].find(' ') != std::string::npos || (i + 1 == a.size() && o.chance(1, 2)));
		l += (i ? last ? " :" : " " : "") + a[i];
		if (last) break;
	}
	return l;
}

struct Rig {
	struct irc_network *n;
	PeerP srv;
	std::vector<PeerP> cl;
	World *w;
};

static void probe(Rig &r, Ctx &c)
{
	// a line in each direction, and a new client, must still get through
	r.srv->take();
	std::string t = "probe" + std::to_string(rand() % 1000000);
	PeerP x = attach(r.n, "probe");
	bool welcome = false, got = false;
	auto seen = [&](Peer &p, bool &flag, const std::string &t) { for (auto &l : p.take()) if (l.find(t) != std::string::npos) flag = true; return flag; };
	seen(*x, welcome, " 001 ");
	if (!welcome) fail(c, "no-welcome", "a new client is not welcomed any more%s", x->eof ? " (connection closed)" : "");
	r.srv->line(":zed!z@z.example PRIVMSG #nowhere :" + t);
	pump_until([&] { return seen(*x, got, t); }, 1000);
	if (!got) fail(c, "no-delivery", "a message from the server does not reach a new client any more");
	x->line("WALLOPS :" + t);
	got = false;
	pump_until([&] { return seen(*r.srv, got, "WALLOPS"); }, 1000);
	if (!got) fail(c, "no-forward", "a command from a new client does not reach the server any more");
	x->close();
	pump();
}

static void run(Src &s, Ctx &c, bool server, bool client)
{
	Src h = s.block(16);
	std::string cfg = config(h);
	c.log("%s", q(cfg).c_str());
	struct global *g = start_global(cfg);
	if (g->config->auto_away.enabled) auto_away_add(g, (struct auto_away_config *)&g->config->auto_away);
	World w(h, "me");
	Rig r;
	r.w = &w;
	struct network_config *nc = add_network_config("net", "me");
	Listener lst;
	add_tcp_server(nc, "127.0.0.1", lst.port);
	r.n = start_network(nc, r.srv);
	auto lost = [&] {
		auto st = r.n->connection.state;
		return st == NETWORK_CONNECTION_STATE_NOT_CONNECTED || st == NETWORK_CONNECTION_STATE_RECONNECT_PENDING;
	};
	pump();
	uint32_t nclients = h.range(3);
	if (client && !nclients) nclients = 1;
	auto pickc = [&](Src &o) -> PeerP {
		if (r.cl.empty()) r.cl.push_back(attach_raw(r.n));
		return r.cl[o.range(r.cl.size())];
	};
	bool early = h.chance(1, 4);          // lines before the login is complete
	if (!early) for (auto &l : w.welcome()) r.srv->line(l);
	pump();
	for (uint32_t i = 0; i < nclients; i++) r.cl.push_back(attach(r.n, i ? "me" : "cl"));
	int n = 0;
	bool asked = false;                   // a client asked to end the connection
	auto news = [&](Src *o) {
		pump();
		pump_until([&] { return r.n->connection.state != NETWORK_CONNECTION_STATE_CONNECTING; }, 2000);
		PeerP x = lst.latest();
		if (!x) return;
		r.srv = x;
		c.log("-- reconnected");
		r.srv->autopong = !o || o->chance(7, 8);
		early = !o || o->chance(1, 4);
		if (!early) for (auto &l : w.welcome()) r.srv->line(l);
		pump();
	};
	while (!s.empty()) {
		Src o = s.block(24);
		uint32_t k = o.range(16);
		if (!r.srv) {
			// the connection was lost; sometimes the proxy gets it back
			if (r.n->connection.state == NETWORK_CONNECTION_STATE_RECONNECT_PENDING && o.chance(1, 2)) {
				advance(r.n->reconnect_interval + 1);
				news(&o);
				if (!r.srv) fail(c, "no-reconnect", "no new connection to the server after the reconnect interval");
			} else k = 15;
		} else if (o.chance(1, 60)) { c.log("-- the server closes the connection"); r.srv->close(); r.srv = nullptr; pump(); k = 15; }
		news(&o);
		if (r.n->connection.state == NETWORK_CONNECTION_STATE_NOT_CONNECTED && !asked) fail(c, "gave-up", "the connection was lost and the proxy does not plan to connect again");
		if (r.srv && lost()) { c.log("-- the proxy closed the connection"); r.srv = nullptr; }
		if (!r.srv && k < 12 && (k < 3 || !client)) continue;
		if (!r.srv && k >= 5 && server) k = 15;
		if (k < 3 && !early) for (auto &l : w.step(o)) { c.log("S> %s", q(l).c_str()); r.srv->line(l); n++; }
		else if (k == 3) { long t = o.pick(std::vector<long>{1, 10, 61, 301, 4000}); c.log("-- %ld s pass", t); advance(t); }
		else if (k == 4) { if (r.cl.size() < 4) { c.log("-- a client attaches"); r.cl.push_back(o.chance(1, 2) ? attach(r.n, o.chance(1, 2) ? "me" : "other") : attach_raw(r.n)); } }
		else if (k == 5 && !r.cl.empty()) { size_t i = o.range(r.cl.size()); c.log("-- client %zu goes away", i); r.cl[i]->close(); r.cl.erase(r.cl.begin() + i); }
		else if (server && r.srv && (k < 12 || !client)) {
			std::string l = o.chance(1, 24) ? gen_raw(o, 60) : o.chance(1, 3) ? cut_line(o) : junk_line(o, SCMD, ARGS, true);
			c.log("S> %s", q(l).c_str());
			r.srv->send(l + (o.chance(1, 12) ? "\n" : "\r\n"));
			n++;
		} else if (client) {
			std::string l = o.chance(1, 24) ? gen_raw(o, 60) : junk_line(o, CCMD, CARGS, o.chance(1, 8));
			PeerP p = pickc(o);
			if (stops_proxy(l)) continue;
			c.log("C> %s", q(l).c_str());
			std::string low = l;
			for (auto &ch : low) ch = tolower((unsigned char)ch);
			if (low.find("disconnect") != std::string::npos) asked = true;
			p->send(l + (o.chance(1, 12) ? "\n" : "\r\n"));
			n++;
		}
		pump();
		for (auto &p : r.cl) p->take();
		if (r.srv) r.srv->take();
		std::string d = r.n->external_state ? state_sound(r.n->external_state) : "";
		if (!d.empty()) fail(c, "unsound", "%s", d.c_str());
	}
	news(NULL);
	if (!r.srv || lost()) {
		if (r.n->connection.state == NETWORK_CONNECTION_STATE_NOT_CONNECTED) connect_network(r.n);
		else advance(r.n->reconnect_interval + 1);
		r.srv = nullptr;
		news(NULL);
		if (!r.srv) fail(c, "no-reconnect", "no new connection to the server");
		early = true;
	}
	if (early) { r.srv->line(":irc.test 001 me :hi"); r.srv->line(":irc.test 422 me :no motd"); pump(); }
	r.srv->send("\r\n");
	pump();
	probe(r, c);
	close_all_peers();
	if (n >= 5) c.nontrivial();
}

static void server(Src &s, Ctx &c) { run(s, c, true, false); }
static void client(Src &s, Ctx &c) { run(s, c, false, true); }
static void both(Src &s, Ctx &c) { run(s, c, true, true); }

Property the_property = {
	"P05",
	"at least 5 generated lines were sent",
	{"sanitizer reports, failed assertions and aborts count as crashes", "commands that stop the proxy by request are not sent"},
	{
		{"server", server, 16, 24, 30, 6000, 60000, 20},
		{"client", client, 16, 24, 30, 6000, 60000, 20},
		{"both", both, 16, 24, 40, 4000, 40000, 20},
	}};
