// P17: passwords for nicks are learnt, kept and used for the right nick on the right network.
#include "world.h"
#include "internals.h"
#include "keyfile.h"
#include <sys/stat.h>

struct Key { std::string nick, pass, net; bool any; bool operator==(const Key &o) const { return nick == o.nick && pass == o.pass && any == o.any && (any || net == o.net); } };
static std::vector<Key> from_list(GList *l)
{
	std::vector<Key> r;
	for (; l; l = l->next) { struct keyfile_entry *e = (struct keyfile_entry *)l->data; r.push_back({e->nick, e->pass, e->network ? e->network : "", e->network == NULL}); }
	return r;
}
static GList *to_list(const std::vector<Key> &v)
{
	GList *l = NULL;
	for (auto &e : v) { struct keyfile_entry *k = g_new0(struct keyfile_entry, 1); k->nick = g_strdup(e.nick.c_str()); k->pass = g_strdup(e.pass.c_str()); k->network = e.any ? NULL : g_strdup(e.net.c_str()); l = g_list_append(l, k); }
	return l;
}
static std::string show(const Key &e) { return q(e.nick) + "/" + q(e.pass) + "/" + (e.any ? "any" : q(e.net)); }

static std::string field(Src &o, const char *first_not)
{
	std::string r = o.chance(1, 3) ? o.pick(Strs{"me", "a b", "\xff\xe9", "\xe2\x80\xa9x", "*x", "a\rb", "%s", "", "#x", ";y", "x\r"}) : "";
	if (r.empty()) for (uint32_t k = o.range(12); k--;) { char ch = 1 + o.range(255); if (ch != '\n' && ch != '\t') r += ch; }
	if (o.chance(1, 40)) r += std::string(o.range(5000), 'L');
	while (!r.empty() && strchr(first_not, r[0])) r.erase(0, 1);
	return r;
}

static void file(Src &s, Ctx &c)
{
	char comment = "#;"[s.block(1).range(2)];
	char head[2] = {comment, 0};
	std::string path = scratch() + "/keys", header = std::string(head) + " about\n" + head + "\n";
	std::vector<Key> v;
	while (!s.empty()) {
		Src o = s.block(16);
		Key e{field(o, head), field(o, ""), field(o, ""), o.chance(1, 3)};
		if (e.net == "*") e.any = true;
		v.push_back(e);
		c.log("%s", show(e).c_str());
	}
	umask(0);
	GList *l = to_list(v), *back = NULL;
	if (!keyfile_write_file(l, header.c_str(), path.c_str())) fail(c, "write", "could not be written");
	struct stat st;
	if (stat(path.c_str(), &st) == 0 && (st.st_mode & 077)) fail(c, "mode", "passwords readable by others: mode %o", st.st_mode & 0777);
	if (!keyfile_read_file(path.c_str(), comment, &back)) fail(c, "read", "could not be read");
	auto r = from_list(back);
	for (size_t i = 0; i < v.size() || i < r.size(); i++)
		if (i >= v.size() || i >= r.size() || !(v[i] == r[i])) fail(c, "entries", "entry %zu is %s, should be %s", i, i < r.size() ? show(r[i]).c_str() : "missing", i < v.size() ? show(v[i]).c_str() : "nothing");
	// a shorter one written over it leaves nothing of the longer one
	if (v.size() > 1) {
		v.resize(v.size() / 2);
		keyfile_write_file(to_list(v), header.c_str(), path.c_str());
		back = NULL;
		if (!keyfile_read_file(path.c_str(), comment, &back) || !(from_list(back) == v)) fail(c, "again", "%zu entries after %zu were written", from_list(back).size(), v.size());
	}
	if (r.size() >= 2) c.nontrivial();
}

static void any_file(Src &s, Ctx &c)
{
	std::string t;
	size_t good = 0;
	std::vector<Key> want;
	while (!s.empty()) {
		Src o = s.block(12);
		std::string l;
		switch (o.range(6)) {
		default: { Key e{"n" + std::to_string(want.size()), "p" + std::to_string(o.range(100)), o.pick(Strs{"net", "*", "x"}), false}; e.any = e.net == "*"; l = e.nick + "\t" + e.pass + (e.any && o.chance(1, 2) ? "" : "\t" + e.net); want.push_back(e); good++; break; }
		case 2: l = "# comment\twith\ttabs"; break;
		case 3: l = o.pick(Strs{"", "nothing", "#", " "}); break;
		}
		c.log("%s", q(l).c_str());
		t += l;
		if (!s.empty() || o.chance(1, 2)) t += "\n";
	}
	write_file(scratch() + "/keys", t);
	GList *back = NULL;
	if (!keyfile_read_file((scratch() + "/keys").c_str(), '#', &back)) fail(c, "read", "could not be read");
	auto r = from_list(back);
	for (size_t i = 0; i < want.size() || i < r.size(); i++)
		if (i >= want.size() || i >= r.size() || !(want[i] == r[i])) fail(c, "entries", "entry %zu is %s, should be %s", i, i < r.size() ? show(r[i]).c_str() : "missing", i < want.size() ? show(want[i]).c_str() : "nothing");
	back = NULL;
	if (keyfile_read_file((scratch() + "/nothing").c_str(), '#', &back) || back) fail(c, "read", "a file that is not there was read");
	if (good >= 2) c.nontrivial();
}

// ---- learning and using ---------------------------------------------------

static std::string fold(std::string s) { for (auto &x : s) { if (x >= 'A' && x <= 'Z') x += 32; else if (x == '[') x = '{'; else if (x == ']') x = '}'; else if (x == '\\') x = '|'; else if (x == '~') x = '^'; } return s; }

static void live(Src &s, Ctx &c)
{
	Src h = s.block(24);
	bool learn = !h.chance(1, 8);
	start_global("[global]\nautosave=false\nreport-time=never\nreplication=none\n" + (learn ? std::string() : "learn-nickserv=false\n"));
	Strs nicks{"me", "Me", "alt", "z[x]", "Z{x}", "bob"};
	std::map<std::string, std::string> specific, any;
	std::vector<Key> init;
	for (uint32_t i = h.range(5); i--;) {
		Key e{h.pick(nicks), "f" + std::to_string(i) + h.pick(Strs{"", " two", "\xe9"}), h.pick(Strs{"net", "NET", "other", "", "net2", "ne"}), false};
		e.any = e.net.empty();
		std::string k = fold(e.nick);
		// the first line for a nick counts
		if (e.any) any.emplace(k, e.pass); else if (fold(e.net) == "net") { if (specific.count(k)) continue; specific[k] = e.pass; }
		init.push_back(e);
		c.log("known: %s", show(e).c_str());
	}
	G->nickserv_nicks = to_list(init);
	struct network_config *nc = add_network_config("net", "me");
	nc->ignore_first_nick = -1;
	PeerP srv;
	struct irc_network *n = start_network(nc, srv);
	std::string me;
	auto known = [&](const std::string &nick, std::string &p) {
		auto k = fold(nick);
		if (specific.count(k)) { p = specific[k]; return true; }
		if (any.count(k)) { p = any[k]; return true; }
		return false;
	};
	size_t used = 0, learnt = 0;
	auto secrets = [&](const Strs &ls) { Strs r; for (auto &l : ls) { Msg m = msg(l); if (m.arg(1) == "NickServ" || m.a[0] == "NICK") r.push_back(l); } return r; };
	auto expect = [&](const Strs &want, const char *what) {
		pump();
		Strs g = secrets(srv->take());
		if (g != want) fail(c, what, "the server got %zu lines (%s), should get %zu (%s)", g.size(), g.empty() ? "" : q(g[0]).c_str(), want.size(), want.empty() ? "" : q(want[0]).c_str());
		used += want.size();
	};
	bool identified = false;
	auto login = [&] {
		pump();
		std::string nick;
		for (auto &l : srv->take()) if (msg(l).a[0] == "NICK") nick = msg(l).arg(1);
		if (nick.empty()) fail(c, "login", "no nick at login");
		me = nick;
		srv->line(":irc.test 001 " + me + " :Welcome");
		srv->line(":irc.test 005 " + me + " CHANTYPES=# PREFIX=(ov)@+ CHANMODES=b,k,l,imnpst CASEMAPPING=rfc1459 NICKLEN=9 :are supported");
		if (identified) srv->line(":" + me + " MODE " + me + " +R");
		srv->line(":irc.test 376 " + me + " :End of MOTD");
		std::string p;
		expect(!identified && known(me, p) ? Strs{"PRIVMSG NickServ :IDENTIFY " + p} : Strs{}, "login");
	};
	login();
	PeerP cl = attach(n, me);
	pump();
	cl->take();
	std::string attempt = me;   // what was tried last, also at login
	size_t pw = 0;
	while (!s.empty()) {
		Src o = s.block(8);
		cl->take();
		switch (o.range(10)) {
		case 0: case 1: {   // the user identifies
			std::string p = o.chance(1, 3) ? "same" : "p" + std::to_string(pw++) + o.pick(Strs{"", "%s", "\xff", "'", ":x"});
			bool two = o.chance(1, 5);
			if (two) p += " more";
			std::string l = o.pick(Strs{"PRIVMSG NickServ :IDENTIFY ", "PRIVMSG nickserv :identify ", "privmsg NICKSERV :Identify ", "NOTICE NickServ :IDENTIFY "}) + p;
			bool ns = !two && p[0] != ':' && o.chance(1, 4);
			if (ns) l = "NS IDENTIFY " + p;
			c.log("client: %s", q(l).c_str());
			cl->line(l);
			pump();
			Strs g = srv->take();
			if (g != Strs{l}) fail(c, "forward", "the server got %s", g.empty() ? "nothing" : q(g[0]).c_str());
			std::string old;
			if (learn && !(known(me, old) && old == p)) { specific[fold(me)] = p; learnt++; }
			break;
		}
		case 2: {   // not for NickServ, or not a password
			std::string l = o.pick(Strs{"PRIVMSG bob :IDENTIFY secret", "PRIVMSG NickServ :HELP IDENTIFY", "PRIVMSG NickServ :IDENTIFY", "PRIVMSG #c :IDENTIFY x", "NOTICE ChanServ :IDENTIFY #c x", "PRIVMSG NickServ2 :IDENTIFY y", "PRIVMSG NickServ :IDENTIFYX y", "NS GHOST x y"});
			c.log("client: %s", q(l).c_str());
			cl->line(l);
			pump();
			srv->take();
			break;
		}
		case 3: case 4: {   // the user wants another nick
			attempt = o.pick(nicks);
			if (fold(attempt) == fold(me)) { attempt = "alt" == me ? "me" : "alt"; }
			c.log("client: NICK %s", attempt.c_str());
			cl->line("NICK " + attempt);
			expect({"NICK " + attempt}, "forward");
			used--;
				break;
		}
		case 5: case 6: {   // it is in use
			std::string nick = attempt.empty() || o.chance(1, 6) ? o.pick(nicks) : attempt;
			if (fold(nick) == fold(me)) break;
			bool ours = !attempt.empty() && fold(nick) == fold(attempt);
			c.log("server: %s is in use", nick.c_str());
			srv->line(":irc.test 433 " + me + " " + nick + " :Nickname is already in use");
			std::string p;
			// the user is told; taking the nick back for him is optional
			pump();
			Strs g = secrets(srv->take());
			if (!g.empty() && !(ours && known(attempt, p) && g == Strs{"PRIVMSG NickServ :GHOST " + attempt + " " + p, "NICK " + attempt})) fail(c, "in use", "the server got %s", q(g[0]).c_str());
			break;
		}
		case 7: {   // it is given, or the server chooses a nick
			std::string to = attempt.empty() || o.chance(1, 4) ? o.pick(nicks) : attempt;
			if (to == me) break;
			bool other = o.chance(1, 4) && fold(to) != fold(me);
			c.log("server: %s is now %s", other ? "bob" : me.c_str(), to.c_str());
			srv->line(":" + (other ? std::string("carl") : me) + "!u@h NICK " + to);
			std::string p;
			if (!other) me = to;
			if (!other && !attempt.empty() && fold(to) == fold(attempt) && !identified && known(to, p)) { expect({"PRIVMSG NickServ :IDENTIFY " + p}, "identify"); c.tag("identified"); }
			else expect({}, "identify");
			break;
		}
		case 8: {
			if (o.chance(1, 2)) {
				identified = !identified;
				c.log("%s", identified ? "identified" : "no longer identified");
				srv->line(":" + me + " MODE " + me + (identified ? " +R" : " -R"));
				expect({}, "mode");
				break;
			}
			if (o.chance(1, 3)) {
				
				c.log("the server comes back");
				srv->close();
				pump();
				identified = o.chance(1, 4);
				srv = connect_server(n);
				// the nick asked for at login is what was tried last
				login();
				attempt = me;
						cl->take();
				break;
			}
			bool l = o.chance(1, 2);
			c.log("learning %s", l ? "on" : "off");
			cl->line(std::string("CTRLPROXY SET learn-nickserv ") + (l ? "true" : "false"));
			learn = l;
			pump();
			break;
		}
		case 9: {
			c.log("saved and loaded");
			auto before = from_list(G->nickserv_nicks);
			if (!nickserv_save(G, scratch().c_str())) fail(c, "save", "not saved");
			G->nickserv_nicks = NULL;
			g_free(G->config->config_dir);
			G->config->config_dir = g_strdup(scratch().c_str());
			gboolean ok = nickserv_load(G);
			if (ok != !before.empty()) fail(c, "save", before.empty() ? "there is a file although nothing is known" : "not loaded");
			if (!(from_list(G->nickserv_nicks) == before)) fail(c, "save", "%zu passwords after loading, %zu before", from_list(G->nickserv_nicks).size(), before.size());
			c.tag("saved");
			break;
		}
		}
		std::string p;
		auto now = from_list(G->nickserv_nicks);
		for (auto &x : nicks) {
			const Key *k = nullptr;
			for (auto &e : now) if (fold(e.nick) == fold(x) && ((e.any && !k) || (!e.any && (!k || k->any) && fold(e.net) == "net"))) k = &e;
			bool w = known(x, p);
			if ((k != NULL) != w || (k && p != k->pass)) fail(c, "known", "the password known for %s is %s, should be %s", x.c_str(), k ? q(k->pass).c_str() : "none", w ? q(p).c_str() : "none");
		}
	}

	close_all_peers();
	if (learnt && used) c.nontrivial();
}

Property the_property = {
	"P17",
	"file, any: at least two entries; live: something learnt and something used",
	{"fields without tabs and line ends, which the file cannot hold", "of several lines for the same nick and network in a file written by hand the first counts", "a password is only used while a client is attached, except at login"},
	{
		{"file", file, 1, 16, 12, 4000, 40000, 20},
		{"any", any_file, 0, 12, 10, 2000, 20000, 20},
		{"live", live, 24, 8, 40, 4000, 50000, 1},
	}};
