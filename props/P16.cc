// P16: the proxy answers for the user exactly while nobody is attached.
#include "world.h"
#include "internals.h"

static const Strs CMDS = {"VERSION", "PING", "TIME", "FINGER", "CLIENTINFO", "SOURCE", "ACTION", "DCC", "X", "ERRMSG", "VERSIONS", "VERS", "TIM", "-"};
static std::string vary_case(Src &o, std::string s) { if (o.chance(1, 3)) for (auto &x : s) if (o.chance(1, 2)) x = tolower(x); return s; }
static std::string upper(std::string s) { for (auto &x : s) x = toupper(x); return s; }

static void extra(struct ctcp_handle *h, const char **args)
{
	char *a = g_strjoinv("|", (char **)args);
	ctcp_reply(h, "EXTRA", a, ctcp_get_nick(h), NULL);
	g_free(a);
}

static void answers(Src &s, Ctx &c)
{
	Src h = s.block(8);
	start_global("[global]\nautosave=false\nreport-time=never\nreplication=" + h.pick(Strs{"none", "simple", "lastdisconnect"}) + "\n");
	struct network_config *nc = add_network_config("net", "me");
	nc->ignore_first_nick = -1;
	std::string full = h.pick(Strs{"Full Name", "X", "J. \xc3\x96 User : yes", "a  b"});
	g_free(nc->fullname);
	nc->fullname = g_strdup(full.c_str());
	bool registered = h.chance(1, 3);
	if (registered) {
		static struct ctcp_handler hd;
		hd.name = g_strdup("EXTRA");
		hd.fn = extra;
		ctcp_register_handler(&hd);
	}
	PeerP srv;
	struct irc_network *n = start_network(nc, srv);
	auto login = [&] {
		pump();
		srv->line(":irc.test 001 me :Welcome");
		srv->line(":irc.test 005 me CHANTYPES=# PREFIX=(ov)@+ CHANMODES=b,k,l,imnpst NICKLEN=9 :are supported");
		srv->line(":irc.test 376 me :End of MOTD");
		srv->line(":me!user@my.host JOIN #c");
		pump();
		srv->take();
	};
	login();
	std::vector<PeerP> cls;
	bool again = false;
	size_t asked = 0, passed = 0, replies = 0;
	while (!s.empty()) {
		Src o = s.block(10);
		switch (o.range(16)) {
		default: {   // a request
			std::string cmd = vary_case(o, registered && o.chance(1, 5) ? "EXTRA" : o.pick(CMDS));
			std::string arg = o.chance(1, 2) ? "" : o.pick(Strs{"1234567", "a b", "a  b ", "PING", ":colon", "%s%n", "\xff\xfe", std::string(o.range(400), 'p')});
			std::string nick = o.pick(Strs{"bob", "alice", "me", "Bo[b]", "x"});
			int form = o.range(12);
			std::string origin = form == 0 ? "" : form == 1 ? ":" + nick + " " : form == 2 ? ":irc.test " : ":" + nick + "!u@h ";
			std::string body = "\1" + cmd + (arg.empty() && !o.chance(1, 8) ? "" : " " + arg) + "\1";
			bool good = !origin.empty();
			switch (o.range(12)) {
			case 0: body.pop_back(); good = false; break;                     // not closed
			case 1: body = o.pick(Strs{"\1", "\1\1", "\1 \1", "\1\1\1"}); good = false; break;
			case 2: body += "trailer"; break;
			}
			std::string l = origin + "PRIVMSG " + o.pick(Strs{"me", "#c", "ME"}) + " :" + body;
			c.log("%s", q(l).c_str());
			std::string to = origin.empty() ? "" : origin.substr(1, origin.find_first_of("! ") - 1);
			srv->line(l);
			pump();
			Strs up = srv->take();
			if (!cls.empty()) {
				if (!up.empty()) fail(c, "meddled", "the proxy answered %s although a client is attached", q(up[0]).c_str());
				for (size_t i = 0; i < cls.size(); i++) {
					Strs g = cls[i]->take();
					Strs want{l};
					if (origin.empty()) continue;
					// one's own messages come from the address a client has
					if (to == "me" && g.size() == 1 && g[0].rfind(":me", 0) == 0) g[0] = origin + g[0].substr(g[0].find(' ') + 1);
					if (g != want) fail(c, "passed", "client %zu got %s", i, g.empty() ? "nothing" : q(g[0]).c_str());
				}
				passed++;
				break;
			}
			if (!good || upper(cmd) == "ACTION") {
				// "\1 \1" has a command of no characters, which may be answered as unknown
				if (body == "\1 \1" && up.size() == 1) up.clear();
				if (!up.empty()) fail(c, "answered", "answered %s", q(up[0]).c_str());
				break;
			}
			if (up.size() != 1) fail(c, "answers", "%zu answers", up.size());
			Msg m = msg(up[0]);
			if (m.a.size() != 3 || m.a[0] != "NOTICE" || m.a[1] != to) fail(c, "answer", "answered %s", q(up[0]).c_str());
			std::string r = m.a[2];
			if (r.size() < 2 || r[0] != 1 || r.back() != 1) fail(c, "answer", "answered %s", q(up[0]).c_str());
			r = r.substr(1, r.size() - 2);
			if (r.find('\1') != std::string::npos) fail(c, "answer", "answered %s", q(up[0]).c_str());
			size_t sp = r.find(' ');
			std::string rc = r.substr(0, sp), ra = sp == std::string::npos ? "" : r.substr(sp + 1), C = upper(cmd);
			// a body with more in it ends where the first quoting character does
			bool ok;
			if (C == "PING") ok = rc == "PING" && ra == arg;
			else if (C == "TIME") { time_t t = vtime; std::string w = ctime(&t); w.pop_back(); ok = rc == "TIME" && ra == w; }
			else if (C == "FINGER") ok = rc == "FINGER" && ra == full;
			else if (C == "VERSION") ok = rc == "VERSION" && ra.rfind("ctrlproxy:", 0) == 0 && ra.find(ctrlproxy_version()) != std::string::npos;
			else if (C == "SOURCE") ok = rc == "SOURCE" && !ra.empty();
			else if (C == "EXTRA" && registered) { ok = rc == "EXTRA" && ra.rfind(cmd, 0) == 0 && ra.size() > to.size() && ra.compare(ra.size() - to.size(), to.size(), to) == 0; }
			else if (C == "CLIENTINFO") {
				std::set<std::string> all;
				std::string w;
				for (char ch : ra + " ") if (ch == ' ') { all.insert(w); w.clear(); } else w += ch;
				ok = rc == "CLIENTINFO";
				for (auto &x : Strs{"VERSION", "CLIENTINFO", "SOURCE", "PING", "FINGER", "TIME"}) ok = ok && all.count(x);
				ok = ok && all.count("EXTRA") == (size_t)registered && !all.count("DCC") && !all.count("");
			} else ok = rc == "ERRMSG";
			if (!ok) fail(c, "wrong", "answered %s", q(r).c_str());
			asked++;
			break;
		}
		case 8: case 9: {   // a reply is never answered
			std::string l = ":" + o.pick(Strs{"bob", "alice", "me"}) + "!u@h NOTICE me :" + o.pick(Strs{"\1PING 123\1", "\1VERSION x:y\1", "\1", "\1\1", "\1DCC REJECT\1", "\1PING", "\1ERRMSG\1"});
			bool orig = !o.chance(1, 8);
			if (!orig) l = l.substr(l.find(' ') + 1);
			c.log("%s", q(l).c_str());
			srv->line(l);
			pump();
			Strs up = srv->take();
			if (!up.empty()) fail(c, "reply", "a reply was answered: %s", q(up[0]).c_str());
			for (size_t i = 0; i < cls.size(); i++) { Strs g = cls[i]->take(); if (orig && g.size() != 1) fail(c, "passed", "client %zu got %zu lines for a reply", i, g.size()); }
			replies++;
			break;
		}
		case 10: case 11: if (cls.size() < 2) { c.log("a client attaches"); PeerP p = attach(n, "me"); pump(); p->take(); cls.push_back(p); srv->take(); break; } // fall through
		case 12: case 13: if (!cls.empty()) {
			size_t i = o.range(cls.size());
			c.log("client %zu leaves", i);
			if (o.chance(1, 2)) cls[i]->line("QUIT");
			else cls[i]->close();
			pump();
			cls[i]->close();
			cls.erase(cls.begin() + i);
			pump();
			srv->take();
		} break;
		case 14: if (!cls.empty()) {   // a client asks or answers
			size_t i = o.range(cls.size());
			std::string l = o.pick(Strs{"PRIVMSG bob :", "PRIVMSG #c :", "NOTICE bob :", "PRIVMSG bob :"}) + o.pick(Strs{"\1PING 123\1", "\1VERSION\1", "\1", "\1\1", "\1DCC SEND x 1 2\1", "\1PING"});
			c.log("client %zu: %s", i, q(l).c_str());
			cls[i]->line(l);
			pump();
			Strs up = srv->take();
			if (up != Strs{l}) fail(c, "forward", "the server got %s", up.empty() ? "nothing" : q(up[0]).c_str());
			for (auto &p : cls) p->take();
		} break;
		case 15: if (o.chance(1, 3)) {
			c.log("the server comes back");
			again = true;   // injected connections cannot be made by the proxy when its timer fires
			srv->close();
			pump();
			srv = connect_server(n);
			login();
			for (auto &p : cls) p->take();
		} else if (!again) { c.log("time passes"); advance(1 + o.range(100000)); for (auto &p : cls) p->take(); srv->take(); } break;
		}
	}
	close_all_peers();
	if (asked >= 2 && (passed || replies)) c.nontrivial();
	if (asked) c.tag("answered");
	if (passed) c.tag("passed on");
}

Property the_property = {
	"P16",
	"at least two requests answered, and one passed on or a reply received",
	{"\\001ACTION is not a request; an unknown one may be answered with an error of any text", "what a request without a sender looks like to clients is not judged"},
	{
		{"answers", answers, 8, 10, 40, 5000, 60000, 1},
	}};
