// P08: answers to queries reach the client that asked.
#include "world.h"
#include <deque>

struct Cl { PeerP p; std::string nick; int id; Strs want; std::set<std::string> may; };
struct Reply { int asker; std::string line; bool all; };   // all: other clients may see it as well

// codes that a command that is normally not answered may be answered with
static const std::map<std::string, std::set<std::string>> SILENT = {
	{"PRIVMSG", {"301", "411", "412", "404", "413", "407", "414", "401", "403", "505", "263"}},
	{"NOTICE", {"263"}},
	{"JOIN", {"461", "474", "473", "475", "471", "476", "470", "403", "479", "405", "263"}},
	{"PART", {"461", "403", "442", "263"}},
	{"KICK", {"461", "476", "441", "403", "482", "442", "263"}},
	{"NICK", {"431", "432", "433", "437", "484", "436", "438", "263"}},
	{"MODE", {"461", "501", "502", "441", "467", "482", "472", "477", "403", "479", "263"}},
	{"TOPIC", {"442", "461", "482", "477", "263"}},
	{"WALLOPS", {"461", "263"}},
	{"KILL", {"481", "461", "401", "483", "263"}},
};

struct Rig {
	struct irc_network *n;
	PeerP srv;
	std::vector<Cl> cl;
	std::deque<Reply> pend;
	std::set<std::string> silent;   // error codes of commands the server did not answer, since it last did
	int tag = 0;
	Strs up;
	bool trouble = false;
};

struct Query { std::string cmd; std::vector<Strs> answers; };

static Query query(Rig &r, Src &o)
{
	std::string t = "t" + std::to_string(r.tag++), p = ":irc.test ", ch = o.pick(Strs{"#one", "#Two", "#" + t});
	Strs many;
	uint32_t cnt = o.range(4);
	switch (o.range(34)) {
	case 0: many = {"311 me " + t + " id h.example * :Real " + t};
		if (o.chance(1, 2)) many.push_back("319 me " + t + " :@#one +#two");
		many.push_back("312 me " + t + " irc.test :Server");
		if (o.chance(1, 2)) many.push_back("301 me " + t + " :gone");
		if (o.chance(1, 3)) many.push_back("313 me " + t + " :is an IRC operator");
		if (o.chance(1, 2)) many.push_back("317 me " + t + " 12 1000000 :seconds idle, signon time");
		many.push_back("318 me " + t + " :End of /WHOIS list.");
		return {o.chance(1, 4) ? "WHOIS irc.test " + t : "WHOIS " + t, {many, {"401 me " + t + " :No such nick/channel", "318 me " + t + " :End of /WHOIS list."}, {"402 me " + t + " :No such server"}}};
	case 1: while (cnt--) many.push_back("352 me " + ch + " id h.example irc.test " + t + " H :0 Real");
		many.push_back("315 me " + ch + " :End of /WHO list. " + t);
		return {"WHO " + ch, {many, {"402 me " + t + " :No such server"}, {"263 me WHO :" + t}}};
	case 2: while (cnt--) many.push_back("353 me = " + ch + " :" + t + " bob @al");
		many.push_back("366 me " + ch + " :End of /NAMES list. " + t);
		return {"NAMES " + ch, {many}};
	case 3: if (o.chance(1, 2)) many.push_back("321 me Channel :Users  Name");
		while (cnt--) many.push_back("322 me #c" + std::to_string(cnt) + t + " 3 :topic");
		many.push_back("323 me :End of /LIST " + t);
		return {"LIST", {many, {"263 me LIST :try again " + t}, {"416 me :too many " + t}}};
	case 4: return {"TOPIC " + ch, {{"331 me " + ch + " :No topic is set " + t}, {"332 me " + ch + " :topic " + t}, {"332 me " + ch + " :topic " + t, "333 me " + ch + " bob 100" + t.substr(1)}, {"442 me " + ch + " :not on channel " + t}}};
	case 5: while (cnt--) { many.push_back("314 me " + t + " id h" + std::to_string(cnt) + " * :Real"); many.push_back("312 me " + t + " irc.test :Mon"); }
		if (many.empty()) many.push_back("406 me " + t + " :There was no such nickname");
		many.push_back("369 me " + t + " :End of WHOWAS");
		return {"WHOWAS " + t, {many}};
	case 6: while (cnt--) many.push_back("212 me CMD" + std::to_string(cnt) + " 1 2 " + t);
		many.push_back("219 me m :End of STATS " + t);
		return {"STATS m", {many, {"242 me :Server Up 1 day " + t, "219 me u :End of STATS"}, {"402 me x" + t + " :No such server"}}};
	case 7: return {"VERSION", {{"351 me ircd-1." + t + " irc.test :x"}}};
	case 8: while (cnt--) many.push_back("364 me irc.test hub" + std::to_string(cnt) + " :" + t);
		many.push_back("365 me * :End of LINKS " + t);
		return {"LINKS", {many}};
	case 9: return {"TIME", {{"391 me irc.test :today " + t}, {"402 me x :" + t}}};
	case 10: while (cnt--) many.push_back("205 me User c" + std::to_string(cnt) + " " + t);
		many.push_back("262 me irc.test ircd :End of TRACE " + t);
		return {"TRACE", {many}};
	case 11: return {"USERHOST " + t, {{"302 me :" + t + "=+id@h.example"}}};
	case 12: return {"ISON a b " + t, {{"303 me :" + t}}};
	case 13: return {"OPER a " + t, {{"381 me :You are now an IRC operator " + t}, {"491 me :no O-lines for " + t}, {"464 me :bad " + t}}};
	case 14: return {"MODE " + ch, {{"324 me " + ch + " +k " + t}, {"324 me " + ch + " +k " + t, "329 me " + ch + " 100" + t.substr(1)}, {"403 me " + ch + " :no channel " + t}}};
	case 15: { char m = o.pick(std::vector<char>{'b', 'e', 'I'});
		std::string a = m == 'b' ? "367" : m == 'e' ? "348" : "346", e = m == 'b' ? "368" : m == 'e' ? "349" : "347";
		while (cnt--) many.push_back(a + " me " + ch + " *!*@h" + std::to_string(cnt) + t + " bob 1000");
		many.push_back(e + " me " + ch + " :End of list " + t);
		return {"MODE " + ch + (o.chance(1, 2) ? " +" : " ") + m, {many, {"482 me " + ch + " :not op " + t}}}; }
	case 16: return {"MODE me", {{"221 me +i" + t}}};
	case 17: return {"INVITE " + t + " #one", {{"341 me " + t + " #one"}, {"401 me " + t + " :No such nick"}, {"443 me " + t + " #one :is already on channel"}}};
	case 18: return {"AWAY :" + t, {{"306 me :away " + t}}};
	case 19: while (cnt--) many.push_back("371 me :info " + t + std::to_string(cnt));
		many.push_back("374 me :End of INFO " + t);
		return {"INFO", {many}};
	case 20: while (cnt--) many.push_back("234 me s" + std::to_string(cnt) + t + " irc.test * 0 0 info");
		many.push_back("235 me * * :End of SERVLIST " + t);
		return {"SERVLIST", {many}};
	case 21: many = {"251 me :users " + t}; if (o.chance(1, 2)) many.push_back("252 me 3 :ops " + t);
		many.push_back("254 me 3 :channels " + t);
		many.push_back("255 me :clients " + t);
		return {"LUSERS", {many}};
	case 22: return {"ADMIN", {{"256 me irc.test :admin " + t, "257 me :" + t, "258 me :" + t, "259 me :" + t}}};
	case 23: return {"MOTD", {{"375 me :- motd " + t, "372 me :- " + t, "376 me :End " + t}, {"422 me :no motd " + t}}};
	case 24: return {"USERS", {{"392 me :Users " + t, "393 me :" + t, "394 me :End " + t}, {"392 me :Users " + t, "395 me :Nobody " + t, "394 me :End " + t}, {"446 me :disabled " + t}}};
	case 25: return {"WIBBLE " + t, {{"421 me WIBBLE :Unknown command " + t}}};
	case 26: return {"KICK #one bob", {{"482 me #one :not op " + t}, {"441 me bob #one :" + t}}};
	case 27: return {"MODE #one +o bob", {{"482 me #one :not op " + t}, {"472 me o :" + t}}};
	case 28: return {"PRIVMSG " + t + " :hello", {{"401 me " + t + " :No such nick"}, {"301 me " + t + " :is away"}, {"404 me " + t + " :cannot send"}}};
	case 29: return {"JOIN #x" + t, {{"474 me #x" + t + " :banned"}, {"475 me #x" + t + " :bad key"}, {"471 me #x" + t + " :full"}}};
	case 31: return {"WHOIS me", {{"311 me me my h.example * :Real " + t, "318 me me :End " + t}}};
	case 32: return {"WHO #one", {{"352 me #one my h.example irc.test me H@ :0 Real " + t, "315 me #one :End " + t}, {"352 me #one id h.example irc.test bob H@ :0 Real " + t, "315 me #one :End " + t}}};
	case 33: return {"USERHOST bob me", {{"302 me :bob=+id@h.example me=+my@h.example"}, {"302 me :me*=-my@h.example"}}};
	default: return {"TOPIC #one :new", {{"482 me #one :not op " + t}}};
	}
}

static bool broadcast_code(const std::string &c) { return c == "333" || c == "329"; }

static void verify(Rig &r, Ctx &c)
{
	pump();
	for (auto &k : r.cl) {
		size_t i = 0;
		if (k.p->eof) fail(c, "dropped", "client %d was disconnected", k.id);
		for (auto &l : k.p->take()) {
			if (!l.compare(0, 10, "NOTICE * :")) continue;
			if (i < k.want.size() && l == k.want[i]) { i++; continue; }
			if (k.may.count(l)) continue;
			fail(c, "wrong", "client %d got %s%s%s", k.id, q(l).c_str(), i < k.want.size() ? ", while waiting for " : " and asked for nothing like it", i < k.want.size() ? q(k.want[i]).c_str() : "");
		}
		if (i < k.want.size()) fail(c, "lost", "client %d did not get %s", k.id, q(k.want[i]).c_str());
		k.want.clear();
		k.may.clear();
	}
	Strs up = r.srv->take();
	if (up != r.up) fail(c, "up", "the server got %zu lines, expected %zu; first %s", up.size(), r.up.size(), q(up.empty() ? "" : up[0]).c_str());
	r.up.clear();
}

static void run(Src &s, Ctx &c)
{
	Src h = s.block(16);
	start_global("[global]\nautosave=false\nreport-time=never\nreplication=" + std::string("none") + "\n");
	World w(h, "me");
	struct network_config *nc = add_network_config("net", "me");
	nc->ignore_first_nick = -1;
	nc->disable_cache = -1;
	Rig r;
	r.n = start_network(nc, r.srv);
	auto login = [&] {
		pump();
		r.srv->take();
		r.srv->line(":irc.test 001 me :Welcome");
		r.srv->line(":irc.test 376 me :End of MOTD");
		pump();
		for (auto &k : r.cl) k.p->take();
		for (auto &l : r.srv->take()) if (!l.compare(0, 9, "USERHOST ")) r.srv->line(":irc.test 302 me :me=+my@h.example");
		r.srv->line(":me!my@h.example JOIN #one");
		r.srv->line(":irc.test 353 me = #one :@me bob");
		r.srv->line(":irc.test 366 me #one :End");
		pump();
		for (auto &k : r.cl) k.p->take();
	};
	login();
	int ids = 0, answered = 0, cross = 0, lastasker = -1;
	auto add = [&] {
		Cl k;
		k.id = ids++;
		c.log("-- client %d attaches", k.id);
		k.p = attach(r.n, "me");
		k.p->take();
		r.cl.push_back(k);
	};
	for (uint32_t i = 2 + h.range(3); i--;) add();
	r.srv->take();
	auto deliver = [&](const Reply &x) {
		std::string sent = ":irc.test " + x.line, line = sent, code = x.line.substr(0, 3);
		c.log("S> %s   (for client %d)", q(sent).c_str(), x.asker);
		r.srv->line(sent);
		// clients see themselves with the hostname they have at the proxy
		for (auto &p : std::vector<std::pair<std::string, std::string>>{{"me my h.example", "me cu localhost"}, {"my h.example irc.test me", "cu localhost irc.test me"}, {"me=+my@h.example", "me=+cu@localhost"}, {"me*=-my@h.example", "me*=-cu@localhost"}}) {
			size_t at = line.find(p.first);
			if (at != std::string::npos) line.replace(at, p.first.size(), p.second);
		}
		for (auto &k : r.cl) {
			if (k.id == x.asker && !broadcast_code(code)) k.want.push_back(line);
			else if (broadcast_code(code)) k.may.insert(line);
		}
		answered++;
	};
	auto flush = [&](uint32_t m) { while (m-- && !r.pend.empty()) { deliver(r.pend.front()); r.pend.pop_front(); } };
	while (!s.empty()) {
		Src o = s.block(16);
		uint32_t op = o.range(16);
		if (op < 8) {
			size_t i = o.range(r.cl.size());
			for (uint32_t m = 1 + o.range(3); m--;) {
				Query x = query(r, o);
				std::string cmd = x.cmd.substr(0, x.cmd.find(' '));
				c.log("%d> %s", r.cl[i].id, q(x.cmd).c_str());
				r.cl[i].p->line(x.cmd);
				pump();
				r.up.push_back(x.cmd);
				if (cmd == "PRIVMSG") {
					std::string e = ":me!cu@localhost " + x.cmd;
					for (auto &k : r.cl) if (k.id != r.cl[i].id) k.may.insert(e);
				}
				bool can_be_silent = SILENT.count(cmd) && (cmd != "MODE" || x.cmd.find("+o") != std::string::npos) && (cmd != "TOPIC" || x.cmd.find(" :") != std::string::npos);
				Strs *a = nullptr;
				// some replies name the command they are about
				auto id = [&](const Strs &v) { std::string n = v[0].substr(0, 3); return n == "421" || n == "461" || n == "263" ? n + " " + msg(v[0]).arg(2) : n; };
				if (cmd != "WIBBLE") for (auto &n : Strs{"421", "461", "263"}) if (o.chance(1, 4)) x.answers.insert(x.answers.begin() + o.range(x.answers.size() + 1), {n + " me " + cmd + " :not " + std::to_string(r.tag++)});
				if (!can_be_silent || o.chance(1, 3)) {
					uint32_t v = o.range(x.answers.size());
					for (size_t j = 0; j < x.answers.size() && !a; j++) {
						Strs &cand = x.answers[(v + j) % x.answers.size()];
						if (!r.silent.count(id(cand))) a = &cand;
					}
				}
				if (!a && !can_be_silent) { a = &x.answers[0]; r.trouble = true; }
				if (r.trouble) discard(c, "the first reply may belong to an earlier command as well");
				if (a) {
					for (auto &l : *a) r.pend.push_back({r.cl[i].id, l, false});
					// commands before it can no longer be answered
					r.silent.clear();
					if (lastasker >= 0 && lastasker != r.cl[i].id && !r.pend.empty()) cross++;
					lastasker = r.cl[i].id;
				} else {
					for (auto &e : SILENT.at(cmd)) if (e != "461" && e != "263") r.silent.insert(e);
					for (auto &e : Strs{"421", "461", "263"}) r.silent.insert(e + " " + cmd);
				}
			}
		} else if (op < 12) flush(1 + o.range(5));
		else if (op == 12 && r.cl.size() > 1) {
			size_t i = o.range(r.cl.size());
			c.log("-- client %d detaches", r.cl[i].id);
			r.cl[i].p->close();
			r.cl.erase(r.cl.begin() + i);
			pump();
		} else if (op == 13 && r.cl.size() < 5) { verify(r, c); add(); }
		else if (op == 14) {
			std::string l = o.pick(Strs{":bob!id@h PRIVMSG #one :hi", ":bob!id@h MODE #one +v bob", ":irc.test 396 me host :is now your hidden host"});
			c.log("S> %s", q(l).c_str());
			r.srv->line(l);
			for (auto &k : r.cl) k.want.push_back(l);
		} else if (op == 15 && o.chance(1, 3)) {
			verify(r, c);
			c.log("-- the connection to the server is made again, %zu replies never came", r.pend.size());
			r.pend.clear();
			r.silent.clear();
			r.srv->close();
			pump();
			r.srv = connect_server(r.n);
			login();
		}
		verify(r, c);
	}
	flush(10000);
	verify(r, c);
	close_all_peers();
	if (answered >= 5 && cross >= 2) c.nontrivial();
}

Property the_property = {
	"P08",
	"at least five replies, with queries of different clients following each other twice",
	{"the server answers in order", "the first reply to a query is not one that an earlier, unanswered command could have had as an error", "replies numbered 333 and 329 may reach every client"},
	{
		{"route", run, 16, 16, 60, 24000, 200000, 20},
	}};
