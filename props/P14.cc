// P14: lines get through whole, once and in order, however slow the other side is.
#include "tr.h"

static std::string at_difference(const std::string &a, const std::string &b)
{
	size_t i = 0;
	while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
	size_t f = i > 20 ? i - 20 : 0;
	return "at byte " + std::to_string(i) + ": " + q(a.substr(f, 60)) + " instead of " + q(b.substr(f, 60));
}

static void send(Src &s, Ctx &c)
{
	Src h = s.block(4);
	Tr r;
	PeerP p = make(r, h.chance(3, 4));
	bool longer = h.chance(1, 4);
	p->paused = true;
	std::string want;
	size_t blocked = 0, n = 0;
	bool over = false;
	while (!s.empty() && !over) {
		Src o = s.block(6);
		switch (o.range(16)) {
		default: {
			for (uint32_t k = 1 + o.range(o.chance(1, 3) ? 60 : 4); k--;) {
				size_t len = longer && o.chance(1, 4) ? o.range(30000) : o.range(480);
				std::string txt = std::to_string(n) + " " + std::string(len, 'a' + n % 26);
				n++;
				struct irc_line *l = irc_parse_line_args(NULL, "PRIVMSG", "#chan", txt.c_str(), NULL);
				if (!transport_send_line(r.t, l, NULL)) fail(c, "refused", "a line was refused");
				free_line(l);
				want += "PRIVMSG #chan :" + txt + "\r\n";
			}
			break;
		}
		case 8: case 9: case 10: {   // the other side reads some
			uint32_t k = 1 + o.range(o.chance(1, 4) ? 8000 : 300);
			char b[8001];
			ssize_t g = ::recv(p->fd, b, k, MSG_DONTWAIT);
			if (g > 0) p->raw.append(b, g);
			break;
		}
		case 11: case 12: pump(); break;
		case 13: vtime += 100; break;
		case 14: if (o.chance(1, 3)) { c.log("disconnect with %zu bytes on their way", want.size() - p->raw.size()); irc_transport_disconnect(r.t); over = true; } break;
		case 15: if (o.chance(1, 6)) {
			c.log("the other side goes away");
			p->close();
			pump();
			for (int i = 0; i < 3; i++) { struct irc_line *l = irc_parse_line("PING x"); transport_send_line(r.t, l, NULL); free_line(l); pump(); }
			if (r.hangups + r.errors == 0) fail(c, "hangup", "the transport did not notice that the other side left");
			release(r);
			if (want.compare(0, p->raw.size(), p->raw)) fail(c, "bytes", "%s", at_difference(p->raw, want).c_str());
			pump();
			return;
		}
		}
		if (want.size() > p->raw.size() + 6000) blocked++;
		if (want.compare(0, p->raw.size(), p->raw)) fail(c, "bytes", "%s", at_difference(p->raw, want).c_str());
	}
	p->paused = false;
	for (int i = 0; i < 10000 && p->raw.size() < want.size() && !p->eof; i++) pump();
	pump();
	c.log("%zu lines, %zu bytes", n, want.size());
	if (p->raw != want) fail(c, "bytes", "%zu bytes of %zu came through; %s", p->raw.size(), want.size(), at_difference(p->raw, want).c_str());
	if (p->eof != over) fail(c, "close", over ? "not closed after all was sent" : "closed");
	release(r);
	pump();
	if (!p->eof) fail(c, "close", "freed but not closed");
	if (n >= 5 && blocked) c.nontrivial();
	if (blocked) c.tag("blocked");
}

static std::string parsed(const std::string &raw)
{
	struct irc_line *l = irc_parse_line(raw.c_str());
	if (!l) return "\1none";
	char *s = irc_line_string(l);
	std::string r = s;
	g_free(s);
	free_line(l);
	return r;
}

static void receive(Src &s, Ctx &c)
{
	Src h = s.block(4);
	Tr r;
	PeerP p = make(r, h.chance(1, 4));
	r.stop_at = h.chance(1, 5) ? 1 + h.range(8) : (size_t)-1;
	Strs want;
	std::string bytes;
	while (!s.empty()) {
		Src o = s.block(6);
		std::string l;
		switch (o.range(8)) {
		case 0: l = gen_raw(o, 20); break;
		case 1: l = "PRIVMSG #x :" + std::string(o.range(3000), 'l'); break;
		case 2: l = ""; break;
		case 3: l = ":origin"; break;
		case 4: l = o.pick(Strs{"a\xe2\x80\xa9" "b c", "PRIVMSG x :a\rb", "X \r Y", std::string("A\0B c", 5), "\xff\xfe\x80", "  lead"}); break;
		default: l = ":x!y@z PRIVMSG #c :number " + std::to_string(want.size());
		}
		for (auto &x : l) if (x == '\n') x = ' ';
		std::string w = parsed(l);
		if (w != "\1none") want.push_back(w);
		c.log("%s", q(l.size() > 80 ? l.substr(0, 20) + "..." + std::to_string(l.size()) : l).c_str());
		bytes += l + (o.chance(1, 3) ? "\n" : "\r\n");
	}
	std::string tail = h.chance(1, 3) ? "PRIVMSG #x :unfini" : "";
	bytes += tail;
	size_t n = want.size();
	if (r.stop_at <= n) want.resize(r.stop_at);
	// cut the bytes: the lengths come from a generator so that all bytes are used for lines
	uint32_t x = 1 + h.range(20000);
	c.log("cut %u, %s", x, r.stop_at <= n ? "stopped" : "read to the end");
	for (size_t i = 0, k; i < bytes.size(); i += k) {
		x = x * 1103515245 + 12345;
		k = 1 + (x >> 16) % ((x >> 8) % 4 ? 200 : 7);
		p->send(bytes.substr(i, k));
		if ((x >> 5) % 3) pump();
	}
	pump();
	bool stopped = r.stop_at <= n;
	if (!stopped && h.chance(1, 2)) {
		p->close();
		pump();
		if (r.hangups + r.errors != 1) fail(c, "hangup", "%d hangups and %d errors were reported when the other side left", r.hangups, r.errors);
		if (r.disconnects != 1) fail(c, "hangup", "%d disconnects were reported", r.disconnects);
		// what was left of an unfinished line may be told or not
		if (!tail.empty() && r.got.size() == want.size() + 1 && r.got.back() == parsed(tail)) r.got.pop_back();
	} else if (!stopped && r.hangups + r.errors + r.disconnects) fail(c, "hangup", "a hangup was reported although the other side is there");
	if (r.got != want) {
		size_t i = 0;
		while (i < want.size() && i < r.got.size() && want[i] == r.got[i]) i++;
		fail(c, "lines", "line %zu is %s, should be %s", i, i < r.got.size() ? q(r.got[i]).c_str() : "missing", i < want.size() ? q(want[i]).c_str() : "nothing");
	}
	if (stopped) { pump(); if (!p->eof) fail(c, "close", "not closed"); }
	release(r);
	pump();
	if (n >= 3) c.nontrivial();
	if (stopped) c.tag("disconnected while receiving");
}

// ---- the proxy with slow clients and a slow server -----------------------

static void slow(Src &s, Ctx &c)
{
	Src h = s.block(8);
	start_global("[global]\nautosave=false\nreport-time=never\nreplication=none\n");
	struct network_config *nc = add_network_config("net", "me");
	nc->ignore_first_nick = -1;
	PeerP srv;
	struct irc_network *n = start_network(nc, srv);
	pump();
	srv->line(":irc.test 001 me :Welcome");
	srv->line(":irc.test 376 me :End of MOTD");
	pump();
	struct Cl { PeerP p; Strs want; bool quit = false; std::string name; };
	std::vector<Cl> cls;
	size_t num = 0, held = 0, names = 0;
	Strs up;
	auto add = [&] { Cl k; k.p = attach(n, "me"); k.p->take(); k.name = std::to_string(names++); cls.push_back(k); };
	for (uint32_t i = 1 + h.range(3); i--;) { add(); cls.back().p->paused = h.chance(1, 2); }
	srv->take();
	// what comes from one side is in order; lines of two sides may be handled in either order
	auto sort = [&](const Strs &in) {
		std::map<std::string, Strs> r;
		for (auto &l : in) { size_t i = l.find(" :m"); if (i != std::string::npos) r[l.substr(i + 3, l.find('.', i) - i - 3)].push_back(l); }
		return r;
	};
	auto compare = [&](const std::string &who, const Strs &got, const Strs &want, bool all) {
		auto gs = sort(got), ws = sort(want);
		for (auto &x : gs) ws[x.first];
		for (auto &x : ws) {
			const Strs &w = x.second, &g = gs[x.first];
			for (size_t i = 0; i < g.size(); i++) if (i >= w.size() || g[i] != w[i]) fail(c, "order", "%s got %s where %s was due", who.c_str(), q(g[i].substr(0, 60)).c_str(), i < w.size() ? q(w[i].substr(0, 60)).c_str() : "nothing");
			if (all && g.size() < w.size()) fail(c, "lost", "%s got %zu lines of %zu; %s is missing", who.c_str(), g.size(), w.size(), q(w[g.size()].substr(0, 60)).c_str());
		}
	};
	while (!s.empty()) {
		Src o = s.block(6);
		switch (o.range(10)) {
		default: {
			uint32_t k = o.chance(1, 4) ? 300 + o.range(700) : 1 + o.range(30), len = o.range(400);
			std::string b;
			c.log("the server sends %u lines", k);
			for (; k--;) {
				std::string l = ":bob!u@h PRIVMSG #c :ms." + std::to_string(num++) + " " + std::string(len, 'x');
				b += l + "\r\n";
				for (auto &x : cls) if (!x.quit) x.want.push_back(l);
			}
			srv->send(b);
			break;
		}
		case 4: case 5: {
			if (cls.empty()) break;
			size_t i = o.range(cls.size());
			if (cls[i].quit) break;
			uint32_t k = o.chance(1, 4) ? 300 + o.range(700) : 1 + o.range(30), len = o.range(400);
			std::string b;
			c.log("client %zu sends %u lines", i, k);
			for (; k--;) {
				std::string l = "PRIVMSG #c :m" + cls[i].name + "." + std::to_string(num++) + " " + std::string(len, 'y');
				b += l + "\r\n";
				up.push_back(l);
				for (size_t j = 0; j < cls.size(); j++) if (j != i && !cls[j].quit) cls[j].want.push_back(":me!cu@localhost " + l);
			}
			cls[i].p->send(b);
			break;
		}
		case 6: { size_t i = o.range(cls.size() + 1); PeerP p = i < cls.size() ? cls[i].p : srv; p->paused = !p->paused; c.log("%zu %s", i, p->paused ? "stops reading" : "reads again"); break; }
		case 7: if (!cls.empty()) {
			size_t i = o.range(cls.size());
			if (cls[i].quit) break;
			// what was sent before is handled first, then the client goes
			pump();
			if (o.chance(1, 2)) { c.log("client %zu quits", i); cls[i].quit = true; cls[i].p->line("QUIT :bye"); pump(); }
			else { c.log("client %zu goes away", i); cls[i].p->close(); cls.erase(cls.begin() + i); pump(); }
			break;
		}
		case 8: if (cls.size() < 4) { pump(); add(); cls.back().p->paused = o.chance(1, 2); c.log("a client attaches%s", cls.back().p->paused ? " and does not read" : ""); } break;
		case 9: pump(); break;
		}
		if (o.chance(2, 3)) pump();
		for (auto &x : cls) if (x.p->paused && x.want.size() > x.p->lines.size() + 500) held++;
		if (o.chance(1, 2)) continue;
		for (size_t i = 0; i < cls.size(); i++) compare("client " + std::to_string(i), cls[i].p->lines, cls[i].want, false);
	}
	srv->paused = false;
	for (auto &x : cls) x.p->paused = false;
	for (int i = 0; i < 3; i++) pump();
	for (size_t i = 0; i < cls.size(); i++) {
		compare("client " + std::to_string(i), cls[i].p->lines, cls[i].want, true);
		if (cls[i].p->eof != cls[i].quit) fail(c, "close", "client %zu was %s", i, cls[i].quit ? "not disconnected" : "disconnected");
		if (!cls[i].p->buf.empty()) fail(c, "cut", "client %zu got an unfinished line %s", i, q(cls[i].p->buf.substr(0, 60)).c_str());
	}
	compare("the server", srv->lines, up, true);
	close_all_peers();
	if (num > 100 && held) c.nontrivial();
	if (held) c.tag("held up");
}

Property the_property = {
	"P14",
	"send: at least 5 lines with more than 6 kB held up at some point; receive: at least 3 lines; slow: more than 100 messages while a client that does not read has 500 waiting",
	{"an unfinished line at the end of a connection may be handled as a line or not"},
	{
		{"send", send, 4, 6, 60, 3000, 60000, 20},
		{"receive", receive, 4, 6, 40, 6000, 60000, 20},
		{"slow", slow, 8, 6, 40, 600, 8000, 10},
	}};
