// P10: the stored history gives back what was put in, in order, between any two marks.
#include "world.h"
#include "gen.h"
#include <fcntl.h>

struct Rec {
	std::string origin;
	bool has_origin;
	Strs a;
	time_t t;
	bool operator==(const Rec &o) const { return origin == o.origin && has_origin == o.has_origin && a == o.a && t == o.t; }
	std::string str() const { std::string r = "[" + std::to_string(t) + "] "; if (has_origin) r += ":" + origin; for (auto &x : a) r += " <" + x + ">"; return q(r); }
};

static Rec rec(const struct irc_line *l, time_t t)
{
	Rec r;
	r.has_origin = l->origin != NULL;
	if (l->origin) r.origin = l->origin;
	for (size_t i = 0; i < l->argc; i++) r.a.push_back(l->args[i]);
	r.t = t;
	return r;
}

struct Col { std::vector<Rec> v; size_t stop; };
static gboolean collect(struct irc_line *l, time_t t, void *u)
{
	Col *c = (Col *)u;
	if (c->v.size() >= c->stop) return FALSE;
	c->v.push_back(rec(l, t));
	return TRUE;
}

static bool kept(const Strs &a, bool toserver)
{
	static const std::set<std::string> k = {"nick", "join", "quit", "part", "privmsg", "notice", "kick", "mode", "topic", "353", "366", "331", "333", "332", "324", "329"};
	std::string c = lower_ascii(a[0]);
	bool msg = c == "privmsg" || c == "notice";
	if (toserver && !msg) return false;
	if (msg && a.size() > 2 && !a[2].empty() && a[2][0] == 1 && lower_ascii(a[2].substr(0, 7)) != "\001action") return false;
	return k.count(c) > 0;
}

static const Strs CMDS = {"PRIVMSG", "NOTICE", "JOIN", "PART", "MODE", "TOPIC", "NICK", "QUIT", "KICK", "353", "366", "331", "332", "333", "324", "329", "privmsg", "Join", "PING", "352", "367", "001", "AWAY", "INVITE"};
static const Strs OBJ = {"#one", "#two", "bob", "#One", "#one,#two", "#on", "bob,#two", "", "#onex", "a,,b"};
static const Strs TXT = {"hi there", "", ":colon", "\001ACTION waves\001", "\001VERSION\001", "\001action x\001", "\001", "\001ACTIONS", "a\xe9\xff", "\xe2\x80\xa9 para", "x  y ", "tab\there", " lead", "%s%n"};
static const Strs ORG = {"bob!u@h", "irc.test", "me!u@h", "x"};

static void store(Src &s, Ctx &c)
{
	Src h = s.block(4);
	std::string dir = scratch() + "/ls";
	struct irc_network_state *st = network_state_init("me", "u", "h");
	struct linestack_context *ctx = create_linestack(dir.c_str(), TRUE, st);
	if (!ctx) fail(c, "create", "cannot create");
	std::vector<Rec> all;
	struct Mark { linestack_marker m; size_t at; };
	std::vector<Mark> marks;
	size_t reads = 0, reopened = 0;
	auto compare = [&](const char *key, const std::vector<Rec> &got, const std::vector<Rec> &want) {
		for (size_t i = 0; i < got.size() && i < want.size(); i++) if (!(got[i] == want[i])) fail(c, key, "entry %zu is %s, put in was %s", i, got[i].str().c_str(), want[i].str().c_str());
		if (got.size() != want.size()) fail(c, key, "%zu entries given back, %zu were put in (%s)", got.size(), want.size(), got.size() < want.size() ? want[got.size()].str().c_str() : got[want.size()].str().c_str());
	};
	auto insert = [&](const std::string &line, bool toserver) {
		struct irc_line *l = irc_parse_line(line.c_str());
		if (!l || l->argc == 0) { if (l) free_line(l); return; }
		Rec r = rec(l, vtime);
		if (!linestack_insert_line(ctx, l, toserver ? TO_SERVER : FROM_SERVER, st)) fail(c, "insert", "could not store %s", q(line).c_str());
		if (kept(r.a, toserver)) all.push_back(r);
		free_line(l);
	};
	auto range = [&](Src &o, linestack_marker &f, linestack_marker &t, size_t &a, size_t &b) {
		f = t = NULL; a = 0; b = all.size();
		if (!marks.empty() && o.chance(3, 4)) { auto &m = marks[o.range(marks.size())]; f = m.m; a = m.at; }
		if (!marks.empty() && o.chance(1, 3)) { auto &m = marks[o.range(marks.size())]; t = m.m; b = m.at; }
	};
	while (!s.empty()) {
		Src o = s.block(12);
		switch (o.range(12)) {
		default: {
			std::string l;
			if (o.chance(3, 4)) l = ":" + o.pick(ORG) + " ";
			l += o.pick(CMDS);
			std::string ob = o.pick(OBJ);
			l += ob.empty() ? " :" : " " + ob;
			if (!ob.empty()) for (uint32_t k = o.range(3); k--;) l += k ? " w" : " :" + (o.chance(1, 6) ? gen_text(o, 20) : o.chance(1, 12) ? std::string(o.range(600), 'z') : o.pick(TXT));
			bool ts = o.chance(1, 4);
			c.log("insert %s%s", q(l).c_str(), ts ? " (own)" : "");
			insert(l, ts);
			break;
		}
		case 6: {
			uint32_t k = o.chance(1, 3) ? 400 + o.range(700) : o.range(60);
			c.log("insert %u lines", k);
			for (uint32_t i = 0; i < k; i++) insert(":bob!u@h PRIVMSG " + OBJ[i % 3] + " :line " + std::to_string(all.size()) + std::string(i % 50, 'x'), false);
			break;
		}
		case 7: c.log("mark"); marks.push_back({linestack_get_marker(ctx), all.size()}); break;
		case 8: { long t = o.range(100000); c.log("%ld s pass", t); advance(t); break; }
		case 9: {
			linestack_marker f, t; size_t a, b;
			range(o, f, t, a, b);
			Col col; col.stop = o.chance(1, 4) ? o.range(20) : (size_t)-1;
			c.log("read %zu..%zu%s", a, b, col.stop != (size_t)-1 ? " (stopped early)" : "");
			size_t want = b > a ? b - a : 0;
			gboolean r = linestack_traverse(ctx, f, t, collect, &col);
			bool stopped = want > col.stop;
			if (stopped) want = col.stop;
			compare("read", col.v, std::vector<Rec>(all.begin() + std::min(a, all.size()), all.begin() + std::min(a, all.size()) + want));
			if (!!r == stopped) fail(c, "result", "reading reports %s", r ? "success although it was stopped" : "failure");
			reads += want;
			break;
		}
		case 10: {
			linestack_marker f, t; size_t a, b;
			range(o, f, t, a, b);
			std::string ob = o.pick(OBJ);
			c.log("read %zu..%zu about %s", a, b, q(ob).c_str());
			Col col; col.stop = (size_t)-1;
			std::vector<Rec> want;
			for (size_t i = a; i < b; i++) {
				if (all[i].a.size() < 2) continue;
				std::string x = all[i].a[1];
				bool hit = false;
				if (x.find(',') == std::string::npos) hit = x == ob;
				else { size_t p = 0; for (;;) { size_t e = x.find(',', p); if (x.substr(p, e == std::string::npos ? e : e - p) == ob) hit = true; if (e == std::string::npos) break; p = e + 1; } }
				if (hit) want.push_back(all[i]);
			}
			if (!linestack_traverse_object(ctx, ob.c_str(), f, t, collect, &col)) fail(c, "result", "reading reports failure");
			compare("object", col.v, want);
			reads += want.size();
			break;
		}
		case 11:
			if (o.chance(1, 2) && !all.empty()) {
				size_t i = o.range(all.size());
				struct irc_line *l = NULL;
				time_t t = 0;
				c.log("entry %zu", i);
				// what is still buffered is written by a marked read
				Col col; col.stop = 0;
				if (!linestack_traverse(ctx, NULL, NULL, collect, &col) && all.empty()) fail(c, "result", "failure");
				if (!linestack_read_entry(ctx, i, &l, &t) || !l) fail(c, "entry", "entry %zu of %zu cannot be read", i, all.size());
				compare("entry", {rec(l, t)}, {all[i]});
				free_line(l);
				col.v.clear();
				(void)linestack_traverse(ctx, NULL, NULL, collect, &col); // back to the end
			} else {
				c.log("closed and opened again");
				free_linestack_context(ctx);
				ctx = create_linestack(dir.c_str(), FALSE, st);
				if (!ctx) fail(c, "reopen", "cannot open again");
				linestack_marker m = linestack_get_marker(ctx);
				if (*m != all.size()) fail(c, "reopen", "%zu entries after opening again, %zu were put in", (size_t)*m, all.size());
				linestack_free_marker(m);
				reopened++;
			}
		}
	}
	Col col; col.stop = (size_t)-1;
	if (!linestack_traverse(ctx, NULL, NULL, collect, &col)) fail(c, "result", "reading reports failure");
	compare("all", col.v, all);
	for (auto &m : marks) linestack_free_marker(m.m);
	free_linestack_context(ctx);
	// a new history does not contain any of the old
	ctx = create_linestack(dir.c_str(), TRUE, st);
	if (!ctx) fail(c, "create", "cannot create again");
	col.v.clear();
	if (!linestack_traverse(ctx, NULL, NULL, collect, &col) || !col.v.empty()) fail(c, "truncate", "a new history has %zu old entries", col.v.size());
	free_linestack_context(ctx);
	free_network_state(st);
	if (reads >= 5) c.nontrivial();
	if (reopened) c.tag("reopened");
	if (all.size() > 1000) c.tag("over 1000 lines");
}

Property the_property = {
	"P10",
	"at least 5 stored lines were read back before the end",
	{"lines contain no NUL, CR or LF", "the disk does not fill up"},
	{
		{"store", store, 4, 12, 40, 6000, 100000, 50},
	}};
