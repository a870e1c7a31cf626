// P11: the state kept with the history is the state at the mark that is asked for.
#include "world.h"
#include <fcntl.h>

static std::string modes(irc_modes_t m) { return take(mode2string(m)); }

// What must survive: everything learned from lines that are kept.
static std::string canon(Rules &ru, struct irc_network_state *st, bool lists)
{
	std::string r = std::string("me ") + ru.fold(st->me.nick) + " modes " + modes(st->me.modes) + "\n";
	std::map<std::string, std::string> chans;
	for (GList *l = st->channels; l; l = l->next) {
		struct irc_channel_state *ch = (struct irc_channel_state *)l->data;
		std::string t = std::string("channel ") + ru.fold(ch->name) + " '" + (ch->mode ? std::string(1, ch->mode) : "") + "' modes " + modes(ch->modes) + " topic " + q(S(ch->topic)) + " by " + q(S(ch->topic_set_by)) + " at " + std::to_string(ch->topic_set_time) + " made " + std::to_string(ch->creation_time) + "\n";
		for (int i = 0; i < MAXMODES; i++) {
			if (ch->chanmode_option[i]) t += std::string(" ") + (char)i + " = " + ch->chanmode_option[i] + "\n";
			if (lists) { std::set<std::string> es; for (GList *g = ch->chanmode_nicklist[i]; g; g = g->next) es.insert(((struct nicklist_entry *)g->data)->hostmask); for (auto &e : es) t += std::string(" ") + (char)i + " entry " + e + "\n"; }
		}
		std::set<std::string> ms;
		for (GList *g = ch->nicks; g; g = g->next) { struct channel_nick *n = (struct channel_nick *)g->data; ms.insert(ru.fold(n->global_nick->nick) + " " + modes(n->modes) + (n->global_nick == &st->me ? " (me)" : "")); }
		for (auto &m : ms) t += " member " + m + "\n";
		chans[ru.fold(ch->name)] = t;
	}
	for (auto &k : chans) r += k.second;
	return r;
}

static std::string difference(const std::string &a, const std::string &b)
{
	auto lines = [](const std::string &s) { Strs r; size_t p = 0, e; while ((e = s.find('\n', p)) != std::string::npos) { r.push_back(s.substr(p, e - p)); p = e + 1; } return r; };
	Strs x = lines(a), y = lines(b);
	for (size_t i = 0; i < x.size() || i < y.size(); i++) {
		std::string l = i < x.size() ? x[i] : "(end)", m = i < y.size() ? y[i] : "(end)";
		if (l != m) return "given: " + l + " / was: " + m;
	}
	return "";
}

static void run(Src &s, Ctx &c)
{
	Src h = s.block(16);
	World w(h, "me");
	w.casevary = h.chance(1, 2);
	std::string dir = scratch() + "/ls";
	struct irc_network_state *st = network_state_init("me", "user", "host.example");
	auto feed = [&](const std::string &line, struct linestack_context *ctx) {
		struct irc_line *l = irc_parse_line(line.c_str());
		if (!l) return;
		state_handle_data(st, l);
		if (ctx && !linestack_insert_line(ctx, l, FROM_SERVER, st)) fail(c, "insert", "could not store %s", q(line).c_str());
		free_line(l);
	};
	for (auto &l : w.welcome()) feed(l, NULL);
	uint32_t crowd = h.range(6) == 5 ? 90 + h.range(60) : 0;
	for (uint32_t i = 0; i < crowd; i++) {
		if (i == 0) feed(":me!user@host.example JOIN #crowd", NULL);
		feed(":crowd" + std::to_string(i) + "!c@crowd.example JOIN #crowd", NULL);
	}
	if (crowd) c.tag("a channel of a hundred");
	uint32_t before = h.range(8);      // a session that is under way when the history starts
	for (uint32_t i = 0; i < before; i++) for (auto &l : w.step(h)) feed(l, NULL);
	struct linestack_context *ctx = create_linestack(dir.c_str(), TRUE, st);
	if (!ctx) fail(c, "create", "cannot create");
	struct Mark { linestack_marker m; std::string was; };
	std::vector<Mark> marks;
	size_t looked = 0, chans = 0, total = 0;
	auto mark = [&] { marks.push_back({linestack_get_marker(ctx), canon(w.r, st, false)}); };
	auto look = [&](linestack_marker m, const std::string &was, const char *what) {
		struct irc_network_state *g = linestack_get_state(ctx, m);
		if (!g) fail(c, "none", "no state for %s", what);
		std::string d = difference(canon(w.r, g, false), was);
		if (d.empty()) d = state_sound(g);
		if (!d.empty()) fail(c, "state", "%s (%ld): %s", what, m ? (long)*m : -1L, d.c_str());
		if (g->channels) chans++;
		free_network_state(g);
		looked++;
	};
	mark();
	while (!s.empty()) {
		Src o = s.block(16);
		switch (o.range(10)) {
		case 6: c.log("-- mark %zu", marks.size()); mark(); break;
		case 7: { size_t i = o.range(marks.size()); c.log("-- state at mark %zu", i); look(marks[i].m, marks[i].was, "the mark"); break; }
		case 8: c.log("-- state now"); look(NULL, canon(w.r, st, false), "now"); break;
		case 9: {
			uint32_t k = o.chance(1, 4) ? 900 + o.range(300) : o.range(40);
			if (o.chance(1, 2)) {
				// up to just before the next state is written
				linestack_marker m = linestack_get_marker(ctx);
				k = 1000 - *m % 1000;
				k -= std::min(k, o.range(12));
				linestack_free_marker(m);
			}
			if (total > 4000) k = 1;
			c.log("-- %u messages", k);
			for (uint32_t i = 0; i < k; i++) feed(":bob!u@h PRIVMSG #one :" + std::to_string(i), ctx);
			total += k;
			if (o.chance(1, 3)) {
				c.log("-- closed and opened again");
				free_linestack_context(ctx);
				ctx = create_linestack(dir.c_str(), FALSE, st);
				if (!ctx) fail(c, "reopen", "cannot open again");
			}
			break;
		}
		default:
			for (auto &l : w.step(o)) { c.log("S> %s", q(l).c_str()); feed(l, ctx); }
		}
	}
	for (auto &m : marks) { look(m.m, m.was, "a mark, at the end"); linestack_free_marker(m.m); }
	look(NULL, canon(w.r, st, false), "now, at the end");
	free_linestack_context(ctx);
	free_network_state(st);
	if (looked >= 3 && chans) c.nontrivial();
	if (total > 1000) c.tag("over 1000 lines");
}

Property the_property = {
	"P11",
	"at least 3 states were asked for, one with channels",
	{"the state tracked while the lines arrived is the reference; P02, P04 decide that it is right", "what only replies that are not kept tell (hosts, away, ban lists) is not compared"},
	{
		{"state", run, 16, 16, 60, 2000, 30000, 20},
	}};
