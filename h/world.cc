#include "world.h"

std::string Rules::fold(const std::string &s) const
{
	std::string o;
	for (char c : s) {
		if (c >= 'A' && c <= 'Z') c += 32;
		else if (casemap != "ascii" && (c == '[' || c == ']' || c == '\\')) c += 32;
		else if (casemap == "rfc1459" && c == '^') c = '~';
		o += c;
	}
	return o;
}

Strs Rules::announce(const std::string &me) const
{
	return {":irc.test 005 " + me + " CASEMAPPING=" + casemap + " PREFIX=(" + pm + ")" + ps + " CHANMODES=" + ma + "," + mb + "," + mc + "," + md + " CHANTYPES=" + chantypes + " NETWORK=testnet" + (namesx ? " NAMESX" : "") + " :are supported by this server"};
}

// ---------------------------------------------------------------- View

View::View(const Rules &rules, const std::string &nick) : r(rules)
{
	me = r.fold(nick);
	users[me].nick = nick;
	users[me].query = true;
}

bool View::onchan(const std::string &f) const
{
	for (auto &c : chans) if (c.second.members.count(f)) return true;
	return false;
}

void View::forget(const std::string &f)
{
	if (f != me && users.count(f) && !users[f].query && !onchan(f)) { users.erase(f); tainted.erase(f); }
}

void View::leave(VChan &c, const std::string &f)
{
	c.members.erase(f);
	c.who.erase(f);
	forget(f);
}

void View::chanmode(VChan &c, const std::string &by, const Strs &a, size_t at)
{
	bool set = true;
	size_t arg = at + 1;
	for (char m : a[at]) {
		if (m == '+') { set = true; continue; }
		if (m == '-') { set = false; continue; }
		auto has = [&](const std::string &g) { return g.find(m) != std::string::npos; };
		if (has(r.ma)) {
			if (arg >= a.size()) continue;
			std::string mask = a[arg++];
			if (!c.present.count(m)) continue;
			auto &l = c.lists[m];
			if (set) l.push_back({mask, user(by) ? user(by)->nick : "", (long)vtime});
			else for (size_t i = 0; i < l.size(); i++) if (l[i].mask == mask) { l.erase(l.begin() + i); break; }
		} else if (has(r.mb) || (has(r.mc) && set)) {
			if (arg >= a.size()) continue;
			if (set) { c.opt[m] = a[arg]; c.flags.insert(m); } else { c.opt.erase(m); c.flags.erase(m); }
			arg++;
		} else if (has(r.mc)) { c.opt.erase(m); c.flags.erase(m); }
		else if (has(r.pm)) {
			if (arg >= a.size()) continue;
			auto i = c.members.find(r.fold(a[arg++]));
			if (i != c.members.end()) { if (set) i->second.insert(m); else i->second.erase(m); }
		} else if (has(r.md)) { if (set) c.flags.insert(m); else c.flags.erase(m); }
	}
}

static Strs split(const std::string &s, char sep)
{
	Strs r;
	size_t i = 0;
	while (i <= s.size()) { size_t e = s.find(sep, i); if (e == std::string::npos) e = s.size(); if (e > i) r.push_back(s.substr(i, e - i)); i = e + 1; }
	return r;
}

static void setmodes(std::set<char> &f, const std::string &m)
{
	bool set = true;
	for (char c : m) { if (c == '+') set = true; else if (c == '-') set = false; else if (set) f.insert(c); else f.erase(c); }
}

void View::apply(const std::string &line)
{
	Msg m = msg(line);
	const Strs &a = m.a;
	if (a.empty()) return;
	std::string cmd = a[0];
	std::string nf = r.fold(m.nick());
	if (cmd == "001") {
		if (r.fold(a[1]) != me) { users[r.fold(a[1])] = users[me]; users.erase(me); me = r.fold(a[1]); }
		VUser &u = users[me];
		u.nick = a[1];
		if (!u.mask.empty()) u.mask = a[1] + u.mask.substr(u.mask.find('!'));
	} else if (cmd == "JOIN") {
		for (auto &n : split(a[1], ',')) {
			VChan &c = chans[r.fold(n)];
			if (c.name.empty()) c.name = n;
			VUser &u = users[nf];
			if (!c.members.count(nf)) c.members[nf];
			u.nick = m.nick();
			if (m.origin.find('@') != std::string::npos) u.mask = m.origin;
		}
	} else if (cmd == "PART" || cmd == "KICK") {
		Strs cs = split(a[1], ','), ns;
		if (cmd == "KICK") ns = split(a[2], ',');
		for (size_t i = 0; i < cs.size(); i++) {
			VChan *c = chan(cs[i]);
			if (!c) continue;
			std::string who = cmd == "PART" ? nf : r.fold(ns[std::min(i, ns.size() - 1)]);
			if (who == me) {
				std::string key = r.fold(c->name);
				auto mem = c->members;
				chans.erase(key);
				for (auto &x : mem) forget(x.first);
			} else leave(*c, who);
		}
	} else if (cmd == "QUIT") {
		for (auto &c : chans) { c.second.members.erase(nf); c.second.who.erase(nf); }
		if (nf != me) { users.erase(nf); tainted.erase(nf); }
	} else if (cmd == "NICK") {
		std::string to = r.fold(a[1]);
		if (!users.count(nf)) users[nf].nick = m.nick();
		VUser u = users[nf];
		users.erase(nf);
		u.nick = a[1];
		std::string mk = m.origin.find('@') != std::string::npos ? m.origin : u.mask;
		u.mask = mk.empty() ? "" : a[1] + mk.substr(mk.find('!'));
		users[to] = u;
		if (to != nf) { if (tainted.erase(nf)) tainted.insert(to); else tainted.erase(to); }
		if (nf == me) me = to;
		for (auto &c : chans) {
			auto i = c.second.members.find(nf);
			if (i != c.second.members.end()) { auto ms = i->second; c.second.members.erase(i); c.second.members[to] = ms; }
			auto w = c.second.who.find(nf);
			if (w != c.second.who.end()) { auto x = w->second; c.second.who.erase(w); c.second.who[to] = x; }
		}
	} else if (cmd == "TOPIC") {
		if (VChan *c = chan(a[1])) { c->topic = a[2]; c->has_topic = true; c->topic_by = m.nick(); c->topic_time = vtime; }
	} else if (cmd == "332") {
		if (VChan *c = chan(a[2])) { c->topic = a[3]; c->has_topic = true; }
	} else if (cmd == "331") {
		if (VChan *c = chan(a[2])) { c->topic.clear(); c->has_topic = false; }
	} else if (cmd == "333") {
		if (VChan *c = chan(a[2])) { c->topic_by = a[3]; c->topic_time = atol(a[4].c_str()); }
	} else if (cmd == "353") {
		VChan *c = chan(a[3]);
		if (!c) return;
		c->symbol = a[2][0];
		if (!c->names_open) {
			auto mem = c->members;
			c->members.clear();
			c->who.clear();
			for (auto &x : mem) forget(x.first);
			c->names_open = true;
		}
		for (auto n : split(a[4], ' ')) {
			std::set<char> ms;
			while (!n.empty() && r.ps.find(n[0]) != std::string::npos) { ms.insert(r.pm[r.ps.find(n[0])]); n.erase(0, 1); }
			if (c->members.count(r.fold(n))) continue;
			c->members[r.fold(n)] = ms;
			VUser &u = users[r.fold(n)];
			if (u.nick.empty()) u.nick = n;
		}
	} else if (cmd == "366") {
		if (VChan *c = chan(a[2])) c->names_open = false;
	} else if (cmd == "346" || cmd == "348" || cmd == "367") {
		char k = cmd == "346" ? 'I' : cmd == "348" ? 'e' : 'b';
		VChan *c = chan(a[2]);
		if (!c) return;
		if (c->open.insert(k).second) c->lists[k].clear();
		c->lists[k].push_back({a[3], k == 'b' && a.size() > 4 ? a[4] : "", k == 'b' && a.size() > 5 ? atol(a[5].c_str()) : 0});
	} else if (cmd == "347" || cmd == "349" || cmd == "368") {
		char k = cmd == "347" ? 'I' : cmd == "349" ? 'e' : 'b';
		if (VChan *c = chan(a[2])) { c->open.erase(k); c->present.insert(k); }
	} else if (cmd == "352") {
		VUser &u = users[r.fold(a[6])];
		u.nick = a[6];
		u.mask = a[6] + "!" + a[3] + "@" + a[4];
		u.server = a[5];
		size_t sp = a[8].find(' ');
		u.hops = atoi(a[8].c_str());
		u.real = sp == std::string::npos ? "" : a[8].substr(sp + 1);
		u.haswho = true;
		tainted.erase(r.fold(a[6]));
		VChan *c = chan(a[2]);
		if (c && c->members.count(r.fold(a[6]))) c->who[r.fold(a[6])] = {a[7], (long)vtime};
	} else if (cmd == "MODE") {
		if (r.ischan(a[1])) { if (VChan *c = chan(a[1])) chanmode(*c, m.nick(), a, 2); }
		else { VUser &u = users[r.fold(a[1])]; if (u.nick.empty()) u.nick = a[1]; setmodes(u.modes, a[2]); }
	} else if (cmd == "324") {
		VChan *c = chan(a[2]);
		if (!c) return;
		c->flags.clear();
		c->opt.clear();
		c->mode_received = true;
		setmodes(c->flags, a[3]);
		size_t arg = 4;
		for (char x : a[3]) if ((r.mb + r.mc).find(x) != std::string::npos && arg < a.size()) c->opt[x] = a[arg++];
	} else if (cmd == "329") {
		if (VChan *c = chan(a[2])) c->creation = atol(a[3].c_str());
	} else if (cmd == "221") {
		users[me].modes.clear();
		setmodes(users[me].modes, a[2]);
	} else if (cmd == "302") {
		for (auto &x : split(a[2], ' ')) {
			size_t e = x.find('=');
			std::string n = x.substr(0, e);
			if (!n.empty() && n.back() == '*') n.pop_back();
			VUser &u = users[r.fold(n)];
			u.nick = n;
			u.mask = n + "!" + x.substr(e + 2);
		}
	} else if (cmd == "305") away = false;
	else if (cmd == "306") away = true;
	else if (cmd == "PRIVMSG") {
		if (r.fold(a[1]) == me && !nf.empty()) {
			VUser &u = users[nf];
			if (u.nick.empty()) u.nick = m.nick();
			u.query = true;
		}
	}
}

static std::string mset(const std::set<char> &s) { return std::string(s.begin(), s.end()); }
static std::string mset(irc_modes_t m) { std::string r; for (int i = 0; i < MAXMODES; i++) if (m[i]) r += (char)i; return r; }
static std::string sf(const char *f, ...) __attribute__((format(printf, 1, 2)));
static std::string sf(const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	char *x;
	if (vasprintf(&x, f, ap) < 0) abort();
	va_end(ap);
	std::string r = x;
	free(x);
	return r;
}

std::string state_sound(struct irc_network_state *st)
{
	std::set<struct network_nick *> all{&st->me};
	std::set<std::string> seen;
	if (!st->me.nick) return "own nick missing";
	for (GList *l = st->nicks; l; l = l->next) {
		struct network_nick *n = (struct network_nick *)l->data;
		if (!all.insert(n).second) return "a nick is listed twice";
		if (!n->nick) return "a nick without a name";
	}
	for (auto *n : all)
		for (GList *l = n->channel_nicks; l; l = l->next) {
			struct channel_nick *cn = (struct channel_nick *)l->data;
			if (cn->global_nick != n) return "a membership points to another nick";
			if (!g_list_find(st->channels, cn->channel)) return "a nick is on a channel that is not there";
			if (!g_list_find(cn->channel->nicks, cn)) return "a membership the channel does not know";
		}
	for (GList *l = st->channels; l; l = l->next) {
		struct irc_channel_state *c = (struct irc_channel_state *)l->data;
		if (c->network != st) return "a channel of another network";
		if (!c->name) return "a channel without a name";
		std::set<struct network_nick *> on;
		for (GList *m = c->nicks; m; m = m->next) {
			struct channel_nick *cn = (struct channel_nick *)m->data;
			if (cn->channel != c) return "a membership of another channel";
			if (!all.count(cn->global_nick)) return "a member that is not a known nick";
			if (!g_list_find(cn->global_nick->channel_nicks, cn)) return "a member that does not know the channel";
			if (!on.insert(cn->global_nick).second) return "a member twice on a channel";
		}
	}
	return "";
}

std::string view_diff(View &v, struct irc_network_state *st)
{
	std::string s = state_sound(st);
	if (!s.empty()) return "unsound: " + s;
	VUser &me = v.users[v.me];
	if (me.nick != S(st->me.nick)) return sf("own nick: %s, should be %s", st->me.nick, me.nick.c_str());
	if (!me.mask.empty() && me.mask != S(st->me.hostmask)) return sf("own hostmask: %s, should be %s", st->me.hostmask, me.mask.c_str());
	if (mset(me.modes) != mset(st->me.modes)) return sf("own modes: %s, should be %s", mset(st->me.modes).c_str(), mset(me.modes).c_str());
	if (!!st->is_away != v.away) return sf("away: %d, should be %d", st->is_away, v.away);
	if (g_list_length(st->channels) != v.chans.size()) return sf("%u channels, should be %zu", g_list_length(st->channels), v.chans.size());
	for (auto &kv : v.chans) {
		VChan &w = kv.second;
		struct irc_channel_state *c = find_channel(st, w.name.c_str());
		if (!c) return sf("channel %s is missing", w.name.c_str());
		const char *cn = w.name.c_str();
		if (w.name != c->name) return sf("channel %s is called %s", cn, c->name);
		if ((c->topic != NULL) != w.has_topic || S(c->topic) != w.topic) return sf("%s: topic %s, should be %s", cn, q(c->topic).c_str(), w.has_topic ? q(w.topic).c_str() : "none");
		if (S(c->topic_set_by) != w.topic_by) return sf("%s: topic set by %s, should be %s", cn, q(c->topic_set_by).c_str(), w.topic_by.c_str());
		if (c->topic_set_time != w.topic_time) return sf("%s: topic set at %ld, should be %ld", cn, (long)c->topic_set_time, w.topic_time);
		if (c->creation_time != w.creation) return sf("%s: created at %ld, should be %ld", cn, (long)c->creation_time, w.creation);
		if (c->mode != w.symbol) return sf("%s: symbol %d, should be %d", cn, c->mode, w.symbol);
		if (!!c->mode_received != w.mode_received) return sf("%s: modes known %d, should be %d", cn, c->mode_received, w.mode_received);
		if (mset(c->modes) != mset(w.flags)) return sf("%s: modes %s, should be %s", cn, mset(c->modes).c_str(), mset(w.flags).c_str());
		for (int i = 0; i < 256; i++) {
			char m = (char)i;
			std::string want = w.opt.count(m) ? w.opt[m] : "";
			if ((c->chanmode_option[i] != NULL) != (w.opt.count(m) > 0) || S(c->chanmode_option[i]) != want) return sf("%s: setting of mode %c is %s, should be %s", cn, m, q(c->chanmode_option[i]).c_str(), q(want).c_str());
			bool pres = w.present.count(m) > 0;
			if (!!c->chanmode_nicklist_present[i] != pres) return sf("%s: list %c known: %d, should be %d", cn, m, c->chanmode_nicklist_present[i], pres);
			if (!pres) continue;
			auto &wl = w.lists[m];
			if (g_list_length(c->chanmode_nicklist[i]) != wl.size()) return sf("%s: list %c has %u entries, should be %zu", cn, m, g_list_length(c->chanmode_nicklist[i]), wl.size());
			size_t k = 0;
			for (GList *l = c->chanmode_nicklist[i]; l; l = l->next, k++) {
				struct nicklist_entry *e = (struct nicklist_entry *)l->data;
				if (S(e->hostmask) != wl[k].mask || S(e->by) != wl[k].by || e->time_set != wl[k].at)
					return sf("%s: list %c entry %zu is %s by %s at %ld, should be %s by %s at %ld", cn, m, k, q(e->hostmask).c_str(), q(e->by).c_str(), (long)e->time_set, wl[k].mask.c_str(), wl[k].by.c_str(), wl[k].at);
			}
		}
		if (g_list_length(c->nicks) != w.members.size()) {
			std::string g, x;
			for (GList *l = c->nicks; l; l = l->next) g += S(((struct channel_nick *)l->data)->global_nick->nick) + " ";
			for (auto &m : w.members) x += m.first + " ";
			return sf("%s: members %s, should be %s", cn, g.c_str(), x.c_str());
		}
		for (auto &m : w.members) {
			VUser &u = v.users[m.first];
			struct channel_nick *n = find_channel_nick(c, u.nick.c_str());
			if (!n) return sf("%s: %s is missing", cn, u.nick.c_str());
			struct network_nick *g = n->global_nick;
			if (u.nick != g->nick) return sf("%s: %s is called %s", cn, u.nick.c_str(), g->nick);
			if (mset(n->modes) != mset(m.second)) return sf("%s: %s has modes %s, should have %s", cn, u.nick.c_str(), mset(n->modes).c_str(), mset(m.second).c_str());
			if (g != &st->me && !v.tainted.count(m.first)) {
				if (u.mask != S(g->hostmask)) return sf("%s has hostmask %s, should be %s", u.nick.c_str(), q(g->hostmask).c_str(), u.mask.c_str());
			}
			if (!u.mask.empty() && g->hostmask) {
				std::string j = S(g->nick) + "!" + S(g->username) + "@" + S(g->hostname);
				if (j != g->hostmask) return sf("%s: nick, user and host %s differ from hostmask %s", u.nick.c_str(), j.c_str(), g->hostmask);
			}
			if (u.haswho && !v.tainted.count(m.first)) {
				if (u.real != S(g->fullname)) return sf("%s has real name %s, should be %s", u.nick.c_str(), q(g->fullname).c_str(), q(u.real).c_str());
				if (u.server != S(g->server)) return sf("%s is on server %s, should be %s", u.nick.c_str(), q(g->server).c_str(), q(u.server).c_str());
				if (u.hops != g->hops) return sf("%s is %d hops away, should be %d", u.nick.c_str(), g->hops, u.hops);
			}
			auto wi = w.who.find(m.first);
			std::string fl = wi == w.who.end() ? "" : wi->second.first;
			long at = wi == w.who.end() ? 0 : wi->second.second;
			if (S(n->last_flags) != fl || n->last_update != at) return sf("%s: %s has flags %s at %ld, should be %s at %ld", cn, u.nick.c_str(), q(n->last_flags).c_str(), (long)n->last_update, fl.c_str(), at);
		}
	}
	for (auto &u : v.users) {
		struct network_nick *n = find_network_nick(st, u.second.nick.c_str());
		if (!n) return sf("nick %s is not known", u.second.nick.c_str());
		if (!!n->query != u.second.query) return sf("nick %s: private conversation %d, should be %d", u.second.nick.c_str(), n->query, u.second.query);
		if (mset(n->modes) != mset(u.second.modes)) return sf("nick %s: modes %s, should be %s", n->nick, mset(n->modes).c_str(), mset(u.second.modes).c_str());
	}
	std::set<std::string> names{v.me};
	for (GList *l = st->nicks; l; l = l->next) {
		struct network_nick *n = (struct network_nick *)l->data;
		if (!names.insert(v.r.fold(n->nick)).second) return sf("nick %s is there twice", n->nick);
		if (!v.user(n->nick)) return sf("nick %s should have been forgotten", n->nick);
	}
	return "";
}

Rules rules_from(const Strs &lines)
{
	Rules r;
	for (auto &l : lines) {
		Msg m = msg(l);
		if (m.a.empty() || m.a[0] != "005") continue;
		for (size_t i = 2; i < m.a.size(); i++) {
			std::string k = m.a[i].substr(0, m.a[i].find('=')), v = k.size() < m.a[i].size() ? m.a[i].substr(k.size() + 1) : "";
			if (k == "CASEMAPPING") r.casemap = v;
			else if (k == "CHANTYPES") r.chantypes = v;
			else if (k == "PREFIX" && !v.empty() && v.find(')') != std::string::npos) { r.pm = v.substr(1, v.find(')') - 1); r.ps = v.substr(v.find(')') + 1); }
			else if (k == "CHANMODES") {
				std::string *g[4] = {&r.ma, &r.mb, &r.mc, &r.md};
				for (auto x : g) x->clear();
				size_t n = 0;
				for (char ch : v) { if (ch == ',') n++; else if (n < 4) *g[n] += ch; }
			}
		}
	}
	return r;
}

std::string client_diff(View &v, struct irc_network_state *st, int prefixes)
{
	VUser &me = v.users[v.me];
	if (me.nick != S(st->me.nick)) return sf("own nick: %s, should be %s", me.nick.c_str(), st->me.nick);
	if (mset(me.modes) != mset(st->me.modes)) return sf("own modes: %s, should be %s", mset(me.modes).c_str(), mset(st->me.modes).c_str());
	for (auto &kv : v.chans) if (!find_channel(st, kv.second.name.c_str())) return sf("on channel %s, should not be", kv.second.name.c_str());
	for (GList *l = st->channels; l; l = l->next) {
		struct irc_channel_state *c = (struct irc_channel_state *)l->data;
		VChan *w = v.chan(c->name);
		if (!w) return sf("not on channel %s", c->name);
		if (w->names_open) return sf("%s: list of names not finished", c->name);
		if (w->has_topic ? !c->topic || w->topic != c->topic : c->topic && *c->topic) return sf("%s: topic %s, should be %s", c->name, w->has_topic ? q(w->topic).c_str() : "none", q(c->topic).c_str());
		if (w->has_topic && c->topic_set_by && c->topic_set_time && (w->topic_by != c->topic_set_by || (prefixes >= 0 && w->topic_time != c->topic_set_time))) return sf("%s: topic set by %s at %ld, should be %s at %ld", c->name, w->topic_by.c_str(), w->topic_time, c->topic_set_by, (long)c->topic_set_time);
		if (c->mode && w->symbol && w->symbol != c->mode) return sf("%s: symbol %c, should be %c", c->name, w->symbol, c->mode);
		for (GList *m = c->nicks; m; m = m->next) {
			struct channel_nick *n = (struct channel_nick *)m->data;
			auto i = w->members.find(v.r.fold(n->global_nick->nick));
			if (i == w->members.end()) return sf("%s: %s is missing", c->name, n->global_nick->nick);
			std::string a, b, am = mset(i->second), bm = mset(n->modes);
			for (char x : v.r.pm) { if (am.find(x) != std::string::npos) a += x; if (bm.find(x) != std::string::npos) b += x; }
			if (prefixes == 1) { a = a.substr(0, 1); b = b.substr(0, 1); }
			if (prefixes > 0 && a != b) return sf("%s: %s has modes %s, should have %s", c->name, n->global_nick->nick, a.c_str(), b.c_str());
		}
		if (g_list_length(c->nicks) != w->members.size()) return sf("%s: %zu members, should be %u", c->name, w->members.size(), g_list_length(c->nicks));
	}
	return "";
}

// ---------------------------------------------------------------- World

static const Strs NICKS = {"bob", "alice", "Carol[x]", "dave^", "e_", "Frank\\", "g{h}", "heidi|", "ivan", "judy`", "Mallory", "nn-2"};
static const Strs CHANS = {"#one", "#Two[x]", "&three", "#fo^ur", "#longer-channel-name.5"};
static const Strs WORDS = {"hello", "x", "a longer piece of text", ":colon", "caf\xc3\xa9", "\xe9\xff", "", "two  spaces", " lead", "1"};

World::World(Src &s, const std::string &me)
{
	r.casemap = s.pick(Strs{"rfc1459", "ascii", "strict-rfc1459"});
	switch (s.range(4)) {
	case 1: r.pm = "ohv"; r.ps = "@%+"; break;
	case 2: r.pm = "qaohv"; r.ps = "~&@%+"; r.md = "imnpst"; r.chantypes = "#"; break;
	case 3: r.ma = "beIZ"; r.mb = "kf"; r.mc = "lj"; r.md = "imnpstacCR"; break;
	}
	r.namesx = s.chance(1, 4);
	users.push_back({me, "myident", "my.host", "Me Myself", srv, 0});
	for (size_t i = 0; i < 9; i++) users.push_back({NICKS[i], i % 2 ? "~u" : "id", "h" + std::to_string(i) + ".example", i % 3 ? "Real " + NICKS[i] : "R", i % 4 ? srv : "hub.test", (int)(i % 4)});
	for (auto &n : CHANS) {
		if (!r.ischan(n)) continue;
		WChan c;
		c.name = n;
		c.creation = 1000000 + chans.size();
		chans.push_back(c);
	}
}

bool World::visible(int u) const
{
	if (u == 0) return true;
	for (auto &c : chans) if (c.members.count(0) && c.members.count(u)) return true;
	return false;
}

std::string World::vary(Src &s, const std::string &n)
{
	if (!casevary || s.chance(2, 3)) return n;
	std::string o = n;
	for (auto &c : o) if (isalpha((unsigned char)c) && s.chance(1, 2)) c ^= 32;
	return o;
}

int World::other(Src &s)
{
	for (int k = 0; k < 20; k++) { int u = 1 + s.range(users.size() - 1); if (users[u].on) return u; }
	return 1;
}

Strs World::welcome()
{
	std::string n = users[0].nick, p = ":" + srv + " ";
	Strs o = {p + "001 " + n + " :Welcome to the network " + users[0].mask(), p + "002 " + n + " :Your host is " + srv, p + "003 " + n + " :created today", p + "004 " + n + " " + srv + " v1 iowx " + r.ma + r.mb + r.mc + r.md + r.pm};
	for (auto &l : r.announce(n)) o.push_back(l);
	o.push_back(p + "422 " + n + " :no motd");
	return o;
}

std::string World::names_entry(int ch, int u) const
{
	std::string e;
	auto &ms = chans[ch].members.at(u);
	for (size_t i = 0; i < r.pm.size(); i++) if (ms.count(r.pm[i])) { e += r.ps[i]; if (!r.namesx) break; }
	return e + users[u].nick;
}

Strs World::names(Src &s, int ch)
{
	Strs o;
	std::string p = ":" + srv + " ", n = users[0].nick, cur;
	int per = 1 + s.range(5), k = 0;
	std::string nm = vary(s, chans[ch].name);
	for (auto &m : chans[ch].members) {
		if (!cur.empty()) cur += " ";
		cur += names_entry(ch, m.first);
		if (++k % per == 0) { o.push_back(p + "353 " + n + " " + chans[ch].symbol + " " + nm + " :" + cur + (s.chance(1, 2) ? " " : "")); cur.clear(); }
	}
	if (!cur.empty()) o.push_back(p + "353 " + n + " " + chans[ch].symbol + " " + nm + " :" + cur);
	o.push_back(p + "366 " + n + " " + nm + " :End of /NAMES list.");
	return o;
}

Strs World::who(Src &s, int ch)
{
	Strs o;
	std::string p = ":" + srv + " ", n = users[0].nick;
	std::string nm = vary(s, chans[ch].name);
	for (auto &m : chans[ch].members) {
		auto &u = users[m.first];
		std::string e = names_entry(ch, m.first);
		o.push_back(p + "352 " + n + " " + nm + " " + u.ident + " " + u.host + " " + u.server + " " + u.nick + " " + (u.away ? "G" : "H") + (u.oper ? "*" : "") + e.substr(0, e.size() - u.nick.size()) + " :" + std::to_string(u.hops) + " " + u.real);
	}
	o.push_back(p + "315 " + n + " " + nm + " :End of /WHO list.");
	return o;
}

Strs World::modeis(int ch)
{
	std::string p = ":" + srv + " ", n = users[0].nick;
	WChan &c = chans[ch];
	std::string m = "+", args;
	for (char f : c.flags) m += f;
	for (auto &x : c.opt) { m += x.first; args += " " + x.second; }
	return {p + "324 " + n + " " + c.name + " " + m + args, p + "329 " + n + " " + c.name + " " + std::to_string(c.creation)};
}

Strs World::list(int ch, char m)
{
	Strs o;
	std::string p = ":" + srv + " ", n = users[0].nick;
	std::string e = m == 'b' ? "367" : m == 'I' ? "346" : "348", f = m == 'b' ? "368" : m == 'I' ? "347" : "349";
	int k = 0;
	for (auto &x : chans[ch].lists[m]) o.push_back(p + e + " " + n + " " + chans[ch].name + " " + x.mask + (m == 'b' && k++ % 3 != 2 ? " " + x.by + " " + std::to_string(x.at) : ""));
	o.push_back(p + f + " " + n + " " + chans[ch].name + " :End of list");
	return o;
}

Strs World::join_burst(Src &s, int ch)
{
	WChan &c = chans[ch];
	std::string p = ":" + srv + " ", n = users[0].nick;
	bool first = c.members.empty();
	c.members[0];
	if (first) { c.members[0].insert('o'); c.creation = vtime; c.flags.clear(); c.opt.clear(); c.lists.clear(); c.topic.clear(); }
	Strs o = {":" + users[0].mask() + " JOIN " + (s.chance(1, 2) ? ":" : "") + c.name};
	if (!c.topic.empty()) {
		o.push_back(p + "332 " + n + " " + c.name + " :" + c.topic);
		o.push_back(p + "333 " + n + " " + c.name + " " + c.topic_by + " " + std::to_string(c.topic_time));
	}
	for (auto &l : names(s, ch)) o.push_back(l);
	return o;
}

Strs World::step(Src &s)
{
	Strs o;
	std::string p = ":" + srv + " ", n = users[0].nick;
	std::vector<int> mine;
	for (size_t i = 0; i < chans.size(); i++) if (in(i, 0)) mine.push_back(i);
	auto mych = [&]() { return mine[s.range(mine.size())]; };
	uint32_t op = s.range(24);
	if (mine.empty() && op != 20 && op != 21) op = 0;
	vtime += s.range(3) ? 0 : s.range(200);
	switch (op) {
	case 0: case 22: {               // we join
		int ch = s.range(chans.size());
		if (in(ch, 0)) break;
		// people who got there before us
		for (uint32_t k = s.range(5); k--;) {
			int u = other(s);
			if (!in(ch, u)) { chans[ch].members[u]; for (char m : r.pm) if (s.chance(1, 4)) chans[ch].members[u].insert(m); }
		}
		if (!chans[ch].members.empty()) {
			if (s.chance(1, 2) && chans[ch].topic.empty()) { chans[ch].topic = WORDS[s.range(3)]; chans[ch].topic_by = "alice!id@h1.example"; chans[ch].topic_time = vtime - 50; }
			chans[ch].symbol = s.pick(std::vector<char>{'=', '@', '*'});
			if (s.chance(1, 2)) chans[ch].flags = {'n', 't'};
			if (s.chance(1, 3)) chans[ch].opt['k'] = "sesame";
		}
		o = join_burst(s, ch);
		break;
	}
	case 1: case 2: case 3: {        // someone joins
		int ch = mych(), u = other(s);
		if (in(ch, u)) break;
		chans[ch].members[u];
		o = {":" + users[u].mask() + " JOIN " + (s.chance(1, 2) ? ":" : "") + vary(s, chans[ch].name)};
		break;
	}
	case 4: case 5: {                // part
		int u = s.chance(1, 4) ? 0 : other(s);
		Strs cs;
		for (int ch : mine) if (in(ch, u) && (cs.empty() || s.chance(1, 4))) { cs.push_back(vary(s, chans[ch].name)); chans[ch].members.erase(u); }
		if (cs.empty()) break;
		std::string l;
		for (auto &c : cs) l += (l.empty() ? "" : ",") + c;
		o = {":" + users[u].mask() + " PART " + l + (s.chance(1, 2) ? " :" + s.pick(WORDS) : "")};
		break;
	}
	case 6: {                        // kick
		int ch = mych(), by = other(s), u = s.chance(1, 4) ? 0 : other(s);
		if (!in(ch, u) || !in(ch, by) || u == by) break;
		std::string cs = chans[ch].name, ns = vary(s, users[u].nick);
		chans[ch].members.erase(u);
		for (uint32_t k = many ? s.range(4) : 0; k--;) {
			int ch2 = mych(), u2 = other(s);
			if (!in(ch2, 0) || !in(ch2, u2) || !in(ch2, by) || u2 == by) continue;
			cs += "," + vary(s, chans[ch2].name);
			ns += "," + vary(s, users[u2].nick);
			chans[ch2].members.erase(u2);
		}
		o = {":" + users[by].mask() + " KICK " + cs + " " + ns + " :" + s.pick(WORDS)};
		break;
	}
	case 7: {                        // quit (and someone else takes the place)
		int u = other(s);
		bool vis = visible(u);
		if (vis) o = {":" + users[u].mask() + " QUIT :" + s.pick(WORDS)};
		else gone.insert(r.fold(users[u].nick));
		for (auto &c : chans) c.members.erase(u);
		users[u].host = "new" + std::to_string(s.range(50)) + ".example";
		users[u].real = "Other " + std::to_string(s.range(9));
		users[u].away = users[u].oper = false;
		break;
	}
	case 8: case 9: {                // nick change
		int u = s.chance(1, 3) ? 0 : other(s);
		std::string to = s.chance(1, 4) ? vary(s, users[u].nick) : s.chance(1, 3) ? s.pick(NICKS) : "nk" + std::to_string(s.range(30));
		bool taken = to == users[u].nick;
		for (size_t i = 0; i < users.size(); i++) if ((int)i != u && r.same(users[i].nick, to)) taken = true;
		if (taken) break;
		if (visible(u)) o = {":" + users[u].mask() + " NICK " + (s.chance(1, 2) ? ":" : "") + to};
		else { gone.insert(r.fold(users[u].nick)); gone.insert(r.fold(to)); }
		users[u].nick = to;
		break;
	}
	case 10: case 11: case 12: {     // channel modes
		int ch = mych();
		WChan &c = chans[ch];
		int by = other(s);
		std::string origin = s.chance(1, 5) ? srv : in(ch, by) ? users[by].mask() : users[0].mask();
		std::string ms, args;
		char sign = 0;
		bool bare = false;
		for (uint32_t k = 1 + s.range(5); k--;) {
			bool set = s.chance(1, 2);
			std::string arg;
			char m;
			switch (s.range(5)) {
			case 0: m = r.md[s.range(r.md.size())]; if (set) c.flags.insert(m); else c.flags.erase(m); break;
			case 1: {
				m = r.pm[s.range(r.pm.size())];
				auto it = c.members.begin();
				std::advance(it, s.range(c.members.size()));
				if (set) it->second.insert(m); else it->second.erase(m);
				arg = vary(s, users[it->first].nick);
				break;
			}
			case 2: m = r.mb[s.range(r.mb.size())]; arg = "key" + std::to_string(s.range(20)); if (set) c.opt[m] = arg; else { if (c.opt.count(m)) arg = c.opt[m]; c.opt.erase(m); } break;
			case 3: m = r.mc[s.range(r.mc.size())]; if (set) { arg = std::to_string(1 + s.range(99)); c.opt[m] = arg; } else c.opt.erase(m); break;
			default: {
				m = r.ma[s.range(3)];
				auto &l = c.lists[m];
				if (set || l.empty()) {
					set = true;
					arg = "*!*@h" + std::to_string(s.range(12)) + ".example";
					bool dup = false;
					for (auto &e : l) if (e.mask == arg) dup = true;
					if (dup) continue;
					l.push_back({arg, origin.substr(0, origin.find('!')), (long)vtime});
				} else { size_t i = s.range(l.size()); arg = l[i].mask; l.erase(l.begin() + i); }
			}
			}
			char sg = set ? '+' : '-';
			if (sg != sign) { if (!(sign == 0 && sg == '+' && bare)) ms += sg; sign = sg; }
			ms += m;
			if (!arg.empty()) args += " " + arg;
		}
		if (!ms.empty()) o = {":" + origin + " MODE " + vary(s, c.name) + " " + ms + args};
		break;
	}
	case 13: {                       // topic
		int ch = mych(), u = other(s);
		chans[ch].topic = s.pick(WORDS);
		chans[ch].topic_by = users[in(ch, u) ? u : 0].nick;
		chans[ch].topic_time = vtime;
		o = {":" + users[in(ch, u) ? u : 0].mask() + " TOPIC " + vary(s, chans[ch].name) + " :" + chans[ch].topic};
		break;
	}
	case 14: {                       // messages
		int u = other(s);
		if (s.chance(1, 2)) o = {":" + users[u].mask() + " " + (s.chance(1, 2) ? "PRIVMSG " : "NOTICE ") + vary(s, n) + " :" + s.pick(WORDS)};
		else { int ch = mych(); if (in(ch, u)) o = {":" + users[u].mask() + " PRIVMSG " + chans[ch].name + " :" + s.pick(WORDS)}; }
		break;
	}
	case 15: {                       // WHO
		int ch = s.chance(1, 5) ? (int)s.range(chans.size()) : mych();
		for (auto &u : users) { if (s.chance(1, 4)) u.away = !u.away; }
		if (s.chance(1, 5)) {
			auto &u = users[other(s)];
			o = {p + "352 " + n + " * " + u.ident + " " + u.host + " " + u.server + " " + u.nick + " H :" + std::to_string(u.hops) + " " + u.real, p + "315 " + n + " " + u.nick + " :End"};
		} else o = who(s, ch);
		break;
	}
	case 16: o = list(s.chance(1, 6) ? (int)s.range(chans.size()) : mych(), r.ma[s.range(3)]); break;
	case 17: o = names(s, s.chance(1, 5) ? (int)s.range(chans.size()) : mych()); break;
	case 18: o = modeis(s.chance(1, 6) ? (int)s.range(chans.size()) : mych()); break;
	case 19: {                       // topic query
		int ch = s.chance(1, 6) ? (int)s.range(chans.size()) : mych();
		WChan &c = chans[ch];
		if (c.topic.empty()) o = {p + "331 " + n + " " + c.name + " :No topic is set"};
		else o = {p + "332 " + n + " " + vary(s, c.name) + " :" + c.topic, p + "333 " + n + " " + c.name + " " + c.topic_by + " " + std::to_string(c.topic_time)};
		break;
	}
	case 20: {                       // own modes and away
		switch (s.range(3)) {
		case 0: away = !away; o = {p + (away ? "306 " : "305 ") + n + " :away"}; break;
		case 1: { char m = "iwxAZaz"[s.range(7)]; if (umodes.count(m)) { umodes.erase(m); o = {":" + n + " MODE " + n + " :-" + m}; } else { umodes.insert(m); o = {":" + n + " MODE " + n + " :+" + m}; } break; }
		default: { std::string m = "+"; for (char c : umodes) m += c; o = {p + "221 " + n + " " + m}; }
		}
		break;
	}
	case 21: {                       // USERHOST
		std::string l;
		for (uint32_t k = 1 + s.range(3); k--;) { bool own = s.chance(1, 4); auto &u = users[own ? 0 : other(s)]; l += (l.empty() ? "" : " ") + u.nick + (u.oper || (own && s.chance(1, 3)) ? "*" : "") + "=" + (u.away ? "-" : "+") + u.ident + "@" + u.host; }
		o = {p + "302 " + n + " :" + l + (s.chance(1, 3) ? " " : "")};
		break;
	}
	case 23: {
		auto &u = users[other(s)];
		u.oper = !u.oper;
		o = {s.pick(Strs{p + "372 " + n + " :- motd", p + "401 " + n + " nobody :No such nick", "PING :" + srv, p + "NOTICE " + n + " :server notice", p + "442 " + n + " " + chans[0].name + " :not on channel", "ERROR :bye", p + "318 " + n + " x :End of /WHOIS"})};
		break;
	}
	}
	return o;
}
