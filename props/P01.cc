// P01: protocol lines survive parsing and printing.
#include "gen.h"

struct RefLine { bool ok = true; bool has_origin = false; std::string origin; Strs args; bool colon = false; };

// Independent reading of the line grammar: [":" origin SP+] word *(SP word) [SP ":" trailing]
static RefLine ref_parse(std::string d)
{
	RefLine r;
	size_t e = d.find_first_of("\r\n");
	if (e != std::string::npos) d.resize(e);
	if (!d.empty() && d[0] == ':') {
		size_t sp = d.find(' ');
		if (sp == std::string::npos) { r.ok = false; return r; }
		r.has_origin = true;
		r.origin = d.substr(1, sp - 1);
		while (sp < d.size() && d[sp] == ' ') sp++;
		d = d.substr(sp);
	}
	std::string cur;
	size_t i = 0;
	while (i < d.size()) {
		if (d[i] == ' ') {
			r.args.push_back(cur);
			cur.clear();
			i++;
			if (i < d.size() && d[i] == ':') {
				r.colon = true;
				cur = d.substr(i + 1);
				break;
			}
			continue;
		}
		cur += d[i++];
	}
	r.args.push_back(cur);
	return r;
}

static std::string show(const struct irc_line *l)
{
	if (!l) return "(no line)";
	std::string r = l->origin ? "origin=" + q(l->origin) : "no origin";
	for (size_t i = 0; i < l->argc; i++) r += " " + q(l->args[i]);
	return r;
}

static void check_against(Ctx &c, const struct irc_line *l, const RefLine &r, const char *what)
{
	if (!l) fail(c, what, "line rejected");
	if ((l->origin != NULL) != r.has_origin || (l->origin && r.origin != l->origin))
		fail(c, what, "origin differs: %s, expected %s", show(l).c_str(), q(r.origin).c_str());
	if (l->argc != r.args.size()) fail(c, what, "%zu arguments, expected %zu: %s", l->argc, r.args.size(), show(l).c_str());
	for (size_t i = 0; i < l->argc; i++)
		if (r.args[i] != l->args[i]) fail(c, what, "argument %zu is %s, expected %s", i, q(l->args[i]).c_str(), q(r.args[i]).c_str());
	if (l->args[l->argc] != NULL) fail(c, what, "argument vector not terminated");
}

// any bytes: parse, print, parse again
static void raw(Src &s, Ctx &c)
{
	std::string in;
	if (s.chance(1, 2)) in = gen_raw(s, s.chance(1, 16) ? 900 : 60);
	else {
		if (s.chance(1, 2)) in += ":" + gen_text(s, 12) + (s.chance(1, 8) ? "  " : " ");
		in += s.pick(Strs{"PRIVMSG", "NICK", "JOIN", "MODE", "352", "PART", "TOPIC", "004", "x"});
		for (uint32_t k = s.range(6); k--;) { in += " " + gen_text(s, 8); if (s.chance(1, 4)) in += " :" + gen_text(s, 20); }
		if (s.chance(1, 10)) {          // very many, or very long, parameters
			uint32_t n = s.range(700);
			for (uint32_t k = 0; k < n; k++) in += " " + std::string(1 + k % 3, 'x');
		} else if (s.chance(1, 10)) in += " " + std::string(s.range(5000), 'y');
		if (s.chance(1, 3)) in += "\r\n";
	}
	c.log("parse %s", q(in).c_str());
	struct irc_line *l = irc_parse_line(in.c_str());
	RefLine r = ref_parse(in.c_str());
	if (!r.ok) {
		// no complete line in there; whatever is made of it must not hold a line break
		if (l) {
			std::string o = take(irc_line_string(l));
			if (o.find_first_of("\r\n") != std::string::npos) fail(c, "line-break", "line with a break inside: %s", q(o).c_str());
		}
		free_line(l);
		c.tag("unparsable");
		return;
	}
	check_against(c, l, r, "parse");
	std::string out = take(irc_line_string(l));
	std::string expect = r.has_origin ? ":" + r.origin + " " : "";
	for (size_t i = 0; i < r.args.size(); i++)
		expect += std::string(i ? " " : "") + (r.colon && i + 1 == r.args.size() ? ":" : "") + r.args[i];
	if (out != expect) fail(c, "print", "printed as %s, expected %s", q(out).c_str(), q(expect).c_str());
	std::string nl = take(irc_line_string_nl(l));
	if (nl != expect + "\r\n") fail(c, "print-nl", "wire form %s", q(nl).c_str());
	struct irc_line *l2 = irc_parse_line(nl.c_str());
	check_against(c, l2, r, "reparse");
	if (irc_line_cmp(l, l2) != 0) fail(c, "cmp", "a line differs from its own round trip");
	struct irc_line *d = linedup(l);
	check_against(c, d, r, "dup");
	std::string ds = take(irc_line_string(d));
	if (ds != expect) fail(c, "dup-print", "duplicate prints as %s", q(ds).c_str());
	if (l->origin) {
		std::string nick = take(line_get_nick(l));
		if (nick != r.origin.substr(0, r.origin.find('!'))) fail(c, "nick", "nick %s from origin %s", q(nick).c_str(), q(r.origin).c_str());
	}
	free_line(l);
	check_against(c, d, r, "dup-independent");
	free_line(d);
	free_line(l2);
	if (r.has_origin) c.tag("origin");
	if (r.colon) c.tag("trailing");
	if (r.args.size() > 8) c.tag("many-args");
	if (r.args.size() > 1) c.nontrivial();
}

static std::string gen_word(Src &s)
{
	std::string w = gen_text(s, 10), r;
	for (char ch : w) if (ch != ' ') r += ch;
	if (r.empty() || r[0] == ':') r = "w" + r;
	return r;
}

// composed lines: what is sent is what the peer reads
static void compose(Src &s, Ctx &c)
{
	bool org = s.chance(1, 2);
	std::string origin = gen_word(s);
	std::string cmd = s.pick(Strs{"PRIVMSG", "NOTICE", "KICK", "TOPIC", "PART", "QUIT", "USER", "001", "332", "353", "352", "433", "ERROR", "AWAY", "MODE", "NICK", "JOIN", "324", "367", "004"});
	int code = atoi(cmd.c_str());
	// commands whose last parameter is a plain word on the wire
	static const std::set<std::string> plain = {"MODE", "NICK", "JOIN", "324", "367", "004"};
	Strs a = {cmd};
	for (uint32_t k = s.range(4); k--;) a.push_back(gen_word(s));
	bool two = cmd == "PART" || cmd == "TOPIC";
	if (plain.count(cmd) || (two && a.size() == 1)) a.push_back(gen_word(s));
	else a.push_back(gen_text(s, 40));
	c.log("compose %s%s", org ? (":" + origin).c_str() : "", "");
	for (auto &x : a) c.log("  arg %s", q(x).c_str());
	const char *v[8] = {0};
	for (size_t i = 0; i < a.size(); i++) v[i] = a[i].c_str();
	struct irc_line *l = irc_parse_line_args(org ? origin.c_str() : NULL, v[0], v[1], v[2], v[3], v[4], v[5], (char *)NULL);
	std::string w = take(irc_line_string_nl(l));
	struct irc_line *back = irc_parse_line(w.c_str());
	RefLine r;
	r.has_origin = org; r.origin = origin; r.args = a;
	check_against(c, back, r, "compose");
	struct irc_line *d = linedup(l);
	if (irc_line_cmp(l, d) != 0) fail(c, "cmp-dup", "a line differs from its duplicate");
	// single-place changes are told apart
	size_t at = s.range(a.size());
	g_free(d->args[at]);
	d->args[at] = g_strdup((a[at] + "z").c_str());
	if (irc_line_cmp(l, d) == 0) fail(c, "cmp-arg", "lines differing in argument %zu compare equal", at);
	free_line(d);
	(void)code;
	free_line(back);
	free_line(l);
	c.nontrivial();
}

// arguments are only added while the wire form stays within 512 bytes
static void addarg(Src &s, Ctx &c)
{
	std::string origin = s.chance(1, 2) ? std::string(1 + s.range(60), 'o') : "";
	struct irc_line *l = irc_parse_line_args(origin.empty() ? NULL : origin.c_str(), "353", "nick", "=", "#chan", (char *)NULL);
	Strs a = {"353", "nick", "=", "#chan"};
	int added = 0, refused = 0;
	c.log("add arguments to a line with origin of %zu bytes", origin.size());
	while (!s.empty()) {
		Src o = s.block(2);
		std::string w(o.chance(1, 8) ? 100 + o.range(500) : 1 + o.range(40), 'x');
		gboolean ok = line_add_arg(l, w.c_str());
		if (ok) { a.push_back(w); added++; } else refused++;
		c.log("  add %zu bytes -> %d", w.size(), ok);
		if (l->argc != a.size()) fail(c, "addarg-count", "%zu arguments, expected %zu", l->argc, a.size());
		for (size_t i = 0; i < a.size(); i++) if (a[i] != l->args[i]) fail(c, "addarg-args", "argument %zu altered", i);
		if (l->args[l->argc]) fail(c, "addarg-term", "not terminated");
		std::string wire = take(irc_line_string_nl(l));
		if (wire.size() > 512) fail(c, "addarg-long", "line grew to %zu bytes", wire.size());
		if (!ok && wire.size() + w.size() + 2 + 8 < 512) fail(c, "addarg-refused", "refused %zu bytes at length %zu", w.size(), wire.size());
	}
	free_line(l);
	if (added && refused) c.nontrivial();
	if (refused) c.tag("refused");
}

// time prefixes
static void prefix(Src &s, Ctx &c)
{
	time_t t = s.range(2000000000);
	std::string body;
	int kind = s.range(4);
	if (kind == 1) body = "\001ACTION " + gen_text(s, 30) + "\001";
	else if (kind == 2) { body = "\001" + s.pick(Strs{"VERSION", "PING 12", "DCC SEND x", "TIME"}) + "\001"; }
	else { body = gen_text(s, 40); if (!body.empty() && body[0] == 1) body[0] = 'q'; }
	std::string cmd = s.chance(1, 2) ? "PRIVMSG" : "NOTICE";
	struct irc_line *l = irc_parse_line_args("n!u@h", cmd.c_str(), "#chan", body.c_str(), (char *)NULL);
	c.log("prefix %s at %ld", q(body).c_str(), (long)t);
	struct tm tm;
	localtime_r(&t, &tm);
	char st[32];
	strftime(st, sizeof st, "%H:%M:%S", &tm);
	std::string exp = body;
	gboolean ok = line_prefix_time(l, t);
	if (kind == 1) exp = std::string("\001ACTION [") + st + "]" + body.substr(7);
	else if (kind != 2) exp = std::string("[") + st + "] " + body;
	if (exp != l->args[2]) fail(c, "prefix", "message became %s, expected %s", q(l->args[2]).c_str(), q(exp).c_str());
	if (cmd != l->args[0] || S("#chan") != l->args[1] || l->argc != 3) fail(c, "prefix-other", "other fields changed");
	(void)ok;
	free_line(l);
	c.tag(kind == 1 ? "action" : kind == 2 ? "ctcp" : "plain");
	if (body.size() > 3) c.nontrivial();
}

// a channel of bytes is read line by line
Property the_property = {
	"P01",
	"raw: random bytes biased to IRC syntax with at least two parameters; compose: every case (command, words, free trailing text); addarg: a history where at least one argument fits and one is refused; prefix: message text longer than 3 bytes",
	{"lines contain no NUL byte", "composed lines follow the wire grammar: middle parameters are non-empty words not starting with a colon"},
	{
		{"raw", raw, 300, 1, 600, 40000, 600000, 200},
		{"compose", compose, 200, 1, 100, 20000, 300000, 200},
		{"addarg", addarg, 3, 2, 60, 6000, 60000, 100},
		{"prefix", prefix, 80, 1, 40, 6000, 60000, 100},
	}};
