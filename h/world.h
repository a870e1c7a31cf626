// A simulated IRC network (World) that emits legal server lines, and a
// reference IRC client (View) that says what a client knows after them.
#pragma once
#include "env.h"

struct Rules {                       // what the server announced
	std::string casemap = "rfc1459";
	std::string pm = "ov", ps = "@+";   // prefix modes and their symbols, highest first
	std::string ma = "beI", mb = "k", mc = "l", md = "imnpsta";
	std::string chantypes = "#&";
	bool namesx = false;
	std::string fold(const std::string &s) const;
	bool same(const std::string &a, const std::string &b) const { return fold(a) == fold(b); }
	bool ischan(const std::string &s) const { return !s.empty() && chantypes.find(s[0]) != std::string::npos; }
	Strs announce(const std::string &me) const;  // 005 lines (no origin)
};

struct Entry { std::string mask, by; long at; };
struct VUser {
	std::string nick, mask, real, server;   // mask empty: not known
	int hops = -1;
	bool query = false, haswho = false;
	std::set<char> modes;
};
struct VChan {
	std::string name, topic, topic_by;
	bool has_topic = false;
	long topic_time = 0, creation = 0;
	char symbol = 0;
	bool names_open = false, mode_received = false;
	std::map<std::string, std::set<char>> members;      // folded nick -> prefix modes
	std::map<std::string, std::pair<std::string, long>> who;  // folded nick -> flags, time
	std::set<char> flags;
	std::map<char, std::string> opt;
	std::map<char, std::vector<Entry>> lists;
	std::set<char> present, open;
};
struct View {
	Rules r;
	std::string me;                                      // folded key of the own nick
	std::map<std::string, VUser> users;
	std::map<std::string, VChan> chans;
	bool away = false;
	explicit View(const Rules &rules, const std::string &nick);
	void apply(const std::string &line);
	VChan *chan(const std::string &n) { auto i = chans.find(r.fold(n)); return i == chans.end() ? nullptr : &i->second; }
	VUser *user(const std::string &n) { auto i = users.find(r.fold(n)); return i == users.end() ? nullptr : &i->second; }
	bool onchan(const std::string &folded) const;
	void leave(VChan &c, const std::string &folded);
	void chanmode(VChan &c, const std::string &by, const Strs &a, size_t at);
	void forget(const std::string &folded);
	std::set<std::string> tainted;     // may be about someone else by now
};
// Compare tracked state with the reference; "" when they agree.
std::string view_diff(View &v, struct irc_network_state *st);
// What a client that was sent lines knows, against the state; "" when they agree.
// prefixes: -1 no (nor when the topic was set), 0 no, 1 highest prefix mode, 2 all of them
std::string client_diff(View &v, struct irc_network_state *st, int prefixes);
// The rules announced in lines to a client.
Rules rules_from(const Strs &lines);
// Structural soundness of tracked state, whatever the input was.
std::string state_sound(struct irc_network_state *st);

struct WUser { std::string nick, ident, host, real, server; int hops; bool away = false, oper = false; bool on = true; std::string mask() const { return nick + "!" + ident + "@" + host; } };
struct WChan {
	std::string name, topic, topic_by;
	long topic_time = 0, creation = 0;
	char symbol = '=';
	std::map<int, std::set<char>> members;   // user index -> prefix modes
	std::set<char> flags;
	std::map<char, std::string> opt;
	std::map<char, std::vector<Entry>> lists;
};
struct World {
	Rules r;
	std::string srv = "irc.test";
	std::vector<WUser> users;           // users[0] is us
	std::vector<WChan> chans;
	std::set<char> umodes;
	bool away = false;
	bool many = false;                  // kick several people in one message
	bool casevary = true;               // spell names differently in replies
	std::set<std::string> gone;         // nicks whose holder changed out of sight
	World(Src &s, const std::string &me);
	Strs welcome();                     // 001.. 376
	Strs join_burst(Src &s, int ch);
	Strs step(Src &s);                  // one event, as the lines we receive
	bool in(int ch, int u) const { return chans[ch].members.count(u) > 0; }
	bool visible(int u) const;
	std::string names_entry(int ch, int u) const;
	Strs names(Src &s, int ch);
	Strs who(Src &s, int ch);
	Strs modeis(int ch);
	Strs list(int ch, char m);
	std::string vary(Src &s, const std::string &n);
	int other(Src &s);                  // a connected user that is not us
};
