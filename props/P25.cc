// P25: the daemon connects everybody to a proxy of their own, and nobody else's.
// BUILD: daemon
#include "world.h"
#include <netinet/tcp.h>
#include <sstream>
#include <sys/prctl.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>

extern "C" int daemon_main(int argc, char **argv);
int (*program_main)(int, char **) = daemon_main;

struct Back { int fd = -1; std::string user, pass; };        // the socket of a user's proxy

struct Daemon {
	std::string dir, errs, started;
	pid_t pid = -1;
	int port = 0;
	std::vector<std::unique_ptr<Back>> backs;
	Ctx &c;

	static int listen_at(const std::string &path) {
		int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
		struct sockaddr_un un;
		memset(&un, 0, sizeof un);
		un.sun_family = AF_UNIX;
		strncpy(un.sun_path, path.c_str(), sizeof un.sun_path - 1);
		unlink(path.c_str());
		if (fd < 0 || bind(fd, (struct sockaddr *)&un, sizeof un) < 0 || listen(fd, 50) < 0) { perror(path.c_str()); abort(); }
		return fd;
	}
	// a user whose proxy is running, as far as the daemon can tell
	Back *user(const std::string &name, const std::string &pass) {
		std::string d = dir + "/users/" + name;
		if (mkdir(d.c_str(), 0700) < 0) perror(d.c_str());
		write_file(d + "/pid", std::to_string(getpid()));
		Back *b = new Back();
		b->user = name;
		b->pass = pass;
		b->fd = listen_at(d + "/socket");
		backs.emplace_back(b);
		return b;
	}
	explicit Daemon(Ctx &ctx) : c(ctx) {
		dir = scratch();
		mkdir((dir + "/users").c_str(), 0700);
		errs = dir + "/log";
		started = dir + "/started";
		write_file(dir + "/proxy", "#!/bin/sh\nprintf '%s ' \"$@\" >> " + started + "\necho >> " + started + "\n");
		chmod((dir + "/proxy").c_str(), 0700);
	}
	void start() {
		for (int tries = 0; tries < 5; tries++) {
			{ Listener l; port = l.port; }
			write_file(dir + "/conf", "[settings]\naddress = 127.0.0.1\nport = " + std::to_string(port) + "\nconfigdir = " + dir + "/users\nctrlproxy-path = " + dir + "/proxy\n");
			pid = fork();
			if (pid == 0) {
				prctl(PR_SET_PDEATHSIG, SIGKILL);
				int e = open(errs.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), nul = open("/dev/null", O_RDONLY);
				dup2(nul, 0); dup2(e, 1); dup2(e, 2);
				for (int i = 3; i < 200; i++) ::close(i);
				signal(SIGCHLD, SIG_DFL);
				std::string cf = dir + "/conf";
				const char *argv[] = {"/proc/self/exe", "--program", "ctrlproxyd", "--foreground", "--config-file", cf.c_str(), NULL};
				execv(argv[0], (char **)argv);
				_exit(99);
			}
			for (int i = 0; i < 3000; i++) {
				if (gone()) break;
				int fd = dial();
				if (fd >= 0) { ::close(fd); if (listening()) return; break; }
				usleep(1000);
			}
			stop();
		}
		fail(c, "start", "the daemon does not start: %s", log().c_str());
	}
	// it is the daemon that has the port, nobody else who took it meanwhile
	bool listening() {
		char want[20];
		snprintf(want, sizeof want, ":%04X", port);
		std::string ino;
		std::istringstream all(slurp("/proc/net/tcp"));
		for (std::string l; std::getline(all, l);) {
			char loc[64], rem[64], st[16], in[32];
			if (sscanf(l.c_str(), " %*s %63s %63s %15s %*s %*s %*s %*s %*s %31s", loc, rem, st, in) == 4 && strstr(loc, want) && !strcmp(st, "0A")) ino = in;
		}
		std::string d = "/proc/" + std::to_string(pid) + "/fd";
		DIR *dp = opendir(d.c_str());
		bool ok = false;
		if (!dp) return false;
		while (struct dirent *e = readdir(dp)) { char b[100]; ssize_t n = readlink((d + "/" + e->d_name).c_str(), b, sizeof b - 1); if (n > 0) { b[n] = 0; ok = ok || b == "socket:[" + ino + "]"; } }
		closedir(dp);
		return ok;
	}
	int dial() {
		int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
		struct sockaddr_in sa;
		memset(&sa, 0, sizeof sa);
		sa.sin_family = AF_INET;
		sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		sa.sin_port = htons(port);
		if (connect(fd, (struct sockaddr *)&sa, sizeof sa) < 0) { ::close(fd); return -1; }
		struct linger lg = {1, 0};
		setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
		int one = 1;
		setsockopt(fd, SOL_TCP, TCP_NODELAY, &one, sizeof one);
		fcntl(fd, F_SETFL, O_NONBLOCK);
		return fd;
	}
	std::string log() { std::string s = slurp(errs); return s.size() > 3000 ? s.substr(0, 3000) : s; }
	bool gone() { if (pid < 0) return true; int st; if (waitpid(pid, &st, WNOHANG) == pid) { pid = -1; return true; } return false; }
	void alive() { if (gone()) fail(c, "crash", "the daemon is gone: %s", log().c_str()); }
	void stop() { if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, NULL, 0); pid = -1; } }
	~Daemon() { stop(); for (auto &b : backs) if (b->fd >= 0) ::close(b->fd); }
	PeerP connect_client() {
		int fd = dial();
		if (fd < 0) { alive(); fail(c, "refused", "the daemon does not accept connections"); }
		return std::make_shared<Peer>(fd);
	}
	PeerP accept(Back *b, int ms) {
		int got = -1;
		pump_until([&] { if (got < 0) got = ::accept4(b->fd, NULL, NULL, SOCK_NONBLOCK | SOCK_CLOEXEC); return got >= 0; }, ms);
		return got < 0 ? nullptr : std::make_shared<Peer>(got);
	}
	// the proxy of dave, and no other, was started that often
	void started_are(int n) {
		std::string want, got;
		while (n--) want += "--config-dir " + dir + "/users/dave --restricted \n";
		pump_until([&] { got = slurp(started); return got.size() >= want.size(); }, 3000);
		alive();
		if (got != want) fail(c, "started", "started were %s instead of %s", q(got).c_str(), q(want).c_str());
	}
	// nobody who has no business there was connected to
	void quiet(const char *when) {
		pump();
		for (auto &b : backs) { int fd = ::accept(b->fd, NULL, NULL); if (fd >= 0) { ::close(fd); fail(c, "connection", "%s: a connection to the proxy of %s", when, b->user.c_str()); } }
	}
};

struct Conn {
	PeerP p, b;                     // client, and its connection to a proxy
	Back *at = nullptr;
	std::string name;
	enum { LOGIN, ASKED, IN, SOCKSAUTH } st = LOGIN;
	std::string nick, user, pass, host, port;
	bool has_nick = false, has_user = false, has_pass = false, has_host = false;
	Strs userline;
	bool socks = false;
};

static void plain(Src &s, Ctx &c)
{
	Src h = s.block(8);
	Daemon d(c);
	d.user("alice", "pwa");
	d.user("bob", h.chance(1, 2) ? "pwa" : "pwb");
	d.user("carol", "x y");
	// where nobody must get by naming it
	mkdir((d.dir + "/other").c_str(), 0700);
	write_file(d.dir + "/other/pid", std::to_string(getpid()));
	{ Back *b = new Back(); b->user = "../other"; b->fd = Daemon::listen_at(d.dir + "/other/socket"); d.backs.emplace_back(b); }
	mkdir((d.dir + "/users/dave").c_str(), 0700);      // has a proxy, which is not running
	d.start();
	std::vector<std::unique_ptr<Conn>> cs;
	long seq = 0;
	int sessions = 0, relayed = 0, refused = 0, starts = 1;
	d.started_are(starts);

	auto closed = [&](PeerP p, const char *what) {
		pump_until([&] { return p->eof; }, 3000);
		d.alive();
		if (!p->eof) fail(c, "open", "%s: the connection stays open", what);
	};
	auto lines = [&](PeerP p, size_t n, const char *what) {
		pump_until([&] { return p->lines.size() >= n || p->eof; }, 3000);
		d.alive();
		if (p->lines.size() < n) fail(c, "missing", "%s: %zu lines of %zu%s", what, p->lines.size(), n, p->eof ? ", and the connection is closed" : "");
		return p->take();
	};
	auto exact = [&](PeerP p, const Strs &want, const char *what) {
		Strs g = lines(p, want.size(), what);
		for (size_t i = 0; i < std::max(g.size(), want.size()); i++)
			if (i >= g.size() || i >= want.size() || msg(g[i]).a != msg(want[i]).a) fail(c, "lines", "%s: %s instead of %s", what, i < g.size() ? q(g[i]).c_str() : "nothing", i < want.size() ? q(want[i]).c_str() : "nothing");
	};
	auto drop = [&](size_t i) { cs.erase(cs.begin() + i); };
	// what is sent last arrives, so nothing is still on its way
	auto settle = [&](Conn &k, const char *what) {
		if (k.st == Conn::LOGIN) {
			std::string t = "XSYNC" + std::to_string(seq++);
			k.p->line(t);
			Strs g = lines(k.p, 1, what);
			if (g.size() != 1 || msg(g[0]).a[0] != "451") fail(c, "lines", "%s: %s instead of 451", what, q(g[0]).c_str());
		} else if (k.st == Conn::IN) {
			std::string t = "sync" + std::to_string(seq++);
			k.p->line("PRIVMSG x :" + t);
			exact(k.b, {"PRIVMSG x :" + t}, what);
			k.b->line(":a!b@c PRIVMSG me :" + t);
			exact(k.p, {":a!b@c PRIVMSG me :" + t}, what);
		}
	};
	// the login is complete: true when the connection is to go on
	auto asked = [&](Conn &k, Src &o) -> bool {
		Back *b = nullptr;
		for (auto &x : d.backs) if (x->user == k.user && k.user.find('/') == std::string::npos) b = x.get();
		if (!b) {
			c.log("-- %s: no proxy", k.name.c_str());
			refused++;
			closed(k.p, "logging in as somebody without a proxy");
			for (auto &l : k.p->take()) if (msg(l).a[0] != "ERROR") fail(c, "lines", "logging in as somebody without a proxy: %s", q(l).c_str());
			d.quiet("logging in as somebody without a proxy");
			if (k.user == "dave") {
				starts++;
				d.started_are(starts);
				c.tag("started");
			}
			return false;
		}
		k.b = d.accept(b, 3000);
		d.alive();
		if (!k.b) fail(c, "connect", "%s: no connection to the proxy of %s", k.name.c_str(), b->user.c_str());
		k.at = b;
		d.quiet("connecting");
		exact(k.b, {"PASS :" + k.pass}, "asking the proxy");
		k.st = Conn::ASKED;
		return true;
	};

	while (!s.empty()) {
		Src o = s.block(12);
		d.alive();
		if (cs.empty() || (cs.size() < 4 && o.chance(1, 5))) {
			cs.emplace_back(new Conn());
			cs.back()->p = d.connect_client();
			cs.back()->name = "c" + std::to_string(seq++);
			c.log("-- %s connects", cs.back()->name.c_str());
			continue;
		}
		size_t i = o.range(cs.size());
		Conn &k = *cs[i];
		if (k.st == Conn::LOGIN) {
			std::string l;
			std::vector<int> todo;
			if (!k.has_nick) todo.push_back(0);
			if (!k.has_user) todo.push_back(1);
			if (!k.has_pass) todo.push_back(2);
			uint32_t w = o.range(10);
			int what = w < 7 ? todo[o.range(todo.size())] : (int)w - 4;
			bool last = todo.size() == 1;
			switch (what) {
			case 0: k.nick = o.pick(Strs{"me", "Alice", "x[1]"}); k.has_nick = true; l = "NICK " + k.nick; break;
			case 1: k.user = o.pick(Strs{"alice", "alice", "bob", "carol", "dave", "nosuch", "../other", "Alice", "", ".", ".."}); k.has_user = true; k.userline = {"USER", k.user, o.pick(Strs{"0", "a"}), "*", o.pick(Strs{"Real Name", "x", ":y"})}; if (k.user.empty()) { l = "USER :"; k.has_user = false; break; } l = "USER " + k.userline[1] + " " + k.userline[2] + " " + k.userline[3] + " :" + k.userline[4]; break;
			case 2: k.pass = o.pick(Strs{"pwa", "pwb", "x y", "wrong", "pwa:net"}); k.has_pass = true; l = "PASS :" + k.pass; break;
			case 3: k.host = o.pick(Strs{"irc.example", "net"}); k.port = o.pick(Strs{"6667", ""}); k.has_host = true; l = "CONNECT " + k.host + (k.port.empty() ? "" : " " + k.port); break;
			case 4: {
				l = o.pick(Strs{"JOIN #x", "PING x", "USER a", "FOO"});
				k.p->line(l);
				c.log("%s< %s", k.name.c_str(), q(l).c_str());
				Strs g = lines(k.p, l == "USER a" ? 1 : 1, "not registered");
				if (msg(g[0]).a[0] != "451" && msg(g[0]).a[0] != "461") fail(c, "lines", "%s got %s", q(l).c_str(), q(g[0]).c_str());
				continue;
			}
			default:
				c.log("-- %s leaves", k.name.c_str());
				if (o.chance(1, 2)) { k.p->line("QUIT"); closed(k.p, "QUIT"); } else k.p->close();
				drop(i);
				d.quiet("a client left");
				continue;
			}
			c.log("%s< %s", k.name.c_str(), q(l).c_str());
			if (l == "USER :") { k.p->line(l); lines(k.p, 1, "USER without arguments"); continue; }
			if (o.chance(1, 3)) { size_t cut = o.range(l.size()); k.p->send(l.substr(0, cut)); usleep(500); pump(); k.p->send(l.substr(cut) + (o.chance(1, 2) ? "\n" : "\r\n")); } else k.p->line(l);
			if (last && what < 3) { if (!asked(k, o)) drop(i); }
			else settle(k, "logging in");
			continue;
		}
		if (k.st == Conn::ASKED) {
			switch (o.range(6)) {
			case 0:
				c.log("-- %s leaves before the answer", k.name.c_str());
				k.p->close();
				closed(k.b, "the client left before the answer");
				drop(i);
				continue;
			case 1:
				c.log("-- the proxy of %s closes before the answer", k.name.c_str());
				k.b->close();
				closed(k.p, "the proxy left before the answer");
				drop(i);
				continue;
			default:
				if (k.pass == k.at->pass || k.pass == k.at->pass + ":net") {
					k.b->line("NOTICE AUTH :PASS OK");
					Strs want;
					if (k.has_host) want.push_back("CONNECT " + k.host + (k.port.empty() ? "" : " " + k.port));
					want.push_back("USER " + k.userline[1] + " " + k.userline[2] + " " + k.userline[3] + " :" + k.userline[4]);
					want.push_back("NICK " + k.nick);
					exact(k.b, want, "let in");
					c.log("-- %s is let in by %s", k.name.c_str(), k.at->user.c_str());
					k.st = Conn::IN;
					sessions++;
					settle(k, "let in");
				} else {
					c.log("-- %s is refused by %s", k.name.c_str(), k.at->user.c_str());
					k.b->line(":host 464 * :Password mismatch");
					closed(k.p, "refused");
					Strs g = k.p->take();
					if (g.size() != 1 || msg(g[0]).a[0] != "464") fail(c, "refused", "refused, the client got %s", g.empty() ? "nothing" : q(g[0]).c_str());
					closed(k.b, "refused");
					if (!k.b->take().empty()) fail(c, "refused", "refused, and the proxy got lines");
					refused++;
					drop(i);
				}
			}
			continue;
		}
		// a session
		uint32_t w = o.range(8);
		if (w == 7) {
			bool mine = o.chance(1, 2), end = o.chance(1, 2);
			c.log("-- %s: %s closes", k.name.c_str(), mine ? "the client" : "the proxy");
			if (end) { (mine ? k.p : k.b)->line("LAST words"); }
			(mine ? k.p : k.b)->close();
			closed(mine ? k.b : k.p, mine ? "the client left" : "the proxy left");
			drop(i);
			continue;
		}
		Strs want;
		std::string bytes;
		for (uint32_t n = 1 + o.range(o.chance(1, 8) ? 60 : 4); n--;) {
			std::string l = o.pick(Strs{"PRIVMSG #a :hello there ", "JOIN #", "PASS ", "QUIT :", "NICK n", "CONNECT h", ":a!b@c NOTICE x :caf\xc3\xa9 \xe9\xff ", "464 * :", "NOTICE AUTH :PASS OK ", "ERROR :"}) + std::to_string(seq++);
			if (o.chance(1, 6)) l += std::string(o.range(440), 'y');
			want.push_back(l);
			bytes += l + (o.chance(1, 6) ? "\n" : "\r\n");
		}
		bool up = w < 4;
		c.log("%s %s %zu lines, the first %s", k.name.c_str(), up ? "sends" : "gets", want.size(), q(want[0]).c_str());
		PeerP a = up ? k.p : k.b, b = up ? k.b : k.p;
		if (o.chance(1, 3) && bytes.size() > 2) { size_t cut = 1 + o.range(bytes.size() - 1); a->send(bytes.substr(0, cut)); usleep(500); pump(); bytes.erase(0, cut); }
		a->send(bytes);
		exact(b, want, up ? "from the client" : "from the proxy");
		relayed += want.size();
		for (auto &x : cs) settle(*x, "others");
	}
	for (auto &x : cs) settle(*x, "at the end");
	d.quiet("at the end");
	d.started_are(starts);
	d.alive();
	if (h.chance(1, 2)) {
		c.log("-- the daemon is told to end");
		kill(d.pid, SIGTERM);
		int st = -1;
		pump_until([&] { return waitpid(d.pid, &st, WNOHANG) == d.pid; }, 5000);
		if (st != 0) fail(c, "end", "told to end, its status is %d: %s", st, d.log().c_str());
		d.pid = -1;
		for (auto &x : cs) {
			pump_until([&] { return x->p->eof; }, 1000);
			Strs g = x->p->take();
			if (x->st == Conn::IN && (g.size() != 1 || msg(g[0]).a[0] != "ERROR")) fail(c, "end", "when the daemon ends, a client gets %s", g.empty() ? "nothing" : q(g[0]).c_str());
		}
	}
	if (sessions && relayed && (refused || sessions > 1)) c.nontrivial();
	cs.clear();
	close_all_peers();
}

// The same for those coming by way of SOCKS.
static void socks(Src &s, Ctx &c)
{
	Daemon d(c);
	d.user("alice", "pwa");
	d.user("bob", "pw b");
	d.start();
	struct K { PeerP p, b; Back *at = nullptr; int st = 0; size_t seen = 0; std::string pass, name; };
	std::vector<std::unique_ptr<K>> cs;
	long seq = 0;
	int sessions = 0, ends = 0;
	auto closed = [&](PeerP p, const char *what) {
		pump_until([&] { return p->eof; }, 3000);
		d.alive();
		if (!p->eof) fail(c, "open", "%s: the connection stays open", what);
	};
	auto bytes = [&](K &k, const std::string &want, const char *what) {
		pump_until([&] { return k.p->raw.size() >= k.seen + want.size() || k.p->eof; }, 3000);
		d.alive();
		pump();
		std::string g = k.p->raw.substr(k.seen);
		k.seen = k.p->raw.size();
		if (g != want) fail(c, "reply", "%s: the answer is %s instead of %s", what, q(g).c_str(), q(want).c_str());
	};
	auto line = [&](PeerP p, const Strs &want, const char *what) {
		pump_until([&] { return p->lines.size() >= want.size() || p->eof; }, 3000);
		d.alive();
		pump();
		Strs g = p->take();
		for (size_t i = 0; i < std::max(g.size(), want.size()); i++)
			if (i >= g.size() || i >= want.size() || msg(g[i]).a != msg(want[i]).a) fail(c, "lines", "%s: %s instead of %s", what, i < g.size() ? q(g[i]).c_str() : "nothing", i < want.size() ? q(want[i]).c_str() : "nothing");
	};
	// in pieces, sometimes
	auto put = [&](K &k, Src &o, const std::string &b) {
		size_t at = 0;
		c.log("%s< %s", k.name.c_str(), q(b).c_str());
		for (int n = o.chance(1, 2) ? 1 + o.range(3) : 0; n-- && at < b.size();) { size_t l = o.range(b.size() - at); k.p->send(b.substr(at, l)); at += l; usleep(400); pump(); }
		k.p->send(b.substr(at));
	};
	while (!s.empty()) {
		Src o = s.block(12);
		d.alive();
		if (cs.empty() || (cs.size() < 4 && o.chance(1, 6))) {
			cs.emplace_back(new K());
			cs.back()->p = d.connect_client();
			cs.back()->name = "c" + std::to_string(seq++);
			c.log("-- %s connects", cs.back()->name.c_str());
			continue;
		}
		size_t i = o.range(cs.size());
		K &k = *cs[i];
		auto drop = [&] { ends++; cs.erase(cs.begin() + i); };
		if (o.chance(1, 10)) {
			bool mine = !k.b || o.chance(1, 2);
			c.log("-- %s leaves (%s)", k.name.c_str(), mine ? "the client" : "the proxy");
			(mine ? k.p : k.b)->close();
			if (mine ? k.b != nullptr : true) closed(mine ? k.b : k.p, mine ? "the client left" : "the proxy left");
			drop();
			d.quiet("somebody left");
			continue;
		}
		switch (k.st) {
		case 0: {
			std::string m = o.pick(Strs{"\x02", std::string("\x00\x02", 2), std::string("\x00", 1), "\x80\x7f\x02", "\xff", ""});
			put(k, o, "\x05" + std::string(1, (char)m.size()) + m);
			if (m.find('\x02') == std::string::npos) { bytes(k, "\x05\xff", "no method offered is accepted"); closed(k.p, "no method offered is accepted"); drop(); break; }
			bytes(k, "\x05\x02", "the methods offered");
			k.st = 1;
			break;
		}
		case 1: {
			std::string u = o.pick(Strs{"alice", "alice", "bob", "bob", "nosuch", "../users/bob", "", ".", "Alice"});
			if (o.chance(1, 12)) u = std::string(255, 'u');
			k.pass = o.pick(Strs{"pwa", "pw b", "pwa", "pw b", "", "x"});
			if (o.chance(1, 12)) k.pass = std::string(255, 'p');
			put(k, o, "\x01" + std::string(1, (char)u.size()) + u + std::string(1, (char)k.pass.size()) + k.pass);
			for (auto &b : d.backs) if (b->user == u) k.at = b.get();
			if (!k.at) { closed(k.p, "somebody without a proxy"); d.quiet("somebody without a proxy"); drop(); break; }
			k.b = d.accept(k.at, 3000);
			d.alive();
			if (!k.b) fail(c, "connect", "no connection to the proxy of %s", u.c_str());
			d.quiet("connecting");
			line(k.b, {"PASS :" + k.pass}, "asking the proxy");
			k.st = 2;
			break;
		}
		case 2:
			if (k.pass == k.at->pass) {
				k.b->line("NOTICE AUTH :PASS OK");
				bytes(k, std::string("\x01\x00", 2), "let in");
				c.log("-- %s is let in", k.name.c_str());
				k.st = 3;
			} else {
				k.b->line(":host 464 * :No");
				closed(k.p, "refused");
				std::string g = k.p->raw.substr(k.seen);
				if (g.size() != 2 || g[0] != 1 || g[1] == 0) fail(c, "reply", "refused, the answer is %s", q(g).c_str());
				closed(k.b, "refused");
				drop();
			}
			break;
		case 3: {
			if (o.chance(1, 8)) {
				put(k, o, std::string("\x05\x01\x00\x01\x7f\x00\x00\x01\x1a\x0b", 10));
				closed(k.p, "an address that is not a name");
				std::string g = k.p->raw.substr(k.seen);
				if (g.size() < 2 || g[0] != 5 || g[1] == 0) fail(c, "reply", "asking for an address that is not a name, the answer is %s", q(g).c_str());
				closed(k.b, "an address that is not a name");
				drop();
				break;
			}
			std::string h = o.chance(1, 3) ? std::string(o.pick(std::vector<int>{1, 126, 127, 128, 200, 253, 254, 255}), 'h') : o.pick(Strs{"irc.example.net", "localhost", "127.0.0.1", "a"});
			int port = o.pick(std::vector<int>{6667, 1, 65535, 0, 255, 256});
			std::string pt = {(char)(port >> 8), (char)port};
			put(k, o, std::string("\x05\x01\x00\x03", 4) + std::string(1, (char)h.size()) + h + pt);
			std::string a = h.substr(0, 254);         // there is no room for more
			bytes(k, std::string("\x05\x00\x00\x03", 4) + std::string(1, (char)a.size()) + a + pt, "connected");
			line(k.b, {"CONNECT " + h + " " + std::to_string(port)}, "connected");
			k.p->take();
			k.p->buf.clear();
			k.st = 4;
			sessions++;
			break;
		}
		default: {
			Strs up, down;
			for (uint32_t n = o.range(4); n--;) { up.push_back("PRIVMSG #a :" + std::to_string(seq++)); k.p->line(up.back()); }
			for (uint32_t n = o.range(4); n--;) { down.push_back(":a!b@c PRIVMSG #a :" + std::to_string(seq++)); k.b->line(down.back()); }
			c.log("-- %s sends %zu lines, gets %zu", k.name.c_str(), up.size(), down.size());
			line(k.b, up, "from the client");
			line(k.p, down, "from the proxy");
		}
		}
		for (auto &x : cs) if (x->p->eof || (x->b && x->b->eof)) fail(c, "closed", "%s: its connection is closed", x->name.c_str());
	}
	d.quiet("at the end");
	d.alive();
	if (sessions && ends) c.nontrivial();
	cs.clear();
	close_all_peers();
}

// With the proxy itself behind it.
static void real(Src &s, Ctx &c)
{
	Src h = s.block(4);
	Daemon d(c);
	std::string pw = h.pick(Strs{"pw", "a b", "p"});
	mkdir((d.dir + "/users/real").c_str(), 0700);
	write_file(d.dir + "/users/real/pid", std::to_string(getpid()));
	d.start();
	start_global("[global]\nautosave=false\nreplication=none\npassword=" + pw + "\n");
	g_free(G->config->network_socket);
	G->config->network_socket = g_strdup((d.dir + "/users/real/socket").c_str());
	if (!start_unix_domain_socket_listener(G)) abort();
	PeerP srv;
	struct irc_network *n = start_network(add_network_config("net", "me"), srv);
	srv->line(":irc.test 001 me :Welcome");
	srv->line(":irc.test 376 me :End");
	pump();
	srv->take();
	std::vector<PeerP> in;
	long seq = 0;
	int logins = 0, refused = 0, said = 0;
	auto until = [&](PeerP p, const std::string &what) {
		Strs all;
		pump_until([&] { for (auto &l : p->take()) all.push_back(l); for (auto &l : all) if (l.find(what) != std::string::npos) return true; return p->eof; }, 3000);
		d.alive();
		for (auto &l : all) if (l.find(what) != std::string::npos) return all;
		fail(c, "missing", "%s does not arrive%s", what.c_str(), p->eof ? ", the connection is closed" : "");
		return all;
	};
	auto count = [&](const Strs &ls, const std::string &what) { int k = 0; for (auto &l : ls) k += l.find(what) != std::string::npos; return k; };
	auto closed = [&](PeerP p, const char *what) { pump_until([&] { return p->eof; }, 3000); d.alive(); if (!p->eof) fail(c, "open", "%s: the connection stays open", what); };
	while (!s.empty()) {
		Src o = s.block(8);
		d.alive();
		uint32_t w = o.range(10);
		if (w < 3 && in.size() < 4) {
			PeerP p = d.connect_client();
			bool good = o.chance(3, 4), so = o.chance(1, 3);
			std::string pass = good ? pw : o.pick(Strs{"x", pw + "x", pw.substr(1)});
			c.log("-- %s comes%s", good ? "somebody" : "a stranger", so ? " by SOCKS" : "");
			if (so) {
				std::string u = "real";
				p->send(std::string("\x05\x01\x02", 3));
				pump_until([&] { return p->raw.size() >= 2 || p->eof; }, 3000);
				p->send("\x01\x04" + u + std::string(1, (char)pass.size()) + pass);
				pump_until([&] { return p->raw.size() >= 4 || p->eof; }, 3000);
				if (p->raw != std::string("\x05\x02\x01", 3) + (good ? '\0' : '\1')) fail(c, "reply", "SOCKS answers %s", q(p->raw).c_str());
				if (good) {
					p->send(std::string("\x05\x01\x00\x03\x03" "net" "\x1a\x0b", 10));
					pump_until([&] { return p->raw.size() >= 14 || p->eof; }, 3000);
					if (p->raw.substr(4) != std::string("\x05\x00\x00\x03\x03" "net" "\x1a\x0b", 10)) fail(c, "reply", "SOCKS answers %s", q(p->raw).c_str());
					p->buf.clear();
					p->lines.clear();
					p->send("NICK me\r\nUSER cu 0 * :Client\r\n");
				}
			} else {
				Strs ls = {"PASS :" + pass + ":net", "NICK me", "USER real 0 * :Client"};
				std::swap(ls[0], ls[o.range(3)]);
				for (auto &l : ls) p->line(l);
			}
			if (good) {
				until(p, " 001 me ");
				std::string t = "in" + std::to_string(seq++);
				p->line("PING :" + t);
				until(p, t);
				in.push_back(p);
				logins++;
			} else {
				closed(p, "a wrong password");
				if (!so && count(p->take(), " 464 ") != 1) fail(c, "refused", "a wrong password is not called that");
				refused++;
			}
		} else if (w < 5 && !in.empty()) {
			size_t i = o.range(in.size());
			c.log("-- one leaves");
			if (o.chance(1, 2)) { in[i]->line("QUIT :bye"); closed(in[i], "QUIT"); } else in[i]->close();
			in.erase(in.begin() + i);
			pump_until([&] { return g_list_length(n->clients) == in.size(); }, 3000);
			d.alive();
			if (g_list_length(n->clients) != in.size()) fail(c, "left", "the proxy has %u clients, there are %zu", g_list_length(n->clients), in.size());
		} else if (w < 8 && !in.empty()) {
			size_t i = o.range(in.size());
			std::string t = "up" + std::to_string(seq++) + ".";
			c.log("-- one says %s", t.c_str());
			in[i]->line("PRIVMSG #x :" + t);
			Strs g = until(srv, t);
			if (count(g, t) != 1) fail(c, "twice", "the server got it %d times", count(g, t));
			for (size_t j = 0; j < in.size(); j++) if (j != i) { Strs q = until(in[j], t); if (count(q, t) != 1) fail(c, "twice", "another client got it %d times", count(q, t)); }
			said++;
		} else {
			std::string t = "down" + std::to_string(seq++) + ".";
			c.log("-- the server says %s", t.c_str());
			srv->line(":a!b@c PRIVMSG me :" + t);
			for (auto &p : in) { Strs q = until(p, t); if (count(q, t) != 1) fail(c, "twice", "a client got it %d times", count(q, t)); said++; }
		}
		if (g_list_length(n->clients) != in.size()) fail(c, "left", "the proxy has %u clients, there are %zu", g_list_length(n->clients), in.size());
	}
	d.alive();
	if (logins && refused && said) c.nontrivial();
	in.clear();
	close_all_peers();
}

// Whatever anybody sends, the daemon goes on serving the others.
static void rough(Src &s, Ctx &c)
{
	Daemon d(c);
	d.user("alice", "pwa");
	d.user("bob", "pwb");
	d.start();
	struct K { PeerP p, b; };
	std::vector<K> cs;
	int acts = 0;
	static const Strs CL = {"PASS pwa", "PASS", "PASS :", "NICK me", "NICK", "NICK :", "USER alice 0 * :x", "USER bob 0 * :x", "USER", "USER a b", "USER nosuch a b :c", "USER . a b c", "CONNECT", "CONNECT h", "CONNECT h 1", "QUIT", "", ":", ":a", ": b", "PING", "JOIN #a", "\x05", "PRIVMSG a :b", "%s%n%s", "USER %s%s%n b c :d", "\xff\xfe"};
	static const Strs BK = {"NOTICE AUTH :PASS OK", "NOTICE AUTH :PASS OK", "NOTICE", "NOTICE AUTH", "NOTICE AUTH x", "464", "464 * :no", ":", "", "ERROR", "ERROR :x", ":a", "PING", "001 me :hi", "PRIVMSG me :x", "%s%n", "\xff\xfe", "NOTICE :", ":h NOTICE AUTH :PASS OK", "464464464"};
	while (!s.empty()) {
		Src o = s.block(16);
		acts++;
		if (cs.empty() || o.chance(1, 6)) { if (cs.size() > 5) cs.erase(cs.begin()); cs.push_back({d.connect_client(), nullptr}); c.log("-- connects"); if (o.chance(2, 3)) { std::string l = "PASS pwa\r\nNICK me\r\nUSER alice 0 * :x\r\n"; cs.back().p->send(l); c.log("C< %s", q(l).c_str()); cs.back().b = d.accept(d.backs[0].get(), 500); } continue; }
		K &k = cs[o.range(cs.size())];
		for (auto &b : d.backs) if (!k.b) k.b = d.accept(b.get(), 1);
		uint32_t w = o.range(12);
		std::string l;
		if (w < 4) {
			l = o.pick(CL);
			if (o.chance(1, 4)) { static const Strs SK = {std::string("\x05\x01\x02", 3), std::string("\x01\x05" "alice" "\x03" "pwa"), std::string("\x05\x01\x00\x03\x03" "net" "\x1a\x0b", 10), std::string("\x05\x01\x00\x01\x7f\x00\x00\x01\x1a\x0b", 10), std::string("\x05\x01\x00\x03", 4) + std::string(1, (char)200) + std::string(200, 'h') + "ab"}; l = o.pick(SK); k.p->send(l); }
			else if (o.chance(1, 4)) { std::string j; for (uint32_t n = o.range(12); n--;) j += (char)o.byte(); l = j; k.p->send(l + (o.chance(1, 2) ? "\n" : "")); }
			else k.p->line(l);
			c.log("C< %s", q(l).c_str());
		} else if (w < 9) {
			if (!k.b) continue;
			l = o.pick(BK);
			if (o.chance(1, 10)) l += std::string(o.range(3000), 'z');
			k.b->line(l);
			c.log("B< %s", q(l).c_str());
		} else if (w == 9) { k.p->close(); c.log("-- the client leaves"); if (k.b && o.chance(1, 2)) { k.b->line("PRIVMSG a :b"); } }
		else if (w == 10) { if (k.b) { k.b->close(); c.log("-- the proxy leaves"); if (o.chance(1, 2)) k.p->line("PRIVMSG a :b"); } }
		else if (w == 11) { c.log("-- both leave"); k.p->close(); if (k.b) k.b->close(); }
		usleep(o.chance(1, 3) ? 2000 : 200);
		pump();
		d.alive();
	}
	usleep(2000);
	cs.clear();
	// still there for who comes next
	for (auto &b : d.backs) { int fd; while ((fd = ::accept(b->fd, NULL, NULL)) >= 0) ::close(fd); }
	PeerP p = d.connect_client();
	p->send("PASS last\r\nUSER bob 0 * :Last\r\nNICK last\r\n");
	PeerP b;
	for (int i = 0; i < 50; i++) {       // what is left of the others may come first
		b = d.accept(d.backs[1].get(), 200);
		d.alive();
		if (!b) continue;
		pump_until([&] { return !b->lines.empty() || b->eof; }, 1000);
		if (!b->lines.empty() && msg(b->lines[0]).a == Strs{"PASS", "last"}) break;
		b.reset();
	}
	d.alive();
	if (!b) fail(c, "hangs", "the daemon does not serve the next client");
	b->take();
	b->line("NOTICE AUTH :PASS OK");
	pump_until([&] { return b->lines.size() >= 2 || b->eof; }, 3000);
	d.alive();
	if (b->lines.size() < 2) fail(c, "hangs", "the next client gets no session");
	if (acts > 5) c.nontrivial();
	close_all_peers();
}

Property the_property = {
	"P25",
	"a session with relayed lines, and another session or a refusal; rough: more than 5 events; socks: a session, and one that ended; real: a login, a refusal and a message",
	{"a proxy answers the password first, as it does", "a client sends nothing between its login and the answer (what becomes of that is not laid down)"},
	{
		{"plain", plain, 8, 12, 60, 1200, 10000, 1},
		{"socks", socks, 0, 12, 60, 1000, 10000, 1},
		{"real", real, 4, 8, 40, 600, 6000, 1},
		{"rough", rough, 0, 16, 40, 1200, 20000, 1},
	}};
