// P26: the program ends, saves and starts again as it was left.
// BUILD: main
#include "world.h"
#include <netinet/tcp.h>
#include <sstream>
#include <set>
#include <sys/prctl.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>

extern "C" int proxy_main(int argc, char **argv);
int (*program_main)(int, char **) = proxy_main;

// ---- the IRC server ----
struct Ircd {
	Listener l;
	struct Conn { PeerP p; bool reg = false, ready = false; std::string nick, user; std::map<std::string, std::string> chans; Strs said; bool quit = false; };
	std::vector<std::unique_ptr<Conn>> cs;
	Conn *cur() { return cs.empty() || cs.back()->p->eof ? nullptr : cs.back().get(); }
	void serve() {
		for (;;) {
			int fd = ::accept4(l.fd, NULL, NULL, SOCK_NONBLOCK | SOCK_CLOEXEC);
			if (fd < 0) break;
			int one = 1;
			setsockopt(fd, SOL_TCP, TCP_NODELAY, &one, sizeof one);
			cs.emplace_back(new Conn());
			cs.back()->p = std::make_shared<Peer>(fd);
		}
		for (auto &k : cs) {
			k->p->drain();
			for (auto &ln : k->p->take()) {
				Msg m = msg(ln);
				std::string cmd = m.arg(0), me = ":" + k->nick + "!u@h ";
				if (cmd == "NICK") { if (k->reg) k->p->line(me + "NICK :" + m.arg(1)); k->nick = m.arg(1); }
				else if (cmd == "USER") {
					k->user = ln;
					k->reg = true;
					for (auto &x : Strs{"001 " + k->nick + " :Welcome " + k->nick + "!u@h", "005 " + k->nick + " CHANTYPES=# PREFIX=(ov)@+ CHANMODES=b,k,l,imnpst NETWORK=Net :are supported", "375 " + k->nick + " :-", "376 " + k->nick + " :End"}) k->p->line(":irc.test " + x);
				}
				else if (cmd == "PING") k->p->line(":irc.test PONG irc.test :" + m.arg(1));
				else if (cmd == "JOIN") {
					std::istringstream names(m.arg(1)), keys(m.arg(2));
					for (std::string n, key; std::getline(names, n, ',');) {
						key.clear();
						std::getline(keys, key, ',');
						if (k->chans.count(n)) continue;
						k->chans[n] = key;
						k->p->line(me + "JOIN :" + n);
						k->p->line(":irc.test 353 " + k->nick + " = " + n + " :@" + k->nick + " bob");
						k->p->line(":irc.test 366 " + k->nick + " " + n + " :End");
					}
				}
				else if (cmd == "PART") { if (k->chans.erase(m.arg(1))) k->p->line(me + "PART " + m.arg(1)); }
				else if (cmd == "MODE" && m.a.size() == 2 && k->chans.count(m.arg(1))) { std::string key = k->chans[m.arg(1)]; k->p->line(":irc.test 324 " + k->nick + " " + m.arg(1) + (key.empty() ? " +nt" : " +ntk " + key)); }
				else if (cmd == "WHO") k->p->line(":irc.test 315 " + k->nick + " " + m.arg(1) + " :End");
				else if (cmd == "USERHOST") k->ready = true, k->p->line(":irc.test 302 " + k->nick + " :" + k->nick + "=+u@h");
				else if (cmd == "PRIVMSG") k->said.push_back(ln);
				else if (cmd == "QUIT") k->quit = true;
			}
		}
	}
};

struct State {                          // what is to be kept
	std::string nick = "me";
	std::map<std::string, std::string> chans, set;
	bool operator==(const State &o) const { return nick == o.nick && chans == o.chans && set == o.set; }
};

struct Prog {
	Ctx &c;
	std::string dir, conf, errs, logf;
	pid_t pid = -1;
	int status = -1;
	Ircd srv;
	explicit Prog(Ctx &ctx) : c(ctx) { dir = scratch(); conf = dir + "/conf"; errs = dir + "/err"; logf = dir + "/prog.log"; mkdir(conf.c_str(), 0700); }
	~Prog() { if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, NULL, 0); } }
	static pid_t spawn(const Strs &args, int in, const std::string &out) {
		pid_t pid = fork();
		if (pid) return pid;
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		setsid();
		int e = open(out.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0600), nul = in >= 0 ? in : open("/dev/null", O_RDONLY);
		dup2(nul, 0); dup2(e, 1); dup2(e, 2);
		for (int i = 3; i < 200; i++) ::close(i);
		signal(SIGCHLD, SIG_DFL);
		std::vector<char *> argv = {(char *)"/proc/self/exe", (char *)"--program", (char *)"ctrlproxy"};
		for (auto &a : args) argv.push_back((char *)a.c_str());
		argv.push_back(NULL);
		execv(argv[0], argv.data());
		_exit(99);
	}
	bool until(const std::function<bool()> &f, int ms = 4000) { bool r = false; pump_until([&] { srv.serve(); return r = f(); }, ms); return r; }
	std::string log() { std::string s = slurp(errs) + slurp(logf); return s.size() > 4000 ? s.substr(s.size() - 4000) : s; }
	bool gone() { if (pid < 0) return true; int st; if (waitpid(pid, &st, WNOHANG) == pid) { pid = -1; status = st; return true; } return false; }
	void alive(const char *what) { if (gone()) fail(c, "gone", "%s: the program ended, status %d: %s", what, status, log().c_str()); }
	int dial(const char *name = "socket") {
		int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
		struct sockaddr_un un;
		memset(&un, 0, sizeof un);
		un.sun_family = AF_UNIX;
		strncpy(un.sun_path, (conf + "/" + name).c_str(), sizeof un.sun_path - 1);
		if (connect(fd, (struct sockaddr *)&un, sizeof un) < 0) { ::close(fd); return -1; }
		fcntl(fd, F_SETFL, O_NONBLOCK);
		return fd;
	}
	// run something else to its end; its exit status
	int run(const Strs &args, std::string &out, const std::string *in = nullptr) {
		std::string f = dir + "/out";
		unlink(f.c_str());
		int pi[2] = {-1, -1};
		if (in) { if (pipe2(pi, O_CLOEXEC) || write(pi[1], in->data(), in->size()) != (ssize_t)in->size()) abort(); ::close(pi[1]); }
		pid_t p = spawn(args, pi[0], f);
		if (in) ::close(pi[0]);
		int st = -1;
		bool ok = until([&] { return waitpid(p, &st, WNOHANG) == p; }, 8000);
		if (!ok) { kill(p, SIGKILL); waitpid(p, NULL, 0); fail(c, "hangs", "%s does not end: %s", args.back().c_str(), slurp(f).c_str()); }
		out = slurp(f);
		return st;
	}
};

static const Strs KEYS = {"default-fullname", "auto-away-message", "max_who_age", "admin-log"};

static void life(Src &s, Ctx &c)
{
	Src h = s.block(10);
	Prog g(c);
	bool autosave = h.chance(1, 2), tofile = h.chance(1, 2), irclogs = h.chance(1, 3);
	std::string logdir = g.dir + "/logs";
	write_file(g.conf + "/config", std::string("[global]\nautosave=") + (autosave ? "true" : "false") + "\npassword=pw\nreplication=none\nreport-time=never\nautoconnect=net\nadmin-user=ctrlproxy\ndefault-nick=me\ndefault-username=u\ndefault-fullname=Some Body\n" + (irclogs ? "logging=irssi\nlogdir=" + logdir + "\n" : "") + "\n[net]\nservers=127.0.0.1:" + std::to_string(g.srv.l.port) + "\n");
	State cur, saved;
	cur.set = {{"default-fullname", "Some Body"}, {"auto-away-message", ""}, {"max_who_age", ""}, {"admin-log", "true"}};
	saved = cur;
	std::vector<PeerP> cs;
	long seq = 0;
	int starts = 0, ends = 0, saves = 0, said = 0, hups = 0;
	bool inetd = false, inetd_in = false;
	PeerP io;
	std::string lastlog;            // what the log held
	auto kept = [&](const char *when) {
		if (!tofile) return;
		std::string now = slurp(g.logf);
		if (now.compare(0, lastlog.size(), lastlog)) fail(c, "log", "%s: the log no longer starts with %s: %s", when, q(lastlog).c_str(), q(now).c_str());
		lastlog = now;
	};

	auto expect = [&](PeerP p, const std::string &what, const char *when) {
		std::string got;
		if (!g.until([&] { for (auto &l : p->take()) if (l.find(what) != std::string::npos) got = l; return !got.empty() || p->eof || g.gone(); }) || got.empty()) {
			g.alive(when);
			fail(c, "missing", "%s: %s does not arrive%s, only %s: %s", when, what.c_str(), p->eof ? ", the connection is closed" : "", q(p->raw).c_str(), g.log().c_str());
		}
		return got;
	};
	auto heard = [&](const std::string &what, const char *when) {
		if (!g.until([&] { if (!g.srv.cur()) return g.gone(); for (auto &l : g.srv.cur()->said) if (l.find(what) != std::string::npos) return true; return g.gone(); })) fail(c, "missing", "%s: the server does not get %s", when, what.c_str());
		g.alive(when);
	};
	auto sync = [&](PeerP p, const char *when) {
		std::string t = "sync" + std::to_string(seq++) + ".";
		p->line("PRIVMSG sync :" + t);
		heard(t, when);
		g.srv.cur()->p->line(":srv!s@h PRIVMSG " + cur.nick + " :" + t);
		expect(p, t, when);
	};
	auto login = [&](PeerP p, bool pass) {
		if (pass) p->line("PASS :pw:net");
		p->line("NICK " + cur.nick);
		p->line("USER cu 0 * :Client");
		expect(p, " 001 " + cur.nick + " ", "logging in");
		sync(p, "logging in");
	};
	auto client = [&]() -> PeerP {
		if (!cs.empty()) return cs[0];
		int fd = g.dial();
		if (fd < 0) { g.alive("connecting"); fail(c, "refused", "no connection to the program's socket: %s", g.log().c_str()); }
		PeerP p = std::make_shared<Peer>(fd);
		login(p, true);
		cs.push_back(p);
		return p;
	};
	auto get = [&](PeerP p, const std::string &k) {
		std::string t = "q" + std::to_string(seq++), v, l;
		p->take();
		p->line("CTRLPROXY SET " + k);
		p->line("CTRLPROXY ECHO " + t);
		bool done = false;
		g.until([&] { for (auto &x : p->take()) { Msg m = msg(x); if (m.arg(0) != "NOTICE") continue; if (m.arg(2) == t) done = true; else if (m.nick() == "ctrlproxy" && !done) v = m.arg(2); } return done || g.gone(); });
		g.alive("asking for a setting");
		if (!done) fail(c, "missing", "no answer to SET %s", k.c_str());
		return v == k + " is not set" ? std::string() : v;
	};
	auto check = [&](const char *when) {
		Ircd::Conn *k = g.srv.cur();
		if (!k) fail(c, "state", "%s: not connected to the server", when);
		if (k->nick != cur.nick) fail(c, "state", "%s: the nick is %s instead of %s", when, k->nick.c_str(), cur.nick.c_str());
		if (k->chans != cur.chans) {
			std::string a, b;
			for (auto &x : k->chans) a += x.first + " " + x.second + ",";
			for (auto &x : cur.chans) b += x.first + " " + x.second + ",";
			fail(c, "state", "%s: on %s instead of %s", when, a.c_str(), b.c_str());
		}
		PeerP p = client();
		for (auto &x : cur.set) { std::string v = get(p, x.first); if (v != x.second) fail(c, "state", "%s: %s is %s instead of %s", when, x.first.c_str(), q(v).c_str(), q(x.second).c_str()); }
	};
	auto start = [&](Src &o) {
		size_t n = g.srv.cs.size();
		Strs args = {"--config-dir", g.conf};
		if (tofile) { args.push_back("--log"); args.push_back(g.logf); }
		inetd = o.chance(1, 6);
		inetd_in = false;
		int sv[2] = {-1, -1};
		if (inetd) {
			if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv)) abort();
			args.push_back("--inetd-client");
			args.push_back("net");
		}
		c.log("-- starts%s", inetd ? ", for a client on its standard input" : "");
		g.pid = g.spawn(args, sv[1], g.errs);
		if (inetd) { ::close(sv[1]); fcntl(sv[0], F_SETFL, O_NONBLOCK); io = std::make_shared<Peer>(sv[0]); }
		starts++;
		cur = saved;
		if (!g.until([&] { return g.gone() || (g.srv.cs.size() > n && g.srv.cs.back()->ready && g.srv.cs.back()->chans.size() >= cur.chans.size()); }, 8000)) fail(c, "start", "started, it does not connect to the server, or does not join its channels: %s", g.log().c_str());
		g.alive("starting");
		if (g.srv.cs.size() != n + 1) fail(c, "start", "started, it connects %zu times", g.srv.cs.size() - n);
		if (slurp(g.conf + "/pid") != std::to_string(g.pid)) fail(c, "pid", "the pid file says %s", q(slurp(g.conf + "/pid")).c_str());
		if (inetd && o.chance(3, 4)) { login(io, false); inetd_in = true; cs.push_back(io); }
		check("started");
		kept("started");
	};
	// it ended: what is left behind?
	auto ended = [&](const char *how, bool clean, bool busy = false) {
		if (!g.until([&] { return g.gone(); }, 8000)) fail(c, "hangs", "%s: it does not end: %s", how, g.log().c_str());
		if (clean && g.status != 0) fail(c, "status", "%s: the status is %d: %s", how, g.status, g.log().c_str());
		ends++;
		kept(how);
		if (clean) {
			if (autosave) saved = cur;
			for (const char *f : {"socket", "admin"}) if (access((g.conf + "/" + f).c_str(), F_OK) == 0) fail(c, "left", "%s: %s is left behind", how, f);
			if (g.srv.cs.empty()) return;
			Ircd::Conn *k = g.srv.cs.back().get();
			g.until([&] { return k->p->eof; });
			if (!busy && (!k->p->eof || !k->quit)) fail(c, "quit", "%s: the server got no QUIT", how);
		}
		for (auto &p : cs) {
			if (p->cut) continue;
			g.until([&] { return p->eof; });
			if (!p->eof) fail(c, "open", "%s: a client's connection stays open", how);
			bool err = false;
			for (auto &l : p->take()) err = err || msg(l).arg(0) == "ERROR";
			if (clean && !err && !busy) fail(c, "error", "%s: a client is not told", how);
		}
		cs.clear();
		io.reset();
		std::string out;
		if (g.run({"--config-dir", g.conf, "--check-running"}, out) == 0) fail(c, "check", "%s: --check-running succeeds: %s", how, out.c_str());
	};
	start(h);
	while (!s.empty()) {
		Src o = s.block(16);
		if (g.pid < 0) { start(o); continue; }
		g.alive("running");
		uint32_t w = o.range(21);
		if (w < 2 && cs.size() < 3) {
			c.log("-- a client comes");
			std::vector<PeerP> old;
			old.swap(cs);
			client();
			cs.insert(cs.begin(), old.begin(), old.end());
			if (cs.size() > old.size() + 1) abort();
		} else if (w < 5) {
			static const Strs NAMES = {"#a", "#b", "#key", "#log", "#C[x]"};
			std::string n = o.pick(NAMES), key = n == "#key" ? "sesame" : "";
			PeerP p = client();
			if (cur.chans.count(n)) { c.log("-- PART %s", n.c_str()); p->line("PART " + n); expect(p, "PART " + n, "leaving a channel"); cur.chans.erase(n); }
			else { c.log("-- JOIN %s", n.c_str()); p->line("JOIN " + n + (key.empty() ? "" : " " + key)); expect(p, " 366 ", "joining a channel"); p->line("MODE " + n); expect(p, " 324 ", "joining a channel"); cur.chans[n] = key; }
			sync(p, "joining");
		} else if (w < 6) {
			std::string n = o.pick(Strs{"me", "you", "me2"});
			if (n == cur.nick) continue;
			c.log("-- NICK %s", n.c_str());
			PeerP p = client();
			p->line("NICK " + n);
			expect(p, "NICK ", "changing the nick");
			cur.nick = n;
			sync(p, "changing the nick");
		} else if (w < 8) {
			std::string k = o.pick(KEYS), v = k == "max_who_age" ? std::to_string(1 + o.range(500)) : k == "admin-log" ? o.pick(Strs{"true", "false"}) : o.pick(Strs{"A b", "x", "Ann Other", "gone; back # later"});
			c.log("-- SET %s %s", k.c_str(), v.c_str());
			PeerP p = client();
			p->line("CTRLPROXY SET " + k + " :" + v);
			cur.set[k] = v;
			std::string x = get(p, k);
			if (x != v) fail(c, "set", "%s set to %s is %s", k.c_str(), q(v).c_str(), q(x).c_str());
		} else if (w < 10) {
			// lines and a signal at the same time
			int sig = o.pick(std::vector<int>{0, SIGUSR1, SIGHUP}), nsig = sig ? 1 + o.range(o.chance(1, 4) ? 20 : 2) : 0;
			PeerP p = client();
			uint32_t up = 1 + o.range(30), down = 1 + o.range(30);
			c.log("-- %u lines up, %u down, %d signals %d", up, down, nsig, sig);
			std::string t = "m" + std::to_string(seq++) + ".";
			g.srv.cur()->said.clear();
			p->take();
			std::string b;
			Strs wu, wd;
			for (uint32_t i = 0; i < up; i++) { wu.push_back("PRIVMSG bob :" + t + std::to_string(i)); b += wu.back() + "\r\n"; }
			p->send(b);
			b.clear();
			for (uint32_t i = 0; i < down; i++) { wd.push_back(":bob!b@h PRIVMSG " + cur.nick + " :" + t + std::to_string(i)); b += wd.back() + "\r\n"; }
			g.srv.cur()->p->send(b);
			for (int i = 0; i < nsig; i++) { kill(g.pid, sig); if (o.chance(1, 2)) usleep(100); }
			sync(p, "lines and signals");
			Strs gu;
			for (auto &l : g.srv.cur()->said) if (l.find(t) != std::string::npos) gu.push_back(l);
			if (gu.size() != wu.size()) fail(c, "lost", "of %zu lines the server gets %zu", wu.size(), gu.size());
			for (size_t i = 0; i < gu.size(); i++) if (msg(gu[i]).a != msg(wu[i]).a) fail(c, "lost", "the server gets %s instead of %s", q(gu[i]).c_str(), q(wu[i]).c_str());
			std::string in;
			size_t n = 0;
			std::istringstream raw(p->raw);
			for (std::string l; std::getline(raw, l);) if (l.find(":bob!b@h PRIVMSG") == 0 && l.find(t) != std::string::npos) { if (n >= wd.size() || msg(l.substr(0, l.size() - 1)).a != msg(wd[n]).a) fail(c, "lost", "the client gets %s", q(l).c_str()); n++; }
			if (n != wd.size()) fail(c, "lost", "of %zu lines the client gets %zu", wd.size(), n);
			said += n;
			if (nsig && sig == SIGUSR1) { saved = cur; saves++; usleep(20000); sync(p, "signals"); }
		} else if (w < 11) {
			c.log("-- USR1");
			std::string f = g.conf + "/config";
			if (rename(f.c_str(), (g.dir + "/old").c_str())) abort();
			kill(g.pid, SIGUSR1);
			g.until([&] { return access(f.c_str(), F_OK) == 0 || g.gone(); });
			g.alive("USR1");
			if (access(f.c_str(), F_OK)) fail(c, "save", "told to save, it does not: %s", g.log().c_str());
			if (g.srv.cur()) sync(client(), "USR1");
			saved = cur;
			saves++;
		} else if (w < 12) {
			bool where = o.chance(1, 3);
			c.log("-- SAVECONFIG%s", where ? " elsewhere" : "");
			PeerP p = client();
			std::string d = g.dir + "/elsewhere" + std::to_string(seq++);
			p->line("CTRLPROXY SAVECONFIG" + (where ? " " + d : ""));
			expect(p, "Configuration saved in " + (where ? d : g.conf), "SAVECONFIG");
			if (!where) { saved = cur; saves++; }
		} else if (w < 14) {
			// reopen the logs
			if (tofile && o.chance(1, 4)) {
				c.log("-- HUP, the log stays");
				kept("running");
				kill(g.pid, SIGHUP);
				usleep(2000);
				sync(client(), "HUP");
				kept("HUP");
				hups++;
			} else if (tofile) {
				c.log("-- HUP, for the log");
				kept("running");
				std::string n = g.dir + "/prog.log." + std::to_string(seq++);
				if (rename(g.logf.c_str(), n.c_str())) abort();
				lastlog.clear();
				kill(g.pid, SIGHUP);
				g.until([&] { return access(g.logf.c_str(), F_OK) == 0 || g.gone(); });
				g.alive("HUP");
				if (access(g.logf.c_str(), F_OK)) fail(c, "reopen", "the log is not reopened");
				hups++;
				// and that is where things are logged
				size_t was = slurp(g.logf).size();
				PeerP p = client();
				std::string k = "default-fullname", v = cur.set[k];
				kill(g.pid, SIGUSR1);
				g.until([&] { return slurp(g.logf).size() > was || g.gone(); });
				if (slurp(g.logf).size() <= was) fail(c, "reopen", "nothing is logged after the log was reopened");
				usleep(5000);
				sync(p, "HUP");
				saved = cur;
			} else { c.log("-- HUP"); kill(g.pid, SIGHUP); hups++; usleep(2000); sync(client(), "HUP"); }
			if (access((g.conf + "/log").c_str(), F_OK) == 0) fail(c, "reopen", "a log nobody asked for appears");
		} else if (w < 15) {
			std::string out;
			int st;
			if (o.chance(1, 2)) {
				c.log("-- started twice");
				st = g.run({"--config-dir", g.conf}, out);
				if (st == 0) fail(c, "twice", "started twice: %s", out.c_str());
				if (slurp(g.conf + "/pid") != std::to_string(g.pid)) fail(c, "twice", "started twice, the pid file says %s", q(slurp(g.conf + "/pid")).c_str());
				for (const char *f : {"socket", "admin"}) { int fd = g.dial(f); if (fd < 0) fail(c, "twice", "started twice, %s is no longer there", f); ::close(fd); }
			} else {
				c.log("-- --check-running");
				st = g.run({"--config-dir", g.conf, "--check-running"}, out);
				if (st != 0 || out.find(std::to_string(g.pid)) == std::string::npos) fail(c, "check", "--check-running: status %d, %s", st, out.c_str());
			}
			g.alive("started twice");
			sync(client(), "started twice");
		} else if (w < 16 && inetd && inetd_in) {
			bool polite = o.chance(1, 2);
			c.log("-- the client on the standard input leaves");
			if (polite) io->line("QUIT :bye");
			else io->close();
			ended("the client left", true);
		} else if (w < 17) {
			c.log("-- killed");
			kill(g.pid, SIGKILL);
			ended("killed", false);
		} else if (w < 19) {
			int sig = o.pick(std::vector<int>{SIGTERM, SIGINT}), n = 1 + (o.chance(1, 3) ? 1 + o.range(5) : 0);
			bool pend = o.chance(1, 3), busy = o.chance(1, 3), save = o.chance(1, 6);
			c.log("-- told to end, %d times%s%s%s", n, pend ? ", somebody is logging in" : "", busy ? ", lines are coming in" : "", save ? ", and to save" : "");
			PeerP pp;
			if (pend) { int fd = g.dial(); if (fd >= 0) { pp = std::make_shared<Peer>(fd); pp->line(o.pick(Strs{"NICK x", "USER a 0 * :b", ""})); pump(); usleep(1000); } }
			if (busy && g.srv.cur()) { std::string b; for (int i = 0; i < 200; i++) b += ":bob!b@h PRIVMSG " + cur.nick + " :busy " + std::to_string(i) + "\r\n"; g.srv.cur()->p->send(b); if (!cs.empty()) { b.clear(); for (int i = 0; i < 100; i++) b += "PRIVMSG bob :busy\r\n"; cs[0]->send(b); } }
			if (save) { kill(g.pid, SIGUSR1); if (!autosave) { usleep(50000); } saved = cur; saves++; }
			for (int i = 0; i < n; i++) { kill(g.pid, o.chance(1, 2) ? sig : SIGTERM); usleep(o.range(4) * 100); }
			ended("told to end", true, busy);     // what it did not read may take what it wrote with it
			if (pp) { g.until([&] { return pp->eof; }); if (!pp->eof) fail(c, "open", "told to end: the connection of somebody logging in stays open"); }
		} else if (w < 20) {
			// the server goes; before it is tried again the program ends
			Ircd::Conn *k = g.srv.cur();
			if (!k) continue;
			PeerP p = client();
			uint32_t how = o.range(3);
			c.log("-- the server goes; then %s", how == 0 ? "USR1 and killed" : how == 1 ? "told to end" : "USR1 and told to end");
			k->quit = true;                       // it can no longer be told
			k->p->close();
			k->p->eof = true;
			// once it knows, it says so
			bool known = false;
			for (int i = 0; i < 40 && !known; i++) {
				p->line("PRIVMSG bob :hello");
				g.until([&] { for (auto &l : p->take()) known = known || l.find(" 401 ") != std::string::npos; return known || g.gone(); }, 100);
				g.alive("the server goes");
			}
			if (!known) fail(c, "missing", "the server goes: messages are not answered with an error");
			if (how != 1) {
				std::string f = g.conf + "/config";
				if (rename(f.c_str(), (g.dir + "/old").c_str())) abort();
				kill(g.pid, SIGUSR1);
				g.until([&] { return access(f.c_str(), F_OK) == 0 || g.gone(); });
				g.alive("USR1");
				if (access(f.c_str(), F_OK)) fail(c, "save", "told to save, it does not: %s", g.log().c_str());
				saved = cur;
				saves++;
			}
			kill(g.pid, how ? SIGTERM : SIGKILL);
			ended(how ? "told to end without a server" : "killed", how != 0);
		} else {
			c.log("-- checked");
			check("running");
		}
	}
	if (g.pid > 0) { kill(g.pid, SIGTERM); ended("told to end", true); }
	if (starts > 1 && (saves || autosave) && said + hups) c.nontrivial();
	cs.clear();
	io.reset();
	g.srv.cs.clear();
	close_all_peers();
}

// ---- the beginning: --init, configurations that are no good, long names ----
static std::string listing(const std::string &d, const std::string &but)
{
	std::set<std::string> n;
	DIR *D = opendir(d.c_str());
	while (struct dirent *e = D ? readdir(D) : nullptr) if (e->d_name[0] != '.' && d + "/" + e->d_name != but) n.insert(e->d_name);
	if (D) closedir(D);
	std::string r;
	for (auto &x : n) r += x + "=" + slurp(d + "/" + x) + "\n";
	return r;
}

static bool crashed(int st, const std::string &out) { return !WIFEXITED(st) || WEXITSTATUS(st) == 99 || out.find("Sanitizer") != std::string::npos || out.find("runtime error") != std::string::npos || out.find("SIGSEGV") != std::string::npos; }

static int dial_port(int port)
{
	int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
	struct sockaddr_in a;
	memset(&a, 0, sizeof a);
	a.sin_family = AF_INET;
	a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	a.sin_port = htons(port);
	if (connect(fd, (struct sockaddr *)&a, sizeof a) < 0) { ::close(fd); return -1; }
	fcntl(fd, F_SETFL, O_NONBLOCK);
	return fd;
}

static int free_port(Src &s)
{
	for (int i = 0; i < 50; i++) {
		int p = 20000 + s.range(9000) + getpid() % 1000, fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), one = 1;
		struct sockaddr_in a;
		memset(&a, 0, sizeof a);
		a.sin_family = AF_INET;
		a.sin_port = htons(p);                     // everywhere
		setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
		bool ok = bind(fd, (struct sockaddr *)&a, sizeof a) == 0;
		::close(fd);
		if (ok) return p;
	}
	return 0;
}

static void begin(Src &s, Ctx &c)
{
	Prog g(c);
	std::string out, top = g.dir + "/top";
	mkdir(top.c_str(), 0700);
	// runs it until it is there, or ends
	auto start = [&](const std::string &conf, Strs more = {}) {
		Strs a = {"--config-dir", conf};
		a.insert(a.end(), more.begin(), more.end());
		g.pid = g.spawn(a, -1, g.errs);
		return g.until([&] { return g.gone() || slurp(conf + "/pid") == std::to_string(g.pid); }, 10000) && g.pid > 0;
	};
	auto end = [&](const char *what) {
		if (g.pid > 0) kill(g.pid, SIGTERM);
		if (!g.until([&] { return g.gone(); }, 10000)) fail(c, "hangs", "%s: it does not end: %s", what, g.log().c_str());
		if (crashed(g.status, g.log())) fail(c, "crash", "%s: status %d: %s", what, g.status, g.log().c_str());
		return g.status;
	};
	uint32_t mode = s.range(8);
	if (mode < 4) {
		// --init, and a client at what was made by it
		int port = free_port(s);
		uint32_t form = s.range(6);
		if (!port) discard(c, "no port");
		std::string pw = s.chance(1, 4) ? "" : s.pick(Strs{"pw", "secret", "a b", "p#w", "x;y", "\xc3\xa9", "[g]", "=", "\\n", "%s"}), conf = top + "/conf", P = std::to_string(port);
		std::string in = (form == 0 ? "localhost:" : form == 1 ? "127.0.0.1:" : form == 2 ? ":" : "") + P;
		bool exists = s.chance(1, 6), newline = s.chance(5, 6);
		c.log("-- --init: %s, password %s%s", in.c_str(), q(pw).c_str(), exists ? ", exists already" : "");
		if (exists) { mkdir(conf.c_str(), 0700); if (s.chance(1, 2)) write_file(conf + "/config", "[global]\n"); }
		std::string before = listing(top, "") + listing(conf, ""), input = in + "\n" + pw + (newline ? "\n" : "");
		int st = g.run({"--init", "--config-dir", conf}, out, &input);
		if (crashed(st, out)) fail(c, "crash", "--init: status %d: %s", st, out.c_str());
		if (exists) {
			if (st == 0) fail(c, "init", "--init succeeds although the directory exists: %s", out.c_str());
			if (listing(top, "") + listing(conf, "") != before) fail(c, "init", "--init changes an existing directory");
			c.nontrivial();
			return;
		}
		if (st != 0) fail(c, "init", "--init fails: %s", out.c_str());
		if (!start(conf)) fail(c, "init", "what --init made does not start: %s", g.log().c_str());
		int fd = -1;
		if (!g.until([&] { return (fd = dial_port(port)) >= 0 || g.gone(); }, 8000)) fail(c, "init", "nobody listens on %s: %s", in.c_str(), g.log().c_str());
		if (fd < 0) fail(c, "init", "what --init made does not start: %s", g.log().c_str());
		{
			PeerP p = std::make_shared<Peer>(fd);
			bool wrong = s.chance(1, 2);
			auto has = [&](const char *x) { std::string w = x; if (!g.until([&] { return p->raw.find(w) != std::string::npos || p->eof || g.gone(); }) || p->raw.find(w) == std::string::npos) fail(c, "init", "%s does not come, only %s: %s", x, q(p->raw).c_str(), g.log().c_str()); };
			if (wrong) {
				p->line("PASS :wrong");
				if (pw.empty()) has("PASS OK");
				else { has(" 464 "); p->line("NICK a"); p->line("USER a 0 * :b"); has(" 451 "); if (p->raw.find(" 001 ") != std::string::npos) fail(c, "init", "a client is let in with the wrong password"); }
			}
			if (!(wrong && pw.empty())) { p->line("PASS :" + pw); has("PASS OK"); }
			p->line("NICK me");
			p->line("USER me 0 * :b");
			has(" 001 me ");
			// and at the administration interface
			p->line("PRIVMSG #ctrlproxy :ECHO hello.there");
			has(":hello.there");
			p->close();
		}
		if (form < 2) {
			int st2 = end("ending");
			if (st2) fail(c, "status", "ending: status %d", st2);
			std::string cf = slurp(conf + "/config");
			if (cf.find("port=" + P + "\n") == std::string::npos || cf.find(form ? "bind=127.0.0.1\n" : "bind=localhost\n") == std::string::npos) fail(c, "init", "the address is not that given: %s", cf.c_str());
		} else if (end("ending")) fail(c, "status", "ending: status %d", g.status);
		c.nontrivial();
	} else if (mode < 5) {
		// a directory of any length, with others beside it
		size_t len = 80 + s.range(70);
		std::string conf = top + "/";
		if (conf.size() + 4 > len) len = conf.size() + 4;
		conf += std::string(len - conf.size(), 'x');
		if (mkdir(conf.c_str(), 0700)) abort();
		write_file(conf + "/config", "[global]\nautoconnect=net\ndefault-nick=me\ndefault-username=u\n\n[net]\nservers=127.0.0.1:" + std::to_string(g.srv.l.port) + "\n");
		for (size_t n : {107, 108, 106}) {
			std::string f = conf.substr(0, n);
			if (f != conf && n > top.size() + 1) write_file(f, "precious");
		}
		c.log("-- a directory of %zu", len);
		std::string before = listing(top, conf);
		if (!start(conf)) fail(c, "start", "in %s it does not start: %s", conf.c_str(), g.log().c_str());
		g.until([&] { return g.gone() || (!g.srv.cs.empty() && g.srv.cs.back()->ready); });
		if (g.srv.cs.empty() || !g.srv.cs.back()->ready) fail(c, "start", "in %s it does not connect: %s", conf.c_str(), g.log().c_str());
		end("ending");
		g.srv.serve();
		if (listing(top, conf) != before) fail(c, "beside", "beside %s there is now %s instead of %s", conf.c_str(), listing(top, conf).c_str(), before.c_str());
		if (conf.size() > 95) c.nontrivial();
	} else if (mode < 7) {
		// a configuration that is somehow wrong
		std::string conf = top + "/conf", P = std::to_string(g.srv.l.port), cf;
		mkdir(conf.c_str(), 0700);
		Strs lines = {"[global]", "password=pw", "autoconnect=net;admin", "port=" + P, "bind=127.0.0.1", "default-network=net", "admin-user=ctrlproxy", "replication=simple", "linestack_backend=file", "logging=irssi", "logging=custom", "log-format-msg=%@", "logfilename=" + g.dir + "/%n", "motd-file=/nonexistent", "auto-away-enable=true", "auto-away-time=60", "default-nick=me", "port=1", "port=x", "bind=nowhere.invalid", "learn-nickserv=true", "listener-auto=true", "listener-autoport=70000", "interface=x", "ssl=maybe", "autosave=true", "[net]", "servers=127.0.0.1:" + P, "autoconnect=true", "[admin]", "virtual=admin", "[irc.test]", "virtual=none", "program=/bin/false", "[socks]", "allow=a:b;c", "[127.0.0.1:" + P + "]", "password=x", "[#chan]", "autojoin=true", "junk", "=", "[", "[]", "nick=", "fullname=", "queue-speed=x", "reconnect-interval=-1", "charset=none", "client-charset=none", "max_who_age=x", "create-implicit=false", "report-time-offset=99999999"};
		uint32_t n = s.range(20);
		bool file = s.chance(15, 16);
		for (uint32_t i = 0; i < n; i++) {
			std::string l = i == 0 && !s.chance(1, 8) ? "[global]" : i < 3 ? lines[1 + s.range(25)] : s.pick(lines);
			if (s.chance(1, 16)) { size_t at = s.range(l.size() + 1); l.insert(at, 1, (char)s.byte()); }
			cf += l + (s.chance(1, 30) ? "\r\n" : "\n");
		}
		c.log("-- configuration: %s", q(cf).c_str());
		if (file) write_file(conf + "/config", cf);
		if (s.chance(1, 8)) write_file(conf + "/" + s.pick(Strs{"keys", "listener", "pid", "networks", "socket", "admin"}), s.pick(Strs{"", "junk\n", "0\n", "a\tb\tc\n", "[x:y]\n", "-1", "99999999999"}));
		std::string before = listing(top, conf);
		bool up = start(conf, s.chance(1, 6) ? Strs{"--inetd-client", s.pick(Strs{"net", "", "nope"})} : Strs());
		if (up) usleep(1000 * s.range(30));
		g.srv.serve();
		end(up ? "running" : "starting");
		if (listing(top, conf) != before) fail(c, "beside", "beside the directory there is now %s", listing(top, conf).c_str());
		c.tag(up ? "up" : "not up");
		if (n > 3) c.nontrivial();
	} else {
		// other ways to call it
		std::string conf = top + "/conf";
		Strs a;
		uint32_t n = 1 + s.range(3);
		bool none = true;
		for (uint32_t i = 0; i < n; i++) {
			std::string x = s.pick(Strs{"--version", "-v", "--help", "-?", "--bogus", "--debug-level=x", "-d", "--check-running", "--no-timestamp", "--restricted", "--log", "-i", "extra", ""});
			a.push_back(x);
			none = none && x != "--bogus";
		}
		a.insert(a.begin(), conf);
		a.insert(a.begin(), "--config-dir");
		c.log("-- called with %s %s %s", a[2].c_str(), a.size() > 3 ? a[3].c_str() : "", a.size() > 4 ? a[4].c_str() : "");
		int st = g.run(a, out);
		if (crashed(st, out)) fail(c, "crash", "status %d: %s", st, out.c_str());
		if (listing(top, "") != "") fail(c, "beside", "there is now %s", listing(top, "").c_str());
		if (n == 1 && (a[2] == "--version" || a[2] == "-v") && (st || out.find("ctrlproxy") == std::string::npos)) fail(c, "version", "--version: status %d, %s", st, out.c_str());
		if (n == 1 && a[2] != "--version" && a[2] != "-v" && a[2] != "--help" && a[2] != "-?" && st == 0) fail(c, "status", "without a configuration it succeeds");
		if (n > 1) c.nontrivial();
	}
	g.srv.cs.clear();
	close_all_peers();
}

Property the_property = {
	"P26",
	"started more than once, with a state that was saved, and messages or reopened logs in between",
	{"the IRC server answers at once and does as it is asked"},
	{
		{"life", life, 10, 16, 24, 800, 20000, 1},
		{"begin", begin, 200, 0, 0, 500, 20000, 1},
	}};
