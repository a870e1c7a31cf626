#include <arpa/inet.h>
#include "env.h"
#include "globals.h"
#include <cerrno>
#include <poll.h>
#include <sys/ioctl.h>
#include <linux/sockios.h>
#include <netinet/tcp.h>

// ---- virtual time and timers ---------------------------------------------
time_t vtime = 1000000000;
struct VTimer { guint id; guint interval; long long due; GSourceFunc fn; gpointer data; };
static std::vector<VTimer> vtimers;
static guint vnext = 0x40000000;
static long long vms;              // milliseconds since the start

bool real_clock;                   // the program on its own

extern "C" {
time_t __real_time(time_t *);
time_t __wrap_time(time_t *t) { if (real_clock) return __real_time(t); if (t) *t = vtime; return vtime; }
guint __real_g_timeout_add(guint, GSourceFunc, gpointer);
guint __wrap_g_timeout_add(guint ms, GSourceFunc fn, gpointer data)
{
	if (real_clock) return __real_g_timeout_add(ms, fn, data);
	vtimers.push_back({vnext, ms, vms + ms, fn, data});
	return vnext++;
}
guint __wrap_g_timeout_add_full(gint, guint ms, GSourceFunc fn, gpointer data, GDestroyNotify) { return __wrap_g_timeout_add(ms, fn, data); }
guint __wrap_g_timeout_add_seconds(guint s, GSourceFunc fn, gpointer data) { return __wrap_g_timeout_add(s * 1000, fn, data); }
guint __wrap_g_timeout_add_seconds_full(gint, guint s, GSourceFunc fn, gpointer data, GDestroyNotify) { return __wrap_g_timeout_add(s * 1000, fn, data); }
gboolean __real_g_source_remove(guint);
gboolean __wrap_g_source_remove(guint id)
{
	if (id >= 0x40000000 && id < vnext) {
		for (size_t i = 0; i < vtimers.size(); i++)
			if (vtimers[i].id == id) { vtimers.erase(vtimers.begin() + i); return TRUE; }
		return FALSE;
	}
	return __real_g_source_remove(id);
}
}

size_t pending_timers() { return vtimers.size(); }

void advance(long seconds)
{
	long long end = vms + seconds * 1000LL;
	for (int guard = 0; guard < 100000; guard++) {
		long long best = -1;
		size_t bi = 0;
		for (size_t i = 0; i < vtimers.size(); i++)
			if (vtimers[i].due <= end && (best < 0 || vtimers[i].due < best)) { best = vtimers[i].due; bi = i; }
		if (best < 0) break;
		if (best > vms) { vtime += best / 1000 - vms / 1000; vms = best; }
		VTimer t = vtimers[bi];
		gboolean again = t.fn(t.data);
		for (size_t i = 0; i < vtimers.size(); i++)
			if (vtimers[i].id == t.id) {
				if (again) vtimers[i].due = vms + std::max<guint>(1, t.interval);
				else vtimers.erase(vtimers.begin() + i);
				break;
			}
		pump();
	}
	vtime += end / 1000 - vms / 1000;
	vms = end;
	pump();
}

// ---- peers ---------------------------------------------------------------
static std::vector<Peer *> peers;

Peer::Peer(int f) : fd(f)
{
	fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK);
	fcntl(fd, F_SETFD, FD_CLOEXEC);
	peers.push_back(this);
}
Peer::~Peer()
{
	if (fd >= 0) ::close(fd);
	peers.erase(std::find(peers.begin(), peers.end(), this));
}
void Peer::close() { cut = true; if (fd >= 0) ::close(fd); fd = -1; outq.clear(); }

// What is missing must not be told as "(null)"; no generator makes that.
static std::string null_line;
void case_end(Ctx &c)
{
	std::string l;
	l.swap(null_line);
	if (!l.empty()) fail(c, "null", "%s was sent", q(l).c_str());
}

bool Peer::drain()
{
	bool any = false;
	if (fd >= 0 && !outq.empty()) {
		ssize_t w = ::send(fd, outq.data(), outq.size(), MSG_NOSIGNAL);
		if (w > 0) { outq.erase(0, w); any = true; }
		else if (w < 0 && errno != EAGAIN) outq.clear();
	}
	if (paused) return any;
	char b[8192];
	while (fd >= 0 && !eof) {
		ssize_t n = ::recv(fd, b, sizeof b, 0);
		if (n > 0) {
			any = true;
			raw.append(b, n);
			buf.append(b, n);
			size_t p;
			while ((p = buf.find('\n')) != std::string::npos) {
				std::string l = buf.substr(0, p);
				if (!l.empty() && l.back() == '\r') l.pop_back();
				if (autopong && l.compare(0, 5, "PING ") == 0) outq += "PONG " + l.substr(5) + "\r\n";
				if (null_line.empty() && l.find("(null)") != std::string::npos) null_line = l;
				lines.push_back(l);
				buf.erase(0, p + 1);
			}
		} else if (n == 0) { eof = true; any = true; }
		else { if (errno != EAGAIN && errno != EINTR) { eof = true; any = true; } break; }
	}
	return any;
}

void Peer::send(const std::string &s)
{
	if (fd < 0) return;
	outq += s;
	while (!outq.empty()) {
		ssize_t w = ::send(fd, outq.data(), outq.size(), MSG_NOSIGNAL);
		if (w > 0) outq.erase(0, w);
		else { if (errno != EAGAIN) outq.clear(); break; }
	}
}

void pump()
{
	int idle = 0, busy = 0;
	for (long i = 0; i < 2000000 && idle < 3; i++) {
		bool any = false;
		int k = 0;
		while (k < 16 && g_main_context_iteration(NULL, FALSE)) k++;
		if (k > 0 && k < 16) any = true;
		for (size_t j = 0; j < peers.size(); j++) any |= peers[j]->drain();
		// a channel holding part of a line is ready all the time: settled
		// when everything we sent was read and nothing came for a while
		busy = any ? 0 : k >= 16 ? busy + 1 : busy;
		if (k >= 16 && busy < 4) any = true;
		if (k >= 16 && busy < 200) for (auto *x : peers) { int v = 0; if (x->fd >= 0 && ioctl(x->fd, SIOCOUTQ, &v) == 0 && v > 0) any = true; }
		idle = any ? 0 : idle + 1;
	}
}

void pump_until(const std::function<bool()> &done, int ms)
{
	pump();
	for (int i = 0; !done() && i < ms; i++) { usleep(i < 20 ? 200 : 1000); pump(); }
}

bool can_bind(const std::string &addr)
{
	int f = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
	struct sockaddr_in sa;
	memset(&sa, 0, sizeof sa);
	sa.sin_family = AF_INET;
	inet_pton(AF_INET, addr.c_str(), &sa.sin_addr);
	bool ok = f >= 0 && bind(f, (struct sockaddr *)&sa, sizeof sa) == 0;
	// and whether it is what the other side sees
	if (ok) {
		Listener l;
		sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		sa.sin_port = htons(l.port);
		struct linger lg = {1, 0};
		setsockopt(f, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
		ok = connect(f, (struct sockaddr *)&sa, sizeof sa) == 0;
		socklen_t n = sizeof sa;
		int g = ok ? ::accept(l.fd, (struct sockaddr *)&sa, &n) : -1;
		ok = g >= 0 && addr == inet_ntoa(sa.sin_addr);
		if (g >= 0) ::close(g);
	}
	if (f >= 0) ::close(f);
	return ok;
}

Listener::Listener()
{
	fd = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
	struct sockaddr_in sa;
	memset(&sa, 0, sizeof sa);
	sa.sin_family = AF_INET;
	sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	socklen_t l = sizeof sa;
	if (fd < 0 || bind(fd, (struct sockaddr *)&sa, sizeof sa) < 0 || listen(fd, 200) < 0 || getsockname(fd, (struct sockaddr *)&sa, &l) < 0) abort();
	port = ntohs(sa.sin_port);
}
Listener::~Listener() { if (fd >= 0) ::close(fd); }
PeerP Listener::latest()
{
	PeerP r, x;
	while ((x = accept(0))) r = x;
	return r;
}
PeerP Listener::accept(int ms)
{
	int got = -1;
	pump_until([&] { if (got < 0) got = ::accept4(fd, NULL, NULL, SOCK_NONBLOCK | SOCK_CLOEXEC); return got >= 0; }, ms);
	if (got < 0) return nullptr;
	struct linger lg = {1, 0};             // leave no TIME_WAIT behind
	setsockopt(got, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
	int one = 1;
	setsockopt(got, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
	PeerP p = std::make_shared<Peer>(got);
	pump();
	return p;
}
void add_tcp_server(struct network_config *nc, const std::string &host, int port, const std::string &password)
{
	struct tcp_server_config *s = g_new0(struct tcp_server_config, 1);
	s->host = g_strdup(host.c_str());
	s->port = g_strdup(std::to_string(port).c_str());
	if (!password.empty()) s->password = g_strdup(password.c_str());
	nc->type = network_config::NETWORK_TCP;
	nc->type_settings.tcp.servers = g_list_append(nc->type_settings.tcp.servers, s);
}

void close_all_peers() { for (auto *p : peers) p->close(); }

// ---- proxy ---------------------------------------------------------------
extern "C" {
extern enum log_level current_log_level;
extern char my_hostname[];
extern struct global *my_global;
}
struct global *G;

static void quiet(const gchar *, GLogLevelFlags lvl, const gchar *m, gpointer)
{
	if (lvl & (G_LOG_FLAG_FATAL | G_LOG_LEVEL_ERROR)) { fprintf(stderr, "%s\n", m); abort(); }
}

void env_init()
{
	static bool once;
	// nothing of an earlier case in the same process may act in this one
	close_all_peers();
	pump();
	vtimers.clear();
	vtime = 1000000000;
	if (once) return;
	once = true;
	g_log_set_default_handler(quiet, NULL);
	current_log_level = (enum log_level)0;
	strcpy(my_hostname, "proxy.example");
	setenv("HOME", scratch().c_str(), 1);
	setenv("TMPDIR", scratch().c_str(), 1);
	init_admin();
	init_nickserv();
	init_replication();
}

void write_file(const std::string &p, const std::string &c)
{
	FILE *f = fopen(p.c_str(), "w");
	if (!f) return;
	fwrite(c.data(), 1, c.size(), f);
	fclose(f);
}
std::string slurp(const std::string &p)
{
	std::string r;
	FILE *f = fopen(p.c_str(), "r");
	if (!f) return r;
	char b[8192];
	size_t n;
	while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
	fclose(f);
	return r;
}

struct global *start_global(const std::string &config)
{
	env_init();
	std::string d = scratch() + "/cfg";
	mkdir(d.c_str(), 0700);
	mkdir((d + "/networks").c_str(), 0700);
	write_file(d + "/config", config.empty() ? "[global]\nautosave=false\n" : config);
	G = my_global = load_global(d.c_str(), TRUE);
	return G;
}

struct network_config *add_network_config(const std::string &name, const std::string &nick)
{
	struct network_config *nc = network_config_init(G->config);
	g_free(nc->name); nc->name = g_strdup(name.c_str());
	g_free(nc->nick); nc->nick = g_strdup(nick.c_str());
	g_free(nc->username); nc->username = g_strdup("user");
	g_free(nc->fullname); nc->fullname = g_strdup("Full Name");
	nc->type = network_config::NETWORK_IOCHANNEL;
	return nc;
}


PeerP connect_server(struct irc_network *n)
{
	int sv[2];
	if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv) < 0) abort();
	GIOChannel *ch = g_io_channel_unix_new(sv[0]);
	PeerP p = std::make_shared<Peer>(sv[1]);
	if (!network_set_iochannel(n, ch)) abort();
	g_io_channel_unref(ch);
	pump();
	return p;
}

struct irc_network *start_network(struct network_config *nc, PeerP &server)
{
	struct irc_network *n = load_network(G, nc);
	if (nc->type == network_config::NETWORK_TCP) n->connection.data.tcp.current_server = (struct tcp_server_config *)nc->type_settings.tcp.servers->data;
	server = connect_server(n);
	return n;
}

PeerP attach_raw(struct irc_network *n)
{
	int sv[2];
	if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv) < 0) abort();
	GIOChannel *ch = g_io_channel_unix_new(sv[0]);
	g_io_channel_set_encoding(ch, NULL, NULL);
	PeerP p = std::make_shared<Peer>(sv[1]);
	struct irc_client *c = client_init_iochannel(n, ch, "test client");
	(void)c;
	g_io_channel_unref(ch);
	return p;
}

PeerP attach(struct irc_network *n, const std::string &nick)
{
	PeerP p = attach_raw(n);
	p->line("NICK " + nick);
	p->line("USER cu 0 * :Client User");
	pump();
	return p;
}

Msg msg(const std::string &line)
{
	Msg m;
	std::string d = line;
	if (!d.empty() && d[0] == ':') {
		size_t sp = d.find(' ');
		m.has_origin = true;
		m.origin = d.substr(1, sp == std::string::npos ? std::string::npos : sp - 1);
		d = sp == std::string::npos ? "" : d.substr(sp + 1);
	}
	std::string cur;
	for (size_t i = 0; i < d.size(); i++) {
		if (d[i] == ' ') {
			m.a.push_back(cur);
			cur.clear();
			if (i + 1 < d.size() && d[i + 1] == ':') { cur = d.substr(i + 2); break; }
			continue;
		}
		cur += d[i];
	}
	m.a.push_back(cur);
	return m;
}
