// A running proxy inside the test process: the real program's networks and
// clients, with the harness at the far end of every socket, and the clock and
// timers under the harness's control.
#pragma once
#include "gen.h"

// ---- virtual time ----
extern time_t vtime;                       // what time(NULL) returns to the code
void advance(long seconds);                // move the clock, firing timers that fall due
size_t pending_timers();

// ---- the far end of a connection ----
struct Peer {
	int fd = -1;
	std::string buf;      // bytes not yet forming a line
	std::string raw;      // everything received
	Strs lines;           // complete lines, CR LF removed
	bool eof = false;
	bool cut = false;     // we closed it
	std::string outq;     // bytes we could not write yet
	bool paused = false;  // do not read
	bool autopong = false; // answer PING
	explicit Peer(int f);
	~Peer();
	bool drain();         // read what is there; true when something came
	void send(const std::string &bytes);
	void line(const std::string &l) { send(l + "\r\n"); }
	void close();
	Strs take() { Strs r; r.swap(lines); return r; }
};
typedef std::shared_ptr<Peer> PeerP;

void pump();                               // run the main loop until nothing moves
void pump_until(const std::function<bool()> &, int ms); // also waits for real I/O

// Called once per case, before anything else.
void env_init();
extern struct global *G;

// Start with the given configuration file text (empty: defaults).
struct global *start_global(const std::string &config);
struct network_config *add_network_config(const std::string &name, const std::string &nick);
struct irc_network *start_network(struct network_config *nc, PeerP &server);
PeerP connect_server(struct irc_network *n);
PeerP attach_raw(struct irc_network *n);   // a client connection without login
PeerP attach(struct irc_network *n, const std::string &nick = "cl");
void close_all_peers();
// A real server on the loopback network.
struct Listener {
	int fd = -1, port = 0;
	Listener();
	~Listener();
	PeerP accept(int ms = 2000);           // runs the proxy until it connects
	PeerP latest();                        // the newest connection waiting, if any
};
bool can_bind(const std::string &addr);    // whether there is such an address here
// Give a network a TCP server (the connection itself may still be injected).
void add_tcp_server(struct network_config *nc, const std::string &host, int port, const std::string &password = "");

// Parsed view of a received line.
struct Msg { bool has_origin = false; std::string origin; Strs a; std::string nick() const { return origin.substr(0, origin.find('!')); } std::string arg(size_t i) const { return i < a.size() ? a[i] : std::string(); } };
Msg msg(const std::string &line);
void write_file(const std::string &p, const std::string &c);
std::string slurp(const std::string &p);
