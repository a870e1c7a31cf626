// One connection of the proxy with nothing behind it: what it delivers is recorded.
#pragma once
#include "world.h"

static void small_buffers(int fd) { int v = 2048; setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &v, sizeof v); setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &v, sizeof v); }

// ---- one transport -------------------------------------------------------

struct Tr {
	struct irc_transport *t = nullptr;
	int hangups = 0, disconnects = 0, errors = 0, charset_errors = 0;
	bool close_on_hangup = true;
	size_t stop_at = (size_t)-1;
	Strs got;
};
static void cb_log(struct irc_transport *, const struct irc_line *, const GError *) {}
static void cb_hangup(struct irc_transport *t) { Tr *r = (Tr *)t->userdata; r->hangups++; if (r->close_on_hangup) irc_transport_disconnect(t); }
static void cb_disconnect(struct irc_transport *t) { ((Tr *)t->userdata)->disconnects++; }
static gboolean cb_recv(struct irc_transport *t, const struct irc_line *l)
{
	Tr *r = (Tr *)t->userdata;
	char *s = irc_line_string(l);
	r->got.push_back(s);
	g_free(s);
	if (r->got.size() == r->stop_at) { irc_transport_disconnect(t); return FALSE; }
	return TRUE;
}
static void cb_charset(struct irc_transport *t, const char *) { ((Tr *)t->userdata)->charset_errors++; }
static gboolean cb_error(struct irc_transport *t, const char *) { Tr *r = (Tr *)t->userdata; r->errors++; irc_transport_disconnect(t); return FALSE; }
static const struct irc_transport_callbacks CBS = { cb_log, cb_hangup, cb_disconnect, cb_recv, cb_charset, cb_error };

static void release(Tr &r)
{
	if (r.t->backend_ops->is_connected(r.t->backend_data)) irc_transport_disconnect(r.t);
	free_irc_transport(r.t);
	r.t = nullptr;
}

static PeerP make(Tr &r, bool small)
{
	int sv[2];
	if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv) < 0) abort();
	if (small) { small_buffers(sv[0]); small_buffers(sv[1]); }
	GIOChannel *ch = g_io_channel_unix_new(sv[0]);
	g_io_channel_set_close_on_unref(ch, TRUE);
	g_io_channel_set_encoding(ch, NULL, NULL);
	g_io_channel_set_flags(ch, G_IO_FLAG_NONBLOCK, NULL);
	r.t = irc_transport_new_iochannel(ch);
	g_io_channel_unref(ch);
	irc_transport_set_callbacks(r.t, &CBS, &r);
	return std::make_shared<Peer>(sv[1]);
}

