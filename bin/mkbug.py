import os, subprocess, json, tempfile, shutil
SH='''#!/bin/bash
# Exit 0 when the behaviour holds. Runs in the source tree, after the build.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
o=$(ls src/*.o | grep -v -e /main.o -e admin-cmd.o)
gcc -std=gnu99 -w -g -DHAVE_CONFIG_H -D_GNU_SOURCE -DSTRICT_MEMORY_ALLOCS= -I. -Ilibirc -Isrc $(pkg-config --cflags glib-2.0 gmodule-2.0) "$here/demo.c" $o libirc.a \\
	-o "$t/demo" -L/usr/lib/x86_64-linux-gnu/mit-krb5 -lgssapi_krb5 -lgcrypt -lgnutls -lreadline -Wl,--export-dynamic $(pkg-config --libs gmodule-2.0 glib-2.0) || exit 2
cd "$t" && HOME=$t timeout 60 ./demo "$t"
'''
PRE='''#include "config.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/socket.h>
#include <glib.h>
#include "internals.h"
#include "irc.h"
void register_hup_handler(hup_handler_fn fn, void *userdata) {}
#define CHECK(c) do { if (!(c)) { printf("failed: %s\\n", #c); exit(1); } } while (0)
'''
def mkbug(id, prop, edits, needs, breaks, demo, sh=None, pre=PRE, ext='c', pick=None):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    t=tempfile.mkdtemp(); diff=''
    byf={}
    for e in edits: byf.setdefault(e[0],[]).append(e[1:])
    for f,es in byf.items():
        s=open('/repo/'+f).read()
        for e in es:
            a,b=e[0],e[1]
            n=e[2] if len(e)>2 else None
            if n is None:
                assert s.count(a)==1,(f,s.count(a),a); s=s.replace(a,b)
            else:
                parts=s.split(a); assert len(parts)>n+1,(f,len(parts)-1)
                s=a.join(parts[:n+1])+b+a.join(parts[n+1:])
        for k,src in (('a',None),('b',s)):
            p=os.path.join(t,k,f); os.makedirs(os.path.dirname(p),exist_ok=True)
            open(p,'w').write(src if src is not None else open('/repo/'+f).read())
        diff+=subprocess.run(['git','diff','--no-index','--no-prefix','a/'+f,'b/'+f],cwd=t,stdout=subprocess.PIPE,text=True).stdout
    shutil.rmtree(t)
    cur=None
    base=subprocess.check_output(['git','-C','/repo','rev-list','--max-parents=0','HEAD'],text=True).strip()
    own=orig=0
    for l in diff.splitlines():
        if l.startswith('--- '): cur=subprocess.check_output(['git','-C','/repo','show',base+':'+l[6:].strip()],text=True,errors='replace').splitlines()
        elif l.startswith('-'):
            if l[1:] in cur: orig+=1
            else: own+=1; print(id,'own line:',l)
    print(id,'original lines changed',orig,'own',own)
    open(d+'/patch.diff','w').write(diff)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.'+ext,'w').write((pre if ext=='c' else '')+demo)
    open(d+'/demo.sh','w').write(sh or SH)
    os.chmod(d+'/demo.sh',0o755)
    assert subprocess.run(['git','-C','/repo','apply','--check',d+'/patch.diff']).returncode==0

# demo prelude with a running proxy: start(config), srv() / got(fd): what arrived, say(fd, line), client(nick)
LIVE=PRE+r'''
#include <fcntl.h>
#include <signal.h>
extern enum log_level current_log_level;
#include <sys/stat.h>
void init_nickserv(void); gboolean init_replication(void); void init_admin(void);
extern struct global *my_global;
static struct global *G; static struct irc_network *N; static struct network_config *NC; static int S = -1;
static GHashTable *bufs; static char dir[300];
static void slurp_all(int fd) { char b[65536]; ssize_t n; GString *s = g_hash_table_lookup(bufs, GINT_TO_POINTER(fd)); while ((n = recv(fd, b, sizeof b, MSG_DONTWAIT)) > 0) g_string_append_len(s, b, n); }
static void pump(void) { int i, j; for (j = 0; j < 20; j++) { GHashTableIter it; gpointer k; for (i = 0; i < 50 && g_main_context_iteration(NULL, FALSE); i++) ; g_hash_table_iter_init(&it, bufs); while (g_hash_table_iter_next(&it, &k, NULL)) slurp_all(GPOINTER_TO_INT(k)); } }
static int side(GIOChannel **ch) { int sv[2]; CHECK(socketpair(AF_UNIX, SOCK_STREAM, 0, sv) == 0); *ch = g_io_channel_unix_new(sv[0]); g_hash_table_insert(bufs, GINT_TO_POINTER(sv[1]), g_string_new("")); return sv[1]; }
static char *got(int fd) { GString *s = g_hash_table_lookup(bufs, GINT_TO_POINTER(fd)); char *r; pump(); r = g_strdup(s->str); g_string_truncate(s, 0); return r; }
static char *srv(void) { return got(S); }
static void say(int fd, const char *l) { char *t = g_strdup_printf("%s\r\n", l); CHECK(write(fd, t, strlen(t)) == (ssize_t)strlen(t)); g_free(t); pump(); }
static void quiet(const gchar *d, GLogLevelFlags f, const gchar *m, gpointer u) { if (f & (G_LOG_FLAG_FATAL|G_LOG_LEVEL_ERROR)) { fprintf(stderr, "%s\n", m); abort(); } }
static void conn(void) { GIOChannel *ch; S = side(&ch); CHECK(network_set_iochannel(N, ch)); g_io_channel_unref(ch); pump(); }
static void login(void) { say(S, ":irc.test 001 me :Welcome"); say(S, ":irc.test 005 me CHANTYPES=#& PREFIX=(ov)@+ CHANMODES=beI,k,l,imnpst NETWORK=testnet CASEMAPPING=rfc1459 :are supported"); say(S, ":irc.test 376 me :End of MOTD"); g_free(srv()); }
static void start(const char *base, const char *config) {
	char *f; signal(SIGPIPE, SIG_IGN); g_log_set_default_handler(quiet, NULL); current_log_level = 0;
	bufs = g_hash_table_new(NULL, NULL); init_admin(); init_nickserv(); init_replication();
	snprintf(dir, sizeof dir, "%s/cfg", base); mkdir(dir, 0700); f = g_strdup_printf("%s/networks", dir); mkdir(f, 0700);
	f = g_strdup_printf("%s/config", dir); CHECK(g_file_set_contents(f, config, -1, NULL));
	G = my_global = load_global(dir, TRUE); CHECK(G); NC = network_config_init(G->config);
	NC->name = g_strdup("net"); NC->nick = g_strdup("me"); NC->username = g_strdup("user"); NC->fullname = g_strdup("Full Name"); NC->type = NETWORK_IOCHANNEL;
	N = load_network(G, NC); CHECK(N); conn(); }
static int rawclient(void) { GIOChannel *ch; int fd = side(&ch); g_io_channel_set_encoding(ch, NULL, NULL); CHECK(client_init_iochannel(N, ch, "test")); g_io_channel_unref(ch); return fd; }
static int client(const char *nick) { int fd = rawclient(); char *t = g_strdup_printf("NICK %s", nick); say(fd, t); say(fd, "USER cu 0 * :Client User"); return fd; }
#define HAS(fd, x) do { char *h_ = got(fd); if (!strstr(h_, x)) { printf("missing: %s\nin: %s\n", x, h_); exit(1); } } while (0)
#define HASNOT(fd, x) do { char *h_ = got(fd); if (strstr(h_, x)) { printf("unexpected: %s\nin: %s\n", x, h_); exit(1); } } while (0)
int main(int argc, char **argv); 
'''
