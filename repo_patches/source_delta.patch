From 350d67fc7004e069d72509556dce2edecb1acfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 001/147] fix: count the origin when checking whether an
 argument fits on a line

---
 libirc/line.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libirc/line.c b/libirc/line.c
index de65fa8..2b27f38 100644
--- a/libirc/line.c
+++ b/libirc/line.c
@@ -423,6 +423,9 @@ static int line_len(const struct irc_line *l)
 	len = 4; /* \r\n for end of line, possibly colon before last argument and
 				colon at start of the line */
 
+	if (l->origin != NULL)
+		len += strlen(l->origin) + 1;
+
 	for (i = 0; i < l->argc; i++)
 		len += strlen(l->args[i]) + 1;
 
-- 
2.43.0


From 4dbbd3e74751d54111f81770a4f31822cddce2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:51 +0000
Subject: [PATCH 002/147] fix: stop at a line break also inside the origin of a
 line

---
 libirc/line.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libirc/line.c b/libirc/line.c
index 2b27f38..4be92d6 100644
--- a/libirc/line.c
+++ b/libirc/line.c
@@ -100,6 +100,9 @@ struct irc_line * irc_parse_line(const char *d)
 	l->has_endcolon = WITHOUT_COLON;
 	p = data;
 
+	/* The line ends at the first line break, also when that is in the origin */
+	data[strcspn(data, "\r\n")] = '\0';
+
 	if (p[0] == ':') {
 		p = strchr(data, ' ');
 		if (!p){ g_free(data); g_free(l); return NULL; }
-- 
2.43.0


From 5f53440592a88ebd2d98020e5cc9558689d6b0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:23 +0000
Subject: [PATCH 003/147] fix: compare only the requested number of characters
 in str_*ncmp

---
 libirc/util.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libirc/util.c b/libirc/util.c
index b139315..3fc47c4 100644
--- a/libirc/util.c
+++ b/libirc/util.c
@@ -48,9 +48,9 @@ int base_strncmp(const char *a, const char *b, size_t n)
 
 static inline int str_cmphelper(const char *a, const char *b, size_t len, char sh, char sl, char eh, char el)
 {
-	int i;
+	size_t i;
 	char h,l;
-	for (i = 0; a[i] && b[i] && i < len; i++) {
+	for (i = 0; i < len && a[i] && b[i]; i++) {
 		if (a[i] == b[i]) {
 			continue;
 		}
@@ -64,6 +64,10 @@ static inline int str_cmphelper(const char *a, const char *b, size_t len, char s
 			break;
 	}
 
+	/* No difference in the part to be compared */
+	if (i == len)
+		return 0;
+
 	return a[i]-b[i];
 }
 
-- 
2.43.0


From bd3185d8a16aff4f345571675bf5b10815f1dcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:23 +0000
Subject: [PATCH 004/147] fix: do not crash on 005 parameters without the
 expected value

---
 libirc/isupport.c | 60 +++++++++++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 23 deletions(-)

diff --git a/libirc/isupport.c b/libirc/isupport.c
index b4656a8..154ad6e 100644
--- a/libirc/isupport.c
+++ b/libirc/isupport.c
@@ -380,6 +380,12 @@ static void check_chanmodes_inconsistency(struct irc_network_info *info)
 }
 
 
+/* Number in a 005 parameter; the value may be missing. */
+static int info_number(const char *val)
+{
+	return val != NULL?atoi(val):0;
+}
+
 void network_info_parse(struct irc_network_info *info, const char *parameter)
 {
 	char *sep;
@@ -396,7 +402,10 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 	}
 
 	if (!base_strcmp(key, "CASEMAPPING")) {
-		if (!base_strcmp(val, "rfc1459")) {
+		if (val == NULL) {
+			network_info_log(LOG_WARNING, info,
+							 "CASEMAPPING without value");
+		} else if (!base_strcmp(val, "rfc1459")) {
 			info->casemapping = CASEMAP_RFC1459;
 		} else if (!base_strcmp(val, "strict-rfc1459")) {
 			info->casemapping = CASEMAP_STRICT_RFC1459;
@@ -414,37 +423,37 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 		g_free(info->ircd);
 		info->ircd = g_strdup(val);
 	} else if (!base_strcmp(key, "NICKLEN") || !base_strcmp(key, "MAXNICKLEN")) {
-		info->nicklen = atoi(val);
+		info->nicklen = info_number(val);
 	} else if (!base_strcmp(key, "USERLEN")) {
-		info->userlen = atoi(val);
+		info->userlen = info_number(val);
 	} else if (!base_strcmp(key, "HOSTLEN")) {
-		info->hostlen = atoi(val);
+		info->hostlen = info_number(val);
 	} else if (!base_strcmp(key, "OVERRIDE")) {
 		info->operoverride = TRUE;
 	} else if (!base_strcmp(key, "CHANNELLEN") || !base_strcmp(key, "MAXCHANNELLEN")) {
-		info->channellen = atoi(val);
+		info->channellen = info_number(val);
 	} else if (!base_strcmp(key, "AWAYLEN")) {
-		info->awaylen = atoi(val);
+		info->awaylen = info_number(val);
 	} else if (!base_strcmp(key, "KICKLEN")) {
-		info->kicklen = atoi(val);
+		info->kicklen = info_number(val);
 	} else if (!base_strcmp(key, "TOPICLEN")) {
-		info->topiclen = atoi(val);
+		info->topiclen = info_number(val);
 	} else if (!base_strcmp(key, "WATCH")) {
-		info->watch = atoi(val);
+		info->watch = info_number(val);
 	} else if (!base_strcmp(key, "VBANLIST")) {
 		info->vbanlist = TRUE;
 	} else if (!base_strcmp(key, "MAXPARA")) {
-		info->maxpara = atoi(val);
+		info->maxpara = info_number(val);
 	} else if (!base_strcmp(key, "MAXCHANNELS")) {
-		info->maxchannels = atoi(val);
+		info->maxchannels = info_number(val);
 	} else if (!base_strcmp(key, "MAXTARGETS")) {
-		info->maxtargets = atoi(val);
+		info->maxtargets = info_number(val);
 	} else if (!base_strcmp(key, "REMOVE")) {
 		info->remove = TRUE;
 	} else if (!base_strcmp(key, "MAXBANS")) {
-		info->maxbans = atoi(val);
+		info->maxbans = info_number(val);
 	} else if (!base_strcmp(key, "MODES")) {
-		info->maxmodes = atoi(val);
+		info->maxmodes = info_number(val);
 	} else if (!base_strcmp(key, "WALLCHOPS")) {
 		info->wallchops = TRUE;
 	} else if (!base_strcmp(key, "MAP")) {
@@ -486,23 +495,25 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 	} else if (!base_strcmp(key, "UHNAMES")) {
 		info->uhnames = TRUE;
 	} else if (!base_strcmp(key, "KEYLEN")) {
-		info->keylen = atoi(val);
+		info->keylen = info_number(val);
 	} else if (!base_strcmp(key, "SILENCE")) {
 		if (val) {
-			info->silence_limit = atoi(val);
+			info->silence_limit = info_number(val);
 			info->silence = TRUE;
 		} else
 			info->silence = TRUE;
 	} else if (!base_strcmp(key, "CHANTYPES")) {
 		g_free(info->chantypes);
-		info->chantypes = g_strdup(val);
+		info->chantypes = g_strdup(val != NULL?val:"");
 	} else if (!base_strcmp(key, "CHANMODES")) {
 		g_strfreev(info->chanmodes);
 		info->chanmodes_a = info->chanmodes_b =
 			info->chanmodes_c = info->chanmodes_d = NULL;
-		info->chanmodes = g_strsplit(val, ",", 4);
+		info->chanmodes = g_strsplit(val != NULL?val:"", ",", 4);
 		if (g_strv_length(info->chanmodes) != 4) {
 			network_info_log(LOG_WARNING, info, "Expected 4-tuple for CHANMODES, received tuple was of size %d", g_strv_length(info->chanmodes));
+			g_strfreev(info->chanmodes);
+			info->chanmodes = NULL;
 		} else {
 			info->chanmodes_a = info->chanmodes[0];
 			info->chanmodes_b = info->chanmodes[1];
@@ -532,7 +543,7 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 			info->invex_mode = val[0];
 	} else if (!base_strcmp(key, "ELIST")) {
 		int i;
-		for (i = 0; val[i]; i++) {
+		for (i = 0; val != NULL && val[i]; i++) {
 			switch (val[i]) {
 			case 'M': info->elist_mask_search = TRUE; break;
 			case 'N': info->elist_inverse_mask_search = TRUE; break;
@@ -561,9 +572,9 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 			info->extban_supported = g_strdup("cqr");
 		} else {
 			char **parts = g_strsplit(val, ",", 2);
-			info->extban_prefix = parts[0];
-			info->extban_supported = parts[1];
-			g_free(parts);
+			info->extban_prefix = g_strdup(parts[0] != NULL?parts[0]:"");
+			info->extban_supported = g_strdup(parts[0] != NULL && parts[1] != NULL?parts[1]:"");
+			g_strfreev(parts);
 		}
 	} else if (!base_strcmp(key, "MAXLIST")) {
 		g_free(info->maxlist);
@@ -575,7 +586,10 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 		g_free(info->statusmsg);
 		info->statusmsg = g_strdup(val);
 	} else if (!base_strcmp(key, "PREFIX")) {
-		if (strlen(val) > 0 && (val[0] != '(' || !strchr(val, ')'))) {
+		if (val == NULL) {
+			g_free(info->prefix);
+			info->prefix = g_strdup("");
+		} else if (strlen(val) > 0 && (val[0] != '(' || !strchr(val, ')'))) {
 			network_info_log(LOG_WARNING, info,
 							 "Malformed PREFIX data `%s'", val);
 		} else {
-- 
2.43.0


From 624e61d6c8347d6368cadd02227354a1e8681fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:23 +0000
Subject: [PATCH 005/147] fix: an empty name is not a channel name

---
 libirc/isupport.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libirc/isupport.c b/libirc/isupport.c
index 154ad6e..d9c3adc 100644
--- a/libirc/isupport.c
+++ b/libirc/isupport.c
@@ -662,7 +662,7 @@ gboolean is_channelname(const char *name, const struct irc_network_info *n)
 
 	g_assert(name != NULL);
 
-	if (strchr(n->chantypes, name[0]))
+	if (name[0] != '\0' && strchr(n->chantypes, name[0]))
 		return TRUE;
 
 	return FALSE;
-- 
2.43.0


From 821bb6f9ddc6bb581ae8cca2d52c1e178df9b3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:23 +0000
Subject: [PATCH 006/147] fix: mode tables need room for every character

---
 libirc/state.c | 4 ++--
 libirc/state.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index e5088be..c266de0 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1340,8 +1340,8 @@ gboolean string2mode(const char *modes, irc_modes_t ar)
 
 char *mode2string(irc_modes_t modes)
 {
-	char ret[256];
-	unsigned char i;
+	char ret[MAXMODES+1];
+	int i;
 	int pos = 0;
 	ret[0] = '\0';
 	for(i = 0; i < MAXMODES; i++) {
diff --git a/libirc/state.h b/libirc/state.h
index 496fd34..6196304 100644
--- a/libirc/state.h
+++ b/libirc/state.h
@@ -23,7 +23,7 @@
 #include "isupport.h"
 #include "log.h"
 
-#define MAXMODES 255
+#define MAXMODES 256
 typedef gboolean irc_modes_t[MAXMODES];
 
 /**
-- 
2.43.0


From a5b9dc306fa08dcab846c86a8037061a3c3edfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 007/147] fix: an origin without user and host does not erase
 what is known about a nick

---
 libirc/state.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index c266de0..d8a2f83 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -124,22 +124,21 @@ gboolean network_nick_set_hostmask(struct network_nick *n, const char *hm)
 	if (n->hostmask && !strcmp(n->hostmask, hm))
 		return TRUE;
 
-	g_free(n->hostmask);
-	g_free(n->nick); n->nick = NULL;
-	g_free(n->username); n->username = NULL;
-	g_free(n->hostname); n->hostname = NULL;
-	n->hostmask = g_strdup(hm);
-
 	t = strchr(hm, '!');
 	if (!t)
 		return FALSE;
-	n->nick = g_strndup(hm, t-hm);
 
 	u = strchr(t, '@');
 	if (!u)
 		return FALSE;
-	n->username = g_strndup(t+1, u-t-1);
 
+	g_free(n->hostmask);
+	n->hostmask = g_strdup(hm);
+	g_free(n->nick);
+	n->nick = g_strndup(hm, t-hm);
+	g_free(n->username);
+	n->username = g_strndup(t+1, u-t-1);
+	g_free(n->hostname);
 	n->hostname = g_strdup(u+1);
 
 	return TRUE;
-- 
2.43.0


From 77ced09240e2b36abfb890a44e8aca371fb21e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:54 +0000
Subject: [PATCH 008/147] fix: names that can not be a nick are ignored instead
 of aborting

---
 libirc/state.c | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index d8a2f83..3f194e5 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -379,7 +379,7 @@ struct network_nick *find_network_nick(struct irc_network_state *n,
  *
  * @param n Network state to search
  * @param name Name of the nick to search for
- * @return network_nick structure, or NULL if out of memory.
+ * @return network_nick structure, or NULL if the name can not be a nick.
  */
 struct network_nick *find_add_network_nick(struct irc_network_state *n,
 										   const char *name)
@@ -393,10 +393,12 @@ struct network_nick *find_add_network_nick(struct irc_network_state *n,
 	if (nd != NULL)
 		return nd;
 
+	if (name[0] == '\0' || is_prefix(name[0], n->info))
+		return NULL;
+
 	/* create one, if it doesn't exist */
 	nd = g_new0(struct network_nick,1);
 	g_assert(nd != NULL);
-	g_assert(!is_prefix(name[0], n->info));
 	nd->nick = g_strdup(name);
 	nd->hops = -1;
 
@@ -409,18 +411,18 @@ struct network_nick *find_add_network_nick(struct irc_network_state *n,
  *
  * @param n Channel state to search
  * @param name Name of the nick to search for
- * @return channel_nick structure, or NULL if out of memory.
+ * @return channel_nick structure, or NULL if the name can not be a nick.
  */
 struct channel_nick *find_add_channel_nick(struct irc_channel_state *c,
 										   const char *name)
 {
 	struct channel_nick *n;
+	struct network_nick *nn;
 	const char *realname = name;
 	char prefix = 0;
 
 	g_assert(c);
 	g_assert(name);
-	g_assert(strlen(name) > 0);
 	g_assert(c->network);
 
 	if (is_prefix(realname[0], c->network->info)) {
@@ -432,11 +434,15 @@ struct channel_nick *find_add_channel_nick(struct irc_channel_state *c,
 	if (n != NULL)
 		return n;
 
+	nn = find_add_network_nick(c->network, realname);
+	if (nn == NULL)
+		return NULL;
+
 	n = g_new0(struct channel_nick,1);
 	g_assert(n != NULL);
 
 	n->channel = c;
-	n->global_nick = find_add_network_nick(c->network, realname);
+	n->global_nick = nn;
 	if (prefix != 0) {
 		char mode = get_mode_by_prefix(prefix, c->network->info);
 		if (mode)
@@ -473,6 +479,11 @@ static void handle_join(struct irc_network_state *s, const struct irc_line *l)
 		c = find_add_channel(s, channels[i]);
 		g_assert(s->channels != NULL);
 		ni = find_add_channel_nick(c, nick);
+		if (ni == NULL) {
+			network_state_log(LOG_WARNING, s, "Invalid nick %s joins %s",
+							  nick, c->name);
+			continue;
+		}
 		network_nick_set_hostmask(ni->global_nick, l->origin);
 
 		/* The user is joining a channel */
@@ -825,7 +836,11 @@ static void handle_whoreply(struct irc_network_state *s, const struct irc_line *
 	char *fullname;
 
 	nn = find_add_network_nick(s, l->args[6]);
-	g_assert(nn != NULL);
+	if (nn == NULL) {
+		network_state_log(LOG_WARNING, s, "Invalid nick %s in WHO reply",
+						  l->args[6]);
+		return;
+	}
 	network_nick_set_data(nn, l->args[6], l->args[3], l->args[4]);
 
 	fullname = NULL;
@@ -1024,6 +1039,12 @@ static void handle_mode(struct irc_network_state *s, const struct irc_line *l)
 	} else {
 		struct network_nick *nn = find_add_network_nick(s, l->args[1]);
 
+		if (nn == NULL) {
+			network_state_log(LOG_WARNING, s,
+							  "Mode change for invalid nick %s", l->args[1]);
+			return;
+		}
+
 		for(i = 0; l->args[2][i]; i++) {
 			switch(l->args[2][i]) {
 				case '+': t = TRUE;break;
-- 
2.43.0


From bdea605ac8e3734d23e829a1a8b4ac4d9e63f6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:18 +0000
Subject: [PATCH 009/147] fix: a topic change on an unknown channel does not
 crash

---
 libirc/state.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libirc/state.c b/libirc/state.c
index 3f194e5..ab439a3 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -621,6 +621,12 @@ static void handle_topic(struct irc_network_state *s, const struct irc_line *l)
 
 	CHECK_ORIGIN(s, l, "TOPIC");
 
+	if (c == NULL) {
+		network_state_log(LOG_WARNING, s,
+					"Can't set topic for unknown channel '%s'!", l->args[1]);
+		return;
+	}
+
 	if (c->topic != NULL) {
 		g_free(c->topic);
 	}
-- 
2.43.0


From 2483b9b7797d0cf14a4ff1859b5f376f59415fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:19 +0000
Subject: [PATCH 010/147] fix: the channel of a 331 reply is its second
 argument

---
 libirc/state.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index ab439a3..204ec9c 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -669,7 +669,7 @@ static void handle_333(struct irc_network_state *s, const struct irc_line *l)
 
 static void handle_no_topic(struct irc_network_state *s, const struct irc_line *l)
 {
-	struct irc_channel_state *c = find_channel(s, l->args[1]);
+	struct irc_channel_state *c = find_channel(s, l->args[2]);
 
 	if (c == NULL) {
 		network_state_log(LOG_WARNING, s,
@@ -1214,7 +1214,7 @@ static struct irc_command {
 	{ "329", 3, handle_329 },
 	{ "332", 3, handle_332 },
 	{ "333", 3, handle_333 },
-	{ "331", 1, handle_no_topic },
+	{ "331", 2, handle_no_topic },
 	{ "353", 4, handle_namreply },
 	{ "366", 2, handle_end_names },
 	{ "367", 2, handle_banlist_entry },
-- 
2.43.0


From 23e7fe26bd9c7cdfc66e9dc5fe9135c5f1838cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 011/147] fix: do not use missing arguments of 333, 346, 348
 and 367 replies

---
 libirc/state.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index 204ec9c..39443b4 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -664,6 +664,7 @@ static void handle_333(struct irc_network_state *s, const struct irc_line *l)
 	}
 
 	c->topic_set_time = strtol(l->args[4], NULL, 0);
+	g_free(c->topic_set_by);
 	c->topic_set_by = g_strdup(l->args[3]);
 }
 
@@ -1213,15 +1214,15 @@ static struct irc_command {
 	{ "324", 3, handle_324 },
 	{ "329", 3, handle_329 },
 	{ "332", 3, handle_332 },
-	{ "333", 3, handle_333 },
+	{ "333", 4, handle_333 },
 	{ "331", 2, handle_no_topic },
 	{ "353", 4, handle_namreply },
 	{ "366", 2, handle_end_names },
-	{ "367", 2, handle_banlist_entry },
+	{ "367", 3, handle_banlist_entry },
 	{ "368", 2, handle_end_banlist },
-	{ "346", 2, handle_invitelist_entry },
+	{ "346", 3, handle_invitelist_entry },
 	{ "347", 2, handle_end_invitelist },
-	{ "348", 2, handle_exceptlist_entry },
+	{ "348", 3, handle_exceptlist_entry },
 	{ "349", 2, handle_end_exceptlist },
 	{ "352", 8, handle_whoreply },
 	{ "315", 1, handle_end_who },
-- 
2.43.0


From 87c885d27c8a420d5f975925899a5866a0d600a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:22 +0000
Subject: [PATCH 012/147] fix: the modes in a 221 reply are its second argument

---
 libirc/state.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index 39443b4..f1f24f6 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1126,9 +1126,9 @@ static void handle_nick(struct irc_network_state *s, const struct irc_line *l)
 
 static void handle_umodeis(struct irc_network_state *s, const struct irc_line *l)
 {
-	if (!string2mode(l->args[1], s->me.modes)) {
+	if (!string2mode(l->args[2], s->me.modes)) {
 		network_state_log(LOG_WARNING, s,
-						  "Invalid MODE change %s for user", l->args[1]);
+						  "Invalid MODE change %s for user", l->args[2]);
 	}
 }
 
@@ -1209,7 +1209,7 @@ static struct irc_command {
 	{ "001", 1, handle_001 },
 	{ "004", 5, handle_004 },
 	{ "005", 3, handle_005 },
-	{ "221", 1, handle_umodeis },
+	{ "221", 2, handle_umodeis },
 	{ "302", 2, handle_302 },
 	{ "324", 3, handle_324 },
 	{ "329", 3, handle_329 },
-- 
2.43.0


From f4e3afe1516d64fb5fb569d5790ad45b72877030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:23 +0000
Subject: [PATCH 013/147] fix: the own hostmask follows the nick given by 001

---
 libirc/state.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index f1f24f6..4322267 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1077,8 +1077,7 @@ static void handle_mode(struct irc_network_state *s, const struct irc_line *l)
 
 static void handle_001(struct irc_network_state *s, const struct irc_line *l)
 {
-	g_free(s->me.nick);
-	s->me.nick = g_strdup(l->args[1]);
+	network_nick_set_nick(&s->me, l->args[1]);
 }
 
 static void handle_004(struct irc_network_state *s, const struct irc_line *l)
-- 
2.43.0


From 0961dd657e778af2768b29a6fc91c6df070b538b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:24 +0000
Subject: [PATCH 014/147] fix: a MODE line without origin does not abort

---
 libirc/state.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index 4322267..f8db828 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1011,9 +1011,8 @@ static void handle_mode(struct irc_network_state *s, const struct irc_line *l)
 	/* Channel modes */
 	if (is_channelname(l->args[1], s->info)) {
 		struct irc_channel_state *c = find_channel(s, l->args[1]);
-		struct network_nick *by;
+		struct network_nick *by = NULL;
 		int ret;
-		char *by_name;
 
 		if (c == NULL) {
 			network_state_log(LOG_WARNING, s,
@@ -1021,9 +1020,11 @@ static void handle_mode(struct irc_network_state *s, const struct irc_line *l)
 			return;
 		}
 
-		by_name = line_get_nick(l);
-		by = find_network_nick(s, by_name);
-		g_free(by_name);
+		if (l->origin != NULL) {
+			char *by_name = line_get_nick(l);
+			by = find_network_nick(s, by_name);
+			g_free(by_name);
+		}
 
 		for(i = 0; l->args[2][i]; i++) {
 			switch(l->args[2][i]) {
-- 
2.43.0


From e76afffff7c92e481ca65732e946dc25e665b00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:25 +0000
Subject: [PATCH 015/147] fix: a mode change for an unknown nick does not
 discard the rest of the line

---
 libirc/state.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libirc/state.c b/libirc/state.c
index f8db828..08f6a03 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -981,7 +981,7 @@ static int channel_state_change_mode(struct irc_network_state *s, struct network
 		n = find_channel_nick(c, opt_arg);
 		if (!n) {
 			network_state_log(LOG_WARNING, s, "Can't set mode %c%c on nick %s on channel %s, because nick does not exist!", set?'+':'-', mode, opt_arg, c->name);
-			return -1;
+			return 1;
 		}
 		if (set) {
 			modes_set_mode(n->modes, mode);
-- 
2.43.0


From 93f8cc7232645ea91557050d0565b9e82fe74c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 016/147] fix: unsetting a channel key takes its argument, and
 modes with a setting are tracked as set

---
 libirc/state.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libirc/state.c b/libirc/state.c
index 08f6a03..c52b80d 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -962,13 +962,16 @@ static int channel_state_change_mode(struct irc_network_state *s, struct network
 
 			g_free(channel_mode_option(c, mode));
 			channel_mode_option(c, mode) = g_strdup(opt_arg);
+			modes_set_mode(c->modes, mode);
 
 			return 1;
 		} else {
 			g_free(channel_mode_option(c, mode));
 			channel_mode_option(c, mode) = NULL;
+			modes_unset_mode(c->modes, mode);
 
-			return 0;
+			/* Only "always an argument" modes take one when unset */
+			return (cmt == CHANMODE_SETTING)?1:0;
 		}
 	} else if (is_prefix_mode(info, mode)) {
 		struct channel_nick *n;
-- 
2.43.0


From 3c579168431edb9c53641ebd6211c35423154add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:57 +0000
Subject: [PATCH 017/147] fix: store the settings in a 324 reply with the modes
 they belong to

---
 libirc/state.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/libirc/state.c b/libirc/state.c
index c52b80d..b6754ab 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1138,6 +1138,7 @@ static void handle_umodeis(struct irc_network_state *s, const struct irc_line *l
 static void handle_324(struct irc_network_state *s, const struct irc_line *l)
 {
 	struct irc_channel_state *ch = find_channel(s, l->args[2]);
+	int i, arg = 4;
 
 	if (ch == NULL) {
 		network_state_log(LOG_WARNING, s,
@@ -1150,6 +1151,21 @@ static void handle_324(struct irc_network_state *s, const struct irc_line *l)
 						  "Invalid MODE change %s for channel %s", l->args[3], l->args[2]);
 	}
 
+	/* The settings follow, in the order of the modes */
+	for (i = 0; i < MAXMODES; i++) {
+		g_free(ch->chanmode_option[i]);
+		ch->chanmode_option[i] = NULL;
+	}
+
+	for (i = 0; l->args[3][i] && l->args[arg] != NULL; i++) {
+		enum chanmode_type cmt = network_chanmode_type(l->args[3][i], s->info);
+		if (cmt == CHANMODE_SETTING || cmt == CHANMODE_OPT_SETTING) {
+			g_free(channel_mode_option(ch, l->args[3][i]));
+			channel_mode_option(ch, l->args[3][i]) = g_strdup(l->args[arg]);
+			arg++;
+		}
+	}
+
 	ch->mode_received = TRUE;
 }
 
-- 
2.43.0


From 3f1f8d5116e209b9133214387708b56692f4d5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:58 +0000
Subject: [PATCH 018/147] fix: a channel mode reply has an argument for each
 mode with a setting

---
 libirc/client.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libirc/client.c b/libirc/client.c
index 78d2c86..68bb4ae 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -842,9 +842,11 @@ gboolean client_send_channel_mode(struct irc_client *c, struct irc_channel_state
 		l->args[2] = g_strdup(ch->name);
 		l->args[3] = mode;
 		for (i = 0; mode[i]; i++) {
-			if (network_chanmode_type(mode[i], c->state->info) == CHANMODE_OPT_SETTING &&
-				channel_mode_option(ch, mode[i])) {
-				l->args[4+j] = g_strdup(channel_mode_option(ch, mode[i]));
+			enum chanmode_type cmt = network_chanmode_type(mode[i], c->state->info);
+			if (cmt == CHANMODE_OPT_SETTING || cmt == CHANMODE_SETTING) {
+				/* Servers may hide a key, but its place is needed */
+				char *option = channel_mode_option(ch, mode[i]);
+				l->args[4+j] = g_strdup(option != NULL?option:"*");
 				j++;
 			}
 			l->args[4+j] = NULL;
-- 
2.43.0


From 3e31465b033db8340b1d198d8c2bb2d205c64286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:59 +0000
Subject: [PATCH 019/147] fix: USERHOST replies: strip the operator mark, cope
 with empty values, leave the line alone

---
 libirc/state.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index b6754ab..4b926e0 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1185,7 +1185,7 @@ static void handle_329(struct irc_network_state *s, const struct irc_line *l)
 static void handle_302(struct irc_network_state *s, const struct irc_line *l)
 {
 	int i;
-	gchar **users = g_strsplit(g_strstrip(l->args[2]), " ", 0);
+	gchar **users = g_strsplit(l->args[2], " ", 0);
 	if (users == NULL) {
 		network_state_log(LOG_ERROR, s, "Unable to split user list (%s)",
 						  l->args[2]);
@@ -1195,10 +1195,12 @@ static void handle_302(struct irc_network_state *s, const struct irc_line *l)
 	for (i = 0; users[i]; i++) {
 		/* We got a USERHOST response, split it into nick and user@host, and check the nick */
 		gchar** tmp302 = g_strsplit(users[i], "=", 2);
-		if (g_strv_length(tmp302) > 1) {
+		if (g_strv_length(tmp302) > 1 && tmp302[1][0] != '\0') {
 			char *hm;
 			struct network_nick *nn;
-			/* FIXME: Strip *'s from the end of tmp302[0]*/
+			/* An operator has a * after the nick */
+			if (g_str_has_suffix(tmp302[0], "*"))
+				tmp302[0][strlen(tmp302[0])-1] = '\0';
 			nn = find_add_network_nick(s, tmp302[0]);
 			hm = g_strdup_printf("%s!%s", tmp302[0], tmp302[1]+1);
 			network_nick_set_hostmask(nn, hm);
-- 
2.43.0


From 1842e878fdae96e93481798f89e8c84fcf6d665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:01 +0000
Subject: [PATCH 020/147] fix: a WHO reply updates the real name of a nick
 known before

---
 libirc/state.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index 4b926e0..f19c36c 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -854,13 +854,11 @@ static void handle_whoreply(struct irc_network_state *s, const struct irc_line *
 	nn->hops = strtol(l->args[8], &fullname, 10);
 	g_assert(fullname);
 
-	if (nn->fullname == NULL) {
-		if (fullname[0] == ' ')
-			fullname++;
+	if (fullname[0] == ' ')
+		fullname++;
 
-		g_free(nn->fullname);
-		nn->fullname = g_strdup(fullname);
-	}
+	g_free(nn->fullname);
+	nn->fullname = g_strdup(fullname);
 
 	g_free(nn->server);
 	nn->server = g_strdup(l->args[5]);
-- 
2.43.0


From 8af975c68763f364004d9b10d73a7f998ac68c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:02 +0000
Subject: [PATCH 021/147] fix: a nick change from a user with unknown host does
 not make up one

---
 libirc/state.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libirc/state.c b/libirc/state.c
index f19c36c..7ed73e0 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1121,6 +1121,7 @@ static void handle_nick(struct irc_network_state *s, const struct irc_line *l)
 	g_free(nick);
 
 	if (nn != NULL) {
+		network_nick_set_hostmask(nn, l->origin);
 		network_nick_set_nick(nn, l->args[1]);
 	}
 }
-- 
2.43.0


From 12efcd1630ecdee92873973a98f36374fe46e6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:04 +0000
Subject: [PATCH 022/147] fix: a name with several prefixes in a names list has
 all of their modes

---
 libirc/state.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index 7ed73e0..282e678 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -419,16 +419,14 @@ struct channel_nick *find_add_channel_nick(struct irc_channel_state *c,
 	struct channel_nick *n;
 	struct network_nick *nn;
 	const char *realname = name;
-	char prefix = 0;
 
 	g_assert(c);
 	g_assert(name);
 	g_assert(c->network);
 
-	if (is_prefix(realname[0], c->network->info)) {
-		prefix = realname[0];
+	/* There may be more than one prefix, if the server supports NAMESX */
+	while (realname[0] != '\0' && is_prefix(realname[0], c->network->info))
 		realname++;
-	}
 
 	n = find_channel_nick(c, realname);
 	if (n != NULL)
@@ -443,11 +441,11 @@ struct channel_nick *find_add_channel_nick(struct irc_channel_state *c,
 
 	n->channel = c;
 	n->global_nick = nn;
-	if (prefix != 0) {
-		char mode = get_mode_by_prefix(prefix, c->network->info);
+	for (; name < realname; name++) {
+		char mode = get_mode_by_prefix(*name, c->network->info);
 		if (mode)
 			modes_set_mode(n->modes, mode);
-    }
+	}
 	c->nicks = g_list_append(c->nicks, n);
 	n->global_nick->channel_nicks = g_list_append(n->global_nick->channel_nicks, n);
 	return n;
-- 
2.43.0


From 8028592c3937cd71a2ba2308e17d6ea664072010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:23 +0000
Subject: [PATCH 023/147] fix: a nick change to a nick that is remembered from
 earlier replaces it

---
 libirc/state.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libirc/state.c b/libirc/state.c
index 282e678..933e093 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1119,6 +1119,17 @@ static void handle_nick(struct irc_network_state *s, const struct irc_line *l)
 	g_free(nick);
 
 	if (nn != NULL) {
+		struct network_nick *old = find_network_nick(s, l->args[1]);
+
+		if (old != NULL && old != nn) {
+			if (old == &s->me) {
+				network_state_log(LOG_WARNING, s, "%s takes our nick", nn->nick);
+				return;
+			}
+			/* Whoever had the nick before must be gone */
+			free_network_nick(s, old);
+		}
+
 		network_nick_set_hostmask(nn, l->origin);
 		network_nick_set_nick(nn, l->args[1]);
 	}
-- 
2.43.0


From dfcae4aa73359d20ae9336c66d2fd31d6ca55e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:30 +0000
Subject: [PATCH 024/147] fix: lines without the expected arguments are not
 logged, rather than crashing

---
 src/log_custom.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/log_custom.c b/src/log_custom.c
index 441d592..0f32a39 100644
--- a/src/log_custom.c
+++ b/src/log_custom.c
@@ -201,6 +201,11 @@ static gboolean log_custom_data(struct irc_network *network,
 		return TRUE;
 	}
 
+	/* All but QUIT need a target */
+	if (l->argc < 2 && base_strcmp(l->args[0], "QUIT") != 0) {
+		return TRUE;
+	}
+
 	if (l->origin != NULL) {
 		nick = line_get_nick(l);
 	}
-- 
2.43.0


From 48f886dd6917348b7d787eefc0d0123406d1ea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:31 +0000
Subject: [PATCH 025/147] fix: log all of an ACTION that does not end in a CTCP
 delimiter

---
 src/log_custom.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/log_custom.c b/src/log_custom.c
index 0f32a39..43e9f32 100644
--- a/src/log_custom.c
+++ b/src/log_custom.c
@@ -226,13 +226,15 @@ static gboolean log_custom_data(struct irc_network *network,
 		file_write_channel_only(data, network, data->config->part, l);
 	} else if (!base_strcmp(l->args[0], "PRIVMSG") && l->args[2] != NULL) {
 		if (l->args[2][0] == '\001') {
-			l->args[2][strlen(l->args[2])-1] = '\0';
 			if (!g_ascii_strncasecmp(l->args[2], "\001ACTION ", 8)) {
-				l->args[2]+=8;
+				char *ctcp = l->args[2];
+				l->args[2] = g_strdup(ctcp+8);
+				if (g_str_has_suffix(l->args[2], "\001"))
+					l->args[2][strlen(l->args[2])-1] = '\0';
 				file_write_target(data, network, data->config->action, l);
-				l->args[2]-=8;
+				g_free(l->args[2]);
+				l->args[2] = ctcp;
 			}
-			l->args[2][strlen(l->args[2])] = '\001';
 			/* Ignore all other ctcp messages */
 		} else {
 			file_write_target(data, network, data->config->msg, l);
-- 
2.43.0


From 9607c3cf0eeb0008c5d709591933fa8fe09ac233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:31 +0000
Subject: [PATCH 026/147] fix: a KICK from several channels is logged once per
 channel

---
 src/log_custom.c | 30 +-----------------------------
 1 file changed, 1 insertion(+), 29 deletions(-)

diff --git a/src/log_custom.c b/src/log_custom.c
index 43e9f32..216dbf7 100644
--- a/src/log_custom.c
+++ b/src/log_custom.c
@@ -249,35 +249,7 @@ static gboolean log_custom_data(struct irc_network *network,
 		file_write_channel_query(data, network, data->config->quit, l);
 	} else if (!base_strcmp(l->args[0], "KICK") && l->args[1] != NULL &&
 			   l->args[2] != NULL && dir == FROM_SERVER) {
-		if (strchr(l->args[1], ',') == NULL) {
-			file_write_channel_only(data, network, data->config->kick, l);
-		} else {
-			char *channels = g_strdup(l->args[1]);
-			char *nicks = g_strdup(l->args[1]);
-			char *p,*n; gboolean cont = TRUE;
-			char *_nick;
-
-			p = channels;
-			_nick = nicks;
-			while (cont) {
-				n = strchr(p, ',');
-
-				if (n == NULL)
-					cont = FALSE;
-				else
-					*n = '\0';
-
-				file_write_channel_only(data, network, data->config->kick, l);
-
-				p = n+1;
-				_nick = strchr(_nick, ',');
-				if (!_nick)break;
-				_nick++;
-			}
-
-			g_free(channels);
-			g_free(nicks);
-		}
+		file_write_channel_only(data, network, data->config->kick, l);
 	} else if (!base_strcmp(l->args[0], "TOPIC") && dir == FROM_SERVER &&
 		l->args[1] != NULL) {
 		if (l->args[2] != NULL) {
-- 
2.43.0


From db70b100b52949fcf9005c61a4b21e70570c6578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:17 +0000
Subject: [PATCH 027/147] build: compile as gnu90 rather than strict C90, so
 that line comments are accepted

---
 configure.ac | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/configure.ac b/configure.ac
index 70e6993..1116e4b 100644
--- a/configure.ac
+++ b/configure.ac
@@ -26,7 +26,7 @@ AC_PROG_INSTALL
 AC_PATH_PROG(IRCDTORTURE,ircdtorture)
 
 if test "$GCC" = "yes"; then
-	CFLAGS="$CFLAGS -ansi -Wall"
+	CFLAGS="$CFLAGS -std=gnu90 -Wall"
 	DYNAMIC="-rdynamic"
 fi
 AC_SUBST(GCC)
-- 
2.43.0


From 702580c1cfb56961230797f9843af86d13eb253a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:10 +0000
Subject: [PATCH 028/147] fix: log formats: origins without a user, long mode
 changes, commands in lower case and . or .. as a name

---
 src/log_subst.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/log_subst.c b/src/log_subst.c
index 154b65e..c457a81 100644
--- a/src/log_subst.c
+++ b/src/log_subst.c
@@ -95,6 +95,9 @@ static char *get_user(struct subst_context *subst_ctx, const struct irc_line *li
 			user++;
 	}
 
+	if (user == NULL)
+		return g_strdup("");
+
 	if (case_sensitive)
 		return g_ascii_strdown(user, -1);
 	else
@@ -149,15 +152,15 @@ static char *get_identifier(struct subst_context *subst_ctx, const struct irc_li
 
 static char *get_modechanges(struct subst_context *subst_ctx, const struct irc_line *line, gboolean case_sensitive)
 {
-	char buf[512] = "";
+	GString *buf = g_string_new("");
 	int i;
 
 	for (i = 3 ; i < line->argc && line->args[i] != NULL; i++) {
-		if (i > 3) strncat(buf, " ", sizeof(buf)-1);
-		strncat(buf, line->args[i], sizeof(buf)-1);
+		if (i > 3) g_string_append_c(buf, ' ');
+		g_string_append(buf, line->args[i]);
 	}
 
-	return g_strdup(buf);
+	return g_string_free(buf, FALSE);
 }
 
 static struct log_mapping mappings[] = {
@@ -222,7 +225,7 @@ static char *find_mapping(struct subst_context *subst_ctx,
 {
 	int i;
 	for (i = 0; mappings[i].subst; i++) {
-		if (mappings[i].command && strcmp(mappings[i].command, l->args[0]))
+		if (mappings[i].command && base_strcmp(mappings[i].command, l->args[0]))
 			continue;
 
 		if (mappings[i].subst != c)
@@ -283,7 +286,12 @@ char *custom_subst(struct irc_network *network,
 												case_sensitive);	
 			if (subst[i] == NULL)
 				subst[i] = g_strdup("");
-			if (noslash) convertslashes(subst[i]);
+			if (noslash) {
+				convertslashes(subst[i]);
+				/* Neither should it name the directory or its parent */
+				if (!strcmp(subst[i], ".") || !strcmp(subst[i], ".."))
+					memset(subst[i], '_', strlen(subst[i]));
+			}
 			exp_len += strlen(subst[i]);
 		}
 	}
-- 
2.43.0


From 0fc467c5719447a1738e76e898cc50340e80c8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:11 +0000
Subject: [PATCH 029/147] fix: log files that could not be opened do not count
 as open

---
 src/log_support.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/log_support.c b/src/log_support.c
index 0956505..0ba9026 100644
--- a/src/log_support.c
+++ b/src/log_support.c
@@ -57,7 +57,8 @@ static gboolean eval_remove(gpointer key, gpointer value, gpointer user_data)
 	struct log_support_context *ctx = user_data;
 
 	if (fi->last_used < time(NULL) - CLEANUP_THRESHOLD) {
-		ctx->num_opened--;
+		if (fi->file != NULL)
+			ctx->num_opened--;
 		g_assert(ctx->num_opened >= 0);
 		return TRUE;
 	}
@@ -73,8 +74,10 @@ void log_support_cleanup(struct log_support_context *ctx)
 static gboolean unconditional_remove(gpointer key, gpointer value,
 									 gpointer user_data)
 {
+	struct log_file_info *fi = value;
 	struct log_support_context *ctx = user_data;
-	ctx->num_opened--;
+	if (fi->file != NULL)
+		ctx->num_opened--;
 	g_assert(ctx->num_opened >= 0);
 	return TRUE;
 }
-- 
2.43.0


From d77217ea457fdc412cddb12cc69f39c7c4ce3587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:38 +0000
Subject: [PATCH 030/147] fix: lines end with a line feed only, not with
 whatever GLib takes for a line end

---
 libirc/transport_ioc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 76baedd..9a44752 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -328,6 +328,8 @@ struct irc_transport *irc_transport_new_iochannel(GIOChannel *iochannel)
 	ret->backend_ops = &irc_transport_iochannel_ops;
 	ret->backend_data = backend_data;
 	backend_data->incoming = iochannel;
+	/* By default a NUL or a paragraph separator would end a line too */
+	g_io_channel_set_line_term(iochannel, "\n", 1);
 	backend_data->pending_lines = g_queue_new();
 	backend_data->outgoing_iconv = backend_data->incoming_iconv = (GIConv)-1;
 	g_io_channel_ref(backend_data->incoming);
-- 
2.43.0


From 1198f4dbac80eac4219d80a37ea34043cb7f1076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:39 +0000
Subject: [PATCH 031/147] fix: ignore received lines that can not be parsed

---
 libirc/transport_ioc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 9a44752..601d67f 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -272,6 +272,9 @@ static gboolean handle_transport_receive(GIOChannel *c, GIOCondition cond,
 		while ((status = irc_recv_line(c, backend_data->incoming_iconv, &error,
 									   &l)) == G_IO_STATUS_NORMAL) {
 
+			if (l == NULL)
+				continue;
+
 			ret &= transport->callbacks->recv(transport, l);
 			free_line(l);
 
-- 
2.43.0


From 4e9120baecbf8d55527554e41cac0cd20c8815a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:40 +0000
Subject: [PATCH 032/147] fix: do not write further lines while an earlier one
 is still being flushed

---
 libirc/transport_ioc.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 601d67f..dc4f499 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -343,7 +343,6 @@ struct irc_transport *irc_transport_new_iochannel(GIOChannel *iochannel)
 static gboolean transport_send_queue(GIOChannel *ioc, GIOCondition cond,
 									  void *_transport)
 {
-	gboolean ret = FALSE;
 	struct irc_transport *transport = _transport;
 	struct irc_transport_data_iochannel *backend_data = (struct irc_transport_data_iochannel *)transport->backend_data;
 	GIOStatus status;
@@ -352,7 +351,7 @@ static gboolean transport_send_queue(GIOChannel *ioc, GIOCondition cond,
 
 	status = g_io_channel_flush(backend_data->incoming, NULL);
 	if (status == G_IO_STATUS_AGAIN)
-		ret = TRUE;
+		return TRUE;
 
 	g_assert(backend_data->pending_lines != NULL);
 
@@ -402,11 +401,10 @@ static gboolean transport_send_queue(GIOChannel *ioc, GIOCondition cond,
 		free_line(l);
 	}
 
-	if (!ret)
-		backend_data->outgoing_id = 0;
+	backend_data->outgoing_id = 0;
 
-	if (!ret && backend_data->pending_disconnect)
+	if (backend_data->pending_disconnect)
 		really_disconnect(backend_data);
 
-	return ret;
+	return FALSE;
 }
-- 
2.43.0


From 13f2a42af0fefb0bf031a7dc959dec293f22123c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:15 +0000
Subject: [PATCH 033/147] fix: freeing a transport that still has output to
 flush closes it, rather than leaving a watch behind

---
 libirc/transport_ioc.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index dc4f499..347f143 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -41,6 +41,8 @@ struct irc_transport_data_iochannel {
 static gboolean handle_transport_receive(GIOChannel *c, GIOCondition cond,
 									  void *_transport);
 
+static void really_disconnect(struct irc_transport_data_iochannel *backend_data);
+
 static void free_pending_line(void *_line, void *userdata)
 {
 	free_line((struct irc_line *)_line);
@@ -52,6 +54,13 @@ static void irc_transport_iochannel_free_data(void *data)
 
 	g_assert(backend_data->pending_disconnect);
 
+	/* Still waiting for the other side to read: what is left is lost. Do not
+	 * flush, as that would block. */
+	if (backend_data->incoming != NULL) {
+		g_io_channel_shutdown(backend_data->incoming, FALSE, NULL);
+		really_disconnect(backend_data);
+	}
+
 	if (backend_data->outgoing_iconv != (GIConv)-1)
 		g_iconv_close(backend_data->outgoing_iconv);
 	if (backend_data->incoming_iconv != (GIConv)-1)
-- 
2.43.0


From 2aa971c0de87f416cdb5be6414ac0c096af21978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:17 +0000
Subject: [PATCH 034/147] fix: free the line that can not be converted to the
 character set

---
 libirc/line.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libirc/line.c b/libirc/line.c
index 4be92d6..25cd2a5 100644
--- a/libirc/line.c
+++ b/libirc/line.c
@@ -164,9 +164,9 @@ GIOStatus irc_send_line(GIOChannel *c, GIConv iconv,
 	raw = irc_line_string_nl(l);
 	if (iconv != (GIConv)-1) {
 		cvrt = g_convert_with_iconv(raw, -1, iconv, NULL, NULL, error);
+		g_free(raw);
 		if (cvrt == NULL)
 			return G_IO_STATUS_ERROR;
-		g_free(raw);
 	} else {
 		cvrt = raw;
 	}
-- 
2.43.0


From 536f37e8189365886be00c7b7df93c4845a5fd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:18 +0000
Subject: [PATCH 035/147] fix: a line that can not be converted does not end
 the connection

---
 libirc/transport_ioc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 347f143..35faf5c 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -241,8 +241,7 @@ static gboolean handle_recv_status(struct irc_transport *transport, GIOStatus st
 	}
 
 	if (status != G_IO_STATUS_AGAIN) {
-		if (error->domain == G_CONVERT_ERROR &&
-			error->code == G_CONVERT_ERROR_ILLEGAL_SEQUENCE) {
+		if (error != NULL && error->domain == G_CONVERT_ERROR) {
 			transport->callbacks->charset_error(transport,
 												error->message);
 		} else {
@@ -291,6 +290,8 @@ static gboolean handle_transport_receive(GIOChannel *c, GIOCondition cond,
 				return FALSE;
 		}
 
+		free_line(l);
+
 		ret &= handle_recv_status(transport, status, error);
 		if (error != NULL)
 			g_error_free(error);
-- 
2.43.0


From 3d3a6ac9f3c70bb383b7e78694af580c9ea477d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:10 +0000
Subject: [PATCH 036/147] fix: replacing the own host in replies: check the
 number of arguments, leave the line alone and allow for operators

---
 src/client.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/client.c b/src/client.c
index 3f7d920..80a60e0 100644
--- a/src/client.c
+++ b/src/client.c
@@ -355,6 +355,10 @@ struct irc_line *irc_line_replace_hostmask(const struct irc_line *l,
 {
 	struct irc_line *ret;
 
+	if (old->hostmask == NULL || new->hostmask == NULL) {
+		return NULL; /* Nothing known to replace */
+	}
+
 	if (irccmp(info, old->hostmask, new->hostmask) == 0) {
 		return NULL; /* No need to replace anything */
 	}
@@ -368,17 +372,23 @@ struct irc_line *irc_line_replace_hostmask(const struct irc_line *l,
 	}
 	switch (irc_line_respcode(l)) {
 		case RPL_USERHOST:
-		if (strstr(l->args[2], old->hostname)) {
+		if (l->argc > 2 && old->hostname != NULL &&
+			strstr(l->args[2], old->hostname)) {
 			int i;
-			gchar **users = g_strsplit(g_strstrip(l->args[2]), " ", 0);
+			char *tmp = g_strstrip(g_strdup(l->args[2]));
+			gchar **users = g_strsplit(tmp, " ", 0);
+			g_free(tmp);
 			for (i = 0; users[i]; i++) {
 				gchar** tmp302 = g_strsplit(users[i], "=", 2);
-				if (g_strv_length(tmp302) > 1) {
-					/* FIXME: strip *'s from the end of tmp302[0] */
+				if (g_strv_length(tmp302) > 1 && tmp302[1][0] != '\0') {
+					/* There is a * after the nick of an operator */
+					gboolean is_oper = g_str_has_suffix(tmp302[0], "*");
+					if (is_oper)
+						tmp302[0][strlen(tmp302[0])-1] = '\0';
 					if (!irccmp(info, tmp302[0], old->nick)) {
 						g_free(users[i]);
-						users[i] = g_strdup_printf("%s=%c%s@%s",
-								tmp302[0], tmp302[1][0],
+						users[i] = g_strdup_printf("%s%s=%c%s@%s",
+								tmp302[0], is_oper?"*":"", tmp302[1][0],
 								new->username, new->hostname);
 					}
 				}
@@ -392,7 +402,7 @@ struct irc_line *irc_line_replace_hostmask(const struct irc_line *l,
 		}
 		break;
 		case RPL_WHOREPLY:
-		if (l->argc >= 6) {
+		if (l->argc > 6) {
 			if (!irccmp(info, l->args[6], old->nick)) {
 				ret = linedup(l);
 				g_free(ret->args[4]);
@@ -405,7 +415,7 @@ struct irc_line *irc_line_replace_hostmask(const struct irc_line *l,
 		break;
 		case RPL_WHOISUSER:
 		case RPL_WHOWASUSER:
-		if (l->argc >= 4) {
+		if (l->argc > 4) {
 			if (!irccmp(info, l->args[2], old->nick)) {
 				ret = linedup(l);
 				g_free(ret->args[4]);
-- 
2.43.0


From 9d6ef1a7aa2778899fb9c9700258bd9dc7a25d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:11 +0000
Subject: [PATCH 037/147] fix: commands from clients without the arguments they
 need

---
 src/client.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/client.c b/src/client.c
index 80a60e0..6c84bad 100644
--- a/src/client.c
+++ b/src/client.c
@@ -38,7 +38,13 @@ static gboolean process_to_client(struct irc_client *c, const struct irc_line *l
 
 static void handle_offline_command(struct irc_client *c, const struct irc_line *l, const char *offline_reason)
 {
-	if (!base_strcmp(l->args[0], "PRIVMSG") || !base_strcmp(l->args[0], "NOTICE")) {
+	if (l->argc < 2 && (!base_strcmp(l->args[0], "PRIVMSG") ||
+						!base_strcmp(l->args[0], "NOTICE") ||
+						!base_strcmp(l->args[0], "JOIN") ||
+						!base_strcmp(l->args[0], "PART"))) {
+		client_send_response(c, ERR_NEEDMOREPARAMS, l->args[0],
+							 "Not enough parameters", NULL);
+	} else if (!base_strcmp(l->args[0], "PRIVMSG") || !base_strcmp(l->args[0], "NOTICE")) {
 		client_send_response(c, ERR_NOSUCHNICK, l->args[1], offline_reason, NULL);
 	} else if (!base_strcmp(l->args[0], "JOIN")) {
 		/* Make network->internal_state join channel */
@@ -94,7 +100,7 @@ static gboolean process_from_client(struct irc_client *c, const struct irc_line
 	} else if (!base_strcmp(l->args[0], "CTRLPROXY")) {
 		admin_process_command(c, l, 1);
 	} else if (c->network->global->config->admin_user != NULL &&
-			   !base_strcmp(l->args[0], "PRIVMSG") &&
+			   !base_strcmp(l->args[0], "PRIVMSG") && l->argc > 1 &&
 			   !base_strcmp(l->args[1], c->network->global->config->admin_user)) {
 		admin_process_command(c, l, 2);
 	} else if (!base_strcmp(l->args[0], "PRIVMSG") && l->argc > 2 &&
-- 
2.43.0


From 67b68279f0b3ded9ffa5d171fa4b28b947e7f415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:16 +0000
Subject: [PATCH 038/147] fix: the time is only put before the text of a
 message, if it has one

---
 libirc/line.c | 3 +++
 src/network.c | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/libirc/line.c b/libirc/line.c
index 25cd2a5..13c491b 100644
--- a/libirc/line.c
+++ b/libirc/line.c
@@ -462,6 +462,9 @@ gboolean line_prefix_time(struct irc_line *l, time_t t)
 	char *tmp;
 	gboolean action = FALSE;
 
+	if (l->argc < 3)
+		return FALSE;
+
 	if (l->args[2][0] == '\001') { /* CTCP */
 		/* Let's not touch any CTCP requests but actions */
 		if (strncmp(l->args[2]+1, "ACTION", strlen("ACTION")) != 0) {
diff --git a/src/network.c b/src/network.c
index 3658a1e..6cd32a2 100644
--- a/src/network.c
+++ b/src/network.c
@@ -190,7 +190,7 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 					ctcp_network_redirect_response(n, l);
 				}
 			} else if (run_server_filter(n, l, FROM_SERVER)) {
-				if (!strcmp(l->args[0], "PRIVMSG") &&
+				if (!base_strcmp(l->args[0], "PRIVMSG") &&
 					n->global->config->report_time == REPORT_TIME_ALWAYS) {
 					struct irc_line *nl = linedup(l);
 					line_prefix_time(nl, time(NULL)+n->global->config->report_time_offset);
-- 
2.43.0


From 293ff5258dfac39a5c3a4b2ac0cd4573a76f7fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:17 +0000
Subject: [PATCH 039/147] fix: cope with PING, ERROR and 433 without arguments
 from the server

---
 src/network.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/network.c b/src/network.c
index 6cd32a2..707b25b 100644
--- a/src/network.c
+++ b/src/network.c
@@ -127,8 +127,8 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 	} else if (!base_strcmp(l->args[0], "PONG")){
 		return TRUE;
 	} else if (!base_strcmp(l->args[0], "ERROR")) {
-		network_log(LOG_ERROR, n, "error: %s", l->args[1]);
-	} else if (response == ERR_NICKNAMEINUSE &&
+		network_log(LOG_ERROR, n, "error: %s", l->argc > 1 ? l->args[1] : "");
+	} else if (response == ERR_NICKNAMEINUSE && l->argc > 2 &&
 			  n->connection.state == NETWORK_CONNECTION_STATE_LOGIN_SENT){
 		char *tmp = g_strdup_printf("%s_", l->args[2]);
 		network_send_args(n, "NICK", tmp, NULL);
-- 
2.43.0


From 9f474db41fb8b9ca15c088826e467d8110298bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:29 +0000
Subject: [PATCH 040/147] fix: an empty or impossible nick can not be used to
 register, and registering again does not leak

---
 libirc/client.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libirc/client.c b/libirc/client.c
index 68bb4ae..d87e7a2 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -313,6 +313,14 @@ static gboolean process_from_pending_client(struct irc_client *client,
 			return TRUE;
 		}
 
+		if (l->args[1][0] == '\0' || l->args[1][0] == ':' ||
+			strpbrk(l->args[1], " !@,*") != NULL) {
+			client_send_response(client, ERR_ERRONEUSNICKNAME,
+					     l->args[1], "Erroneous nickname", NULL);
+			return TRUE;
+		}
+
+		g_free(client->login_details->nick);
 		client->login_details->nick = g_strdup(l->args[1]);
 	} else if (!base_strcmp(l->args[0], "USER")) {
 
@@ -322,11 +330,16 @@ static gboolean process_from_pending_client(struct irc_client *client,
 			return TRUE;
 		}
 
+		g_free(client->login_details->username);
+		g_free(client->login_details->mode);
+		g_free(client->login_details->unused);
+		g_free(client->login_details->realname);
 		client->login_details->username = g_strdup(l->args[1]);
 		client->login_details->mode = g_strdup(l->args[2]);
 		client->login_details->unused = g_strdup(l->args[3]);
 		client->login_details->realname = g_strdup(l->args[4]);
 	} else if (!base_strcmp(l->args[0], "PASS")) {
+		g_free(client->login_details->password);
 		client->login_details->password = g_strdup(l->args[1]);
 	} else if (!base_strcmp(l->args[0], "CONNECT")) {
 		if (l->argc < 2) {
-- 
2.43.0


From f1d67c9c1fc8e43ca181b2609966a261395b5103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:30 +0000
Subject: [PATCH 041/147] fix: CTCP requests without a nick or command are
 ignored, and PING echoes all of its argument

---
 src/ctcp.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ctcp.c b/src/ctcp.c
index 01b3fa2..b226b76 100644
--- a/src/ctcp.c
+++ b/src/ctcp.c
@@ -56,6 +56,7 @@ static char *toarg(va_list ap)
 	}
 
 	*pos = '\001';
+	g_list_free(list);
 
 	return ret;
 }
@@ -122,7 +123,9 @@ static void handle_version(struct ctcp_handle *h, const char **args)
 
 static void handle_ping(struct ctcp_handle *h, const char **args)
 {
-	ctcp_reply(h, "PING", args[1], NULL);
+	char *arg = g_strjoinv(" ", (char **)(args+1));
+	ctcp_reply(h, "PING", *arg != '\0'?arg:NULL, NULL);
+	g_free(arg);
 }
 
 static void handle_clientinfo(struct ctcp_handle *h, const char **args);
@@ -195,6 +198,15 @@ gboolean ctcp_process_request (struct irc_network *n, const struct irc_line *l)
 	*t = '\0';
 
 	args = g_strsplit(data, " ", 0);
+	if (h.nick == NULL || args[0] == NULL) {
+		network_log(LOG_WARNING, n, "Ignoring CTCP request '%s' without %s", data,
+					h.nick == NULL?"origin":"command");
+		g_strfreev(args);
+		g_free(data);
+		g_free(h.nick);
+		return FALSE;
+	}
+
 	for (gl = cmds; gl; gl = gl->next) {
 		struct ctcp_handler *hl = gl->data;
 
-- 
2.43.0


From ead0e1c261ddfc1322f83b2f1050c5bdb5836b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:31 +0000
Subject: [PATCH 042/147] fix: CTCP replies: cope with a missing nick, keep the
 client that asked alive and do not leak

---
 src/ctcp_redirect.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ctcp_redirect.c b/src/ctcp_redirect.c
index 37c7931..1d60c40 100644
--- a/src/ctcp_redirect.c
+++ b/src/ctcp_redirect.c
@@ -67,12 +67,12 @@ gboolean ctcp_client_request_record (struct irc_client *c, struct irc_line *l)
 	req = g_new0(struct ctcp_request, 1);
 
 	/* store client and command in table */
-	req->client = c;
+	req->client = client_ref(c);
 	if (!is_channelname(l->args[1], c->network->info))
 		req->destination = g_strdup(l->args[1]);
 	req->command = command;
 
-	client_log(LOG_TRACE, c, "Tracking CTCP request '%s' to %s", req->command, req->destination);
+	client_log(LOG_TRACE, c, "Tracking CTCP request '%s' to %s", req->command, l->args[1]);
 
 	ctcp_request_queue = g_list_append(ctcp_request_queue, req);
 
@@ -103,13 +103,15 @@ gboolean ctcp_network_redirect_response(struct irc_network *n, const struct irc_
 		if (req->client->network != n)
 			continue;
 
-		if (req->destination && strcmp(req->destination, nick) != 0)
+		if (req->destination &&
+			(nick == NULL || irccmp(n->info, req->destination, nick) != 0))
 			continue;
 
 		if (strcmp(req->command, command) != 0)
 			continue;
 
 		client_send_line(req->client, l, NULL);
+		client_unref(req->client);
 
 		g_free(req->command);
 		g_free(req->destination);
@@ -124,6 +126,7 @@ gboolean ctcp_network_redirect_response(struct irc_network *n, const struct irc_
 	/* otherwise, inform user */
 	network_log(LOG_WARNING, n, "Don't know where to send unknown CTCP reply '%s'", command);
 
+	g_free(nick);
 	g_free(command);
 
 	return TRUE;
-- 
2.43.0


From fa856a4008a573cad0c86a72e734078851bb78e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:32 +0000
Subject: [PATCH 043/147] fix: CTCP from a client while there is no server is
 not passed to it

---
 src/client.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client.c b/src/client.c
index 6c84bad..4e12495 100644
--- a/src/client.c
+++ b/src/client.c
@@ -103,14 +103,16 @@ static gboolean process_from_client(struct irc_client *c, const struct irc_line
 			   !base_strcmp(l->args[0], "PRIVMSG") && l->argc > 1 &&
 			   !base_strcmp(l->args[1], c->network->global->config->admin_user)) {
 		admin_process_command(c, l, 2);
-	} else if (!base_strcmp(l->args[0], "PRIVMSG") && l->argc > 2 &&
+	} else if (c->network->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD &&
+			!base_strcmp(l->args[0], "PRIVMSG") && l->argc > 2 &&
 			l->args[2][0] == '\001' &&
 			base_strncmp(l->args[2], "\001ACTION", 7) != 0) {
 		ctcp_client_request_record(c, l);
 
 		/* send off to server */
 		network_forward_line(c->network, c, l, TRUE);
-	} else if (!base_strcmp(l->args[0], "NOTICE") && l->argc > 2 &&
+	} else if (c->network->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD &&
+			!base_strcmp(l->args[0], "NOTICE") && l->argc > 2 &&
 			l->args[2][0] == '\001') {
 		network_forward_line(c->network, c, l, TRUE);
 	} else if (!base_strcmp(l->args[0], "")) {
-- 
2.43.0


From 1387405917d3d47befb00e5b279dae2a9697031e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:10 +0000
Subject: [PATCH 044/147] fix: the features in the 005 reply to clients are
 separate arguments

---
 src/client.c | 44 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/src/client.c b/src/client.c
index 4e12495..c7e17b6 100644
--- a/src/client.c
+++ b/src/client.c
@@ -142,6 +142,41 @@ static gboolean process_from_client(struct irc_client *c, const struct irc_line
 	return TRUE;
 }
 
+/* The most features that are sent on a single 005 line, see also
+ * draft-brocklesby-irc-isupport-03 */
+#define MAX_FEATURES_PER_LINE 12
+/* Leaves room for the other parts of the line */
+#define MAX_FEATURES_LEN 300
+
+static void client_send_features(struct irc_client *client)
+{
+	char *all = network_generate_feature_string(client->network);
+	char **features = g_strsplit(all, " ", 0);
+	int i = 0;
+
+	while (features[i] != NULL) {
+		struct irc_line *l = irc_parse_line_args(client->default_origin, "005",
+						client_get_default_target(client), NULL);
+		size_t len = 0;
+		int n = 0;
+
+		do {
+			len += strlen(features[i]) + 1;
+			if (line_add_arg(l, features[i]))
+				n++;
+			i++;
+		} while (features[i] != NULL && n < MAX_FEATURES_PER_LINE &&
+				 len + strlen(features[i]) < MAX_FEATURES_LEN);
+
+		if (n > 0 && line_add_arg(l, "are supported on this server"))
+			client_send_line(client, l, NULL);
+		free_line(l);
+	}
+
+	g_strfreev(features);
+	g_free(all);
+}
+
 /**
  * Send welcome information to a client, optionally disconnecting
  * the client if it isn't welcome.
@@ -151,7 +186,7 @@ static gboolean process_from_client(struct irc_client *c, const struct irc_line
  */
 static gboolean welcome_client(struct irc_client *client)
 {
-	char *features, *tmp;
+	char *tmp;
 	struct network_config *nc;
 
 	g_assert(client != NULL);
@@ -176,12 +211,7 @@ static gboolean welcome_client(struct irc_client *client)
 		 (client->network->external_state != NULL && client->network->info->supported_channel_modes)?client->network->info->supported_channel_modes:ALLMODES,
 		 NULL);
 
-	features = network_generate_feature_string(client->network);
-
-	client_send_response(client, RPL_BOUNCE, features,
-						 "are supported on this server", NULL);
-
-	g_free(features);
+	client_send_features(client);
 
 	if (client->network->external_state != NULL) {
 		client_send_luserchannels(client, g_list_length(client->network->external_state->channels));
-- 
2.43.0


From 9a7e8896787965124bf203715f8cecb5a9f586b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:11 +0000
Subject: [PATCH 045/147] fix: connecting: ping for as long as connected, try
 the next server, connect only once and free what is no longer needed

---
 libirc/connection.c | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/libirc/connection.c b/libirc/connection.c
index 27348a5..dbe5e4d 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -395,18 +395,29 @@ static gboolean bindsock(struct irc_network *s,
  * Ping the network.
  *
  * @param server network to ping
- * @param ping_source GSource id of the ping event
+ * @return Whether to keep the event around
  */
-static void ping_server(struct irc_network *server, gboolean ping_source)
+static gboolean ping_server(struct irc_network *server)
 {
 	gint silent_time = time(NULL) - server->connection.last_line_recvd;
 	if (silent_time > MAX_SILENT_TIME) {
 		network_report_disconnect(server, "Ping timeout (%d seconds)",
 								  silent_time);
+		server->connection.data.tcp.ping_id = 0;
 		reconnect(server);
+		return FALSE;
 	} else if (silent_time > MIN_SILENT_TIME) {
 		network_send_args(server, "PING", "ctrlproxy", NULL);
 	}
+	return TRUE;
+}
+
+static void free_tcp_names(struct irc_network *n)
+{
+	g_free(n->connection.data.tcp.local_name);
+	g_free(n->connection.data.tcp.remote_name);
+	n->connection.data.tcp.local_name = NULL;
+	n->connection.data.tcp.remote_name = NULL;
 }
 
 static gboolean connect_current_tcp_server(struct irc_network *s)
@@ -475,6 +486,7 @@ static gboolean connect_current_tcp_server(struct irc_network *s)
 			bindsock(s, sock, res, nc->type_settings.tcp.default_bind_address, NULL);
 
 		ioc = g_io_channel_unix_new(sock);
+		g_io_channel_set_close_on_unref(ioc, TRUE);
 		g_io_channel_set_flags(ioc, G_IO_FLAG_NONBLOCK, NULL);
 
 		if (connect(sock, res->ai_addr, res->ai_addrlen) < 0) {
@@ -496,6 +508,7 @@ static gboolean connect_current_tcp_server(struct irc_network *s)
 
 	if (!res || !ioc) {
 		network_log(LOG_ERROR, s, "Unable to connect: %s", strerror(errno));
+		freeaddrinfo(addrinfo);
 		return FALSE;
 	}
 
@@ -520,6 +533,7 @@ static gboolean connect_current_tcp_server(struct irc_network *s)
 								 );
 		if (!ioc) {
 			network_report_disconnect(s, "Couldn't connect via server %s:%s", cs->host, cs->port);
+			free_tcp_names(s);
 			reconnect(s);
 			return FALSE;
 		}
@@ -571,14 +585,6 @@ static void reconnect(struct irc_network *server)
 	}
 }
 
-static void free_tcp_names(struct irc_network *n)
-{
-	g_free(n->connection.data.tcp.local_name);
-	g_free(n->connection.data.tcp.remote_name);
-	n->connection.data.tcp.local_name = NULL;
-	n->connection.data.tcp.remote_name = NULL;
-}
-
 static gboolean close_server(struct irc_network *n)
 {
 	struct network_config *nc = n->private_data;
@@ -842,8 +848,14 @@ static gboolean connect_server(struct irc_network *s)
 static gboolean delayed_connect_server(struct irc_network *s)
 {
 	g_assert(s);
-	connect_server(s);
-	return (s->connection.state == NETWORK_CONNECTION_STATE_RECONNECT_PENDING);
+	s->reconnect_id = 0;
+	s->connection.state = NETWORK_CONNECTION_STATE_NOT_CONNECTED;
+	if (!connect_server(s) &&
+		s->connection.state == NETWORK_CONNECTION_STATE_NOT_CONNECTED) {
+		/* Try again later, with the next server */
+		reconnect(s);
+	}
+	return FALSE;
 }
 
 struct irc_network *irc_network_new(const struct irc_network_callbacks *callbacks, void *private_data)
@@ -879,6 +891,13 @@ gboolean connect_network(struct irc_network *s)
 	g_assert(s->connection.state == NETWORK_CONNECTION_STATE_NOT_CONNECTED ||
 			 s->connection.state == NETWORK_CONNECTION_STATE_RECONNECT_PENDING);
 
+	if (s->connection.state == NETWORK_CONNECTION_STATE_RECONNECT_PENDING) {
+		/* No need to wait any longer */
+		g_source_remove(s->reconnect_id);
+		s->reconnect_id = 0;
+		s->connection.state = NETWORK_CONNECTION_STATE_NOT_CONNECTED;
+	}
+
 	return connect_server(s);
 }
 
-- 
2.43.0


From 06531dabefacb84e98478bbacb22c7249434f1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:17 +0000
Subject: [PATCH 046/147] fix: nickserv: remember the nick tried for each
 network, and do not use arguments that are not there

---
 src/nickserv.c | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/nickserv.c b/src/nickserv.c
index b335e47..5e09b11 100644
--- a/src/nickserv.c
+++ b/src/nickserv.c
@@ -115,6 +115,7 @@ static void cache_nickserv_pass(struct irc_network *n, const char *newpass)
 	}
 
 	if (e->pass == NULL || strcmp(e->pass, newpass) != 0) {
+		g_free(e->pass);
 		e->pass = g_strdup(newpass);
 		network_log(LOG_INFO, n, "Caching NickServ password for nick %s", e->nick);
 	}
@@ -122,30 +123,36 @@ static void cache_nickserv_pass(struct irc_network *n, const char *newpass)
 
 static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum data_direction dir, void *userdata)
 {
-	static char *nickattempt = NULL;
+	/* Last nick that was tried, by network name */
+	static GHashTable *nickattempts = NULL;
+	const char *nickattempt;
+
+	if (nickattempts == NULL) {
+		nickattempts = g_hash_table_new_full(g_str_hash, g_str_equal, g_free, g_free);
+	}
+
+	nickattempt = g_hash_table_lookup(nickattempts, n->name);
 
 	/* User has changed his/her nick. Check whether this nick needs to be identified */
-	if (dir == FROM_SERVER && !irccmp(n->info, l->args[0], "NICK") &&
+	if (dir == FROM_SERVER && l->argc > 1 && !irccmp(n->info, l->args[0], "NICK") &&
 	   nickattempt && !irccmp(n->info, nickattempt, l->args[1])) {
 		nickserv_identify_me(n, l->args[1]);
 	}
 
 	/* Keep track of the last nick that the user tried to take */
-	if (dir == TO_SERVER && !irccmp(n->info, l->args[0], "NICK")) {
-		if (nickattempt) {
-			g_free(nickattempt);
-		}
-		nickattempt = g_strdup(l->args[1]);
+	if (dir == TO_SERVER && l->argc > 1 && !irccmp(n->info, l->args[0], "NICK")) {
+		g_hash_table_replace(nickattempts, g_strdup(n->name), g_strdup(l->args[1]));
+		nickattempt = g_hash_table_lookup(nickattempts, n->name);
 	}
 
-	if (dir == TO_SERVER &&
+	if (dir == TO_SERVER && l->argc > 2 &&
 		(!irccmp(n->info, l->args[0], "PRIVMSG") || !irccmp(n->info, l->args[0], "NOTICE")) &&
 		(!irccmp(n->info, l->args[1], nickserv_nick(n)) &&
 		 !ircncmp(n->info, l->args[2], "IDENTIFY ", strlen("IDENTIFY ")))) {
 			cache_nickserv_pass(n, l->args[2] + strlen("IDENTIFY "));
 	}
 
-	if (dir == TO_SERVER &&
+	if (dir == TO_SERVER && l->argc > 2 &&
 		!irccmp(n->info, l->args[0], "NS") &&
 		!irccmp(n->info, l->args[1], "IDENTIFY")) {
 		cache_nickserv_pass(n, l->args[2]);
@@ -153,8 +160,8 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 
 	/* If we receive a nick-already-in-use message, ghost the current user */
 	if (dir == FROM_SERVER && atol(l->args[0]) == ERR_NICKNAMEINUSE) {
-		const char *pass = nickserv_find_nick(n, nickattempt);
-		if (nickattempt && pass) {
+		const char *pass = (nickattempt != NULL)?nickserv_find_nick(n, nickattempt):NULL;
+		if (pass) {
 			const char *nickserv_n = nickserv_nick(n);
 			char *raw;
 
@@ -163,7 +170,9 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 			raw = g_strdup_printf("GHOST %s %s", nickattempt, pass);
 			network_send_args(n, "PRIVMSG", nickserv_n, raw, NULL);
 			g_free(raw);
-			network_send_args(n, "NICK", nickattempt, NULL);
+			raw = g_strdup(nickattempt);
+			network_send_args(n, "NICK", raw, NULL);
+			g_free(raw);
 		}
 	}
 
-- 
2.43.0


From 0601022731f36db21c1bb55c75261334055e9fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:18 +0000
Subject: [PATCH 047/147] fix: key files: replace what was there, and read
 passwords in any character set

---
 src/keyfile.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/keyfile.c b/src/keyfile.c
index 22a67e3..01d4f08 100644
--- a/src/keyfile.c
+++ b/src/keyfile.c
@@ -42,6 +42,9 @@ gboolean keyfile_read_file(const char *filename, char commentchar, GList **nicks
 		return FALSE;
 	}
 
+	/* Passwords and nicks are not necessarily UTF-8 */
+	g_io_channel_set_encoding(gio, NULL, NULL);
+
 	while (G_IO_STATUS_NORMAL == g_io_channel_read_line(gio, &ret, &nr, &term, NULL))
 	{
 		char **parts;
@@ -90,7 +93,7 @@ gboolean keyfile_write_file(GList *nicks, const char *header,
 	GList *gl;
 	int fd;
 
-	fd = open(filename, O_WRONLY | O_CREAT, 0600);
+	fd = open(filename, O_WRONLY | O_CREAT | O_TRUNC, 0600);
 
 	if (fd == -1) {
 		log_global(LOG_WARNING, "Unable to write nickserv file `%s': %s", filename, strerror(errno));
-- 
2.43.0


From 22661d8d8482c6cf59d6d6ce31b32286a350db7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:19 +0000
Subject: [PATCH 048/147] fix: highlight replication: skip messages without a
 text

---
 src/repl_backends.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/repl_backends.c b/src/repl_backends.c
index 3c69940..1810241 100644
--- a/src/repl_backends.c
+++ b/src/repl_backends.c
@@ -30,8 +30,9 @@ static gboolean check_highlight(struct irc_line *l, time_t t, void *userdata)
 	struct irc_client *c = userdata;
 	int i;
 
-	if (base_strcmp(l->args[0], "PRIVMSG") != 0 &&
-		base_strcmp(l->args[0], "NOTICE") != 0)
+	if (l->argc < 3 ||
+		(base_strcmp(l->args[0], "PRIVMSG") != 0 &&
+		base_strcmp(l->args[0], "NOTICE") != 0))
 		return TRUE;
 
 	for (i = 0; matches && matches[i]; i++) {
-- 
2.43.0


From 5a8c7738ed44d03a5898bb9e10fa9b496df3f0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:11 +0000
Subject: [PATCH 049/147] fix: a netsplit quits every nick once, also if the
 client does not forget it

---
 libirc/client.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/libirc/client.c b/libirc/client.c
index d87e7a2..83853d7 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -932,6 +932,7 @@ gboolean client_send_netsplit(struct irc_client *c, const char *my_name,
 			  const char *lost_server)
 {
 	struct irc_network_state *s = c->state;
+	GList *gl, *nicks = NULL;
 	char *reason;
 	gboolean ret = TRUE;
 
@@ -940,25 +941,29 @@ gboolean client_send_netsplit(struct irc_client *c, const char *my_name,
 	}
 
 	/* Spoof a netsplit */
-	reason = g_strdup_printf("%s %s", my_name, lost_server);
+	reason = g_strdup_printf("%s %s", my_name,
+				 lost_server != NULL?lost_server:c->default_origin);
 
-	while (s->nicks != NULL) {
-		GList *gl = s->nicks;
+	/* Nicks are forgotten while they quit, so walk over a copy */
+	for (gl = s->nicks; gl; gl = gl->next) {
 		struct network_nick *gn = gl->data;
 
 		/* Skip self */
-		if (gn == &s->me) {
-			gl = gl->next;
-			if (gl == NULL)
-				break;
-			gn = gl->data;
+		if (gn != &s->me) {
+			nicks = g_list_append(nicks, g_strdup(gn->nick));
 		}
-		ret = client_send_nick_quit(c, gn, reason);
-		if (!ret) {
-			break;
+	}
+
+	for (gl = nicks; ret && gl; gl = gl->next) {
+		struct network_nick *gn = find_network_nick(s, gl->data);
+
+		if (gn != NULL && gn != &s->me) {
+			ret = client_send_nick_quit(c, gn, reason);
 		}
 	}
 
+	g_list_foreach(nicks, (GFunc)g_free, NULL);
+	g_list_free(nicks);
 	g_free(reason);
 
 	return ret;
-- 
2.43.0


From 44188ab87da1a427afef7254a6c47681e7379df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:37 +0000
Subject: [PATCH 050/147] fix: a name too long for a names list is left out
 rather than aborting

---
 libirc/client.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libirc/client.c b/libirc/client.c
index 83853d7..da461ec 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -773,7 +773,11 @@ gboolean client_send_nameslist(struct irc_client *c, struct irc_channel_state *c
 						mode, ch->name, NULL);
 			l->has_endcolon = WITHOUT_COLON;
 			tmp = g_strdup_printf(":%s", arg);
-			g_assert(line_add_arg(l, tmp));
+			if (!line_add_arg(l, tmp)) {
+				client_log(LOG_WARNING, c, "Name too long for names list: %s", arg);
+				free_line(l);
+				l = NULL;
+			}
 			g_free(tmp);
 		}
 
-- 
2.43.0


From 3d603e0e14274fff6c5ce1ddfb9fe08a554a9c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:57 +0000
Subject: [PATCH 051/147] fix: CTCP without an origin does not abort

---
 src/ctcp.c          | 2 +-
 src/ctcp_redirect.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctcp.c b/src/ctcp.c
index b226b76..d4a699d 100644
--- a/src/ctcp.c
+++ b/src/ctcp.c
@@ -185,7 +185,7 @@ gboolean ctcp_process_request (struct irc_network *n, const struct irc_line *l)
 	struct ctcp_handle h;
 
 	h.network = n;
-	h.nick = line_get_nick(l);
+	h.nick = (l->origin != NULL)?line_get_nick(l):NULL;
 
 	data = g_strdup(l->args[2]+1);
 	t = strchr(data, '\001');
diff --git a/src/ctcp_redirect.c b/src/ctcp_redirect.c
index 1d60c40..98c19be 100644
--- a/src/ctcp_redirect.c
+++ b/src/ctcp_redirect.c
@@ -86,7 +86,7 @@ gboolean ctcp_network_redirect_response(struct irc_network *n, const struct irc_
 
 	char *command = get_ctcp_command(l->args[2]);
 
-	nick = line_get_nick(l);
+	nick = (l->origin != NULL)?line_get_nick(l):NULL;
 
 	if (command == NULL) {
 		network_log(LOG_WARNING, n, "Received malformed CTCP request from `%s'", nick);
-- 
2.43.0


From 389f11b0b936ac86af5fda35d6f05befe17be35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:23 +0000
Subject: [PATCH 052/147] fix: without a backlog (for example on a full disk)
 the connection goes on

---
 libirc/connection.c | 1 -
 src/network.c       | 3 ++-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libirc/connection.c b/libirc/connection.c
index dbe5e4d..6e8c37d 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -53,7 +53,6 @@ static void server_send_login (struct irc_network *s)
 	network_state_set_log_fn(s->external_state, state_log_helper, s);
 	if (s->callbacks->state_set)
 		s->callbacks->state_set(s);
-	g_assert(s->linestack != NULL);
 
 	if (login_details->password != NULL) {
 		network_send_args(s, "PASS", login_details->password, NULL);
diff --git a/src/network.c b/src/network.c
index 707b25b..752c7a5 100644
--- a/src/network.c
+++ b/src/network.c
@@ -403,7 +403,8 @@ static gboolean process_to_server(struct irc_network *s,
 	}
 
 	run_log_filter(s, lc = linedup(l), TO_SERVER); free_line(lc);
-	if (!linestack_insert_line(s->linestack, l, TO_SERVER, s->external_state)) {
+	if (s->linestack != NULL &&
+		!linestack_insert_line(s->linestack, l, TO_SERVER, s->external_state)) {
 		network_log(LOG_ERROR, s, "Error inserting line into linestack.");
 	}
 
-- 
2.43.0


From ff0dee432b3474197d19039180de4b0a1e2cba8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:23 +0000
Subject: [PATCH 053/147] fix: the server can not make the own nick empty

---
 libirc/state.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libirc/state.c b/libirc/state.c
index 933e093..bd7a93d 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1077,6 +1077,9 @@ static void handle_mode(struct irc_network_state *s, const struct irc_line *l)
 
 static void handle_001(struct irc_network_state *s, const struct irc_line *l)
 {
+	if (l->args[1][0] == '\0')
+		return;
+
 	network_nick_set_nick(&s->me, l->args[1]);
 }
 
@@ -1114,6 +1117,9 @@ static void handle_nick(struct irc_network_state *s, const struct irc_line *l)
 
 	CHECK_ORIGIN(s, l, "NICK");
 
+	if (l->args[1][0] == '\0')
+		return;
+
 	nick = line_get_nick(l);
 	nn = find_add_network_nick(s, nick);
 	g_free(nick);
-- 
2.43.0


From 89bca74b786c276712ae894987242c0449d8182d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:00 +0000
Subject: [PATCH 054/147] fix: TOPIC without arguments does not read past the
 arguments

---
 libirc/redirect.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libirc/redirect.c b/libirc/redirect.c
index 929ae2f..2d7d1aa 100644
--- a/libirc/redirect.c
+++ b/libirc/redirect.c
@@ -606,7 +606,7 @@ static int handle_default(const struct irc_line *l, struct query_stack *stack,
 
 static int handle_topic(const struct irc_line *l, struct query_stack *stack, void *userdata, struct query *q)
 {
-	if (l->args[2] != NULL)
+	if (l->argc > 2)
 		return 0;
 	return handle_default(l,stack,userdata,q);
 }
-- 
2.43.0


From 13125da826861c58ce98670400bfa3d825b73d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:12 +0000
Subject: [PATCH 055/147] fix: admin commands: contexts, arguments and
 listeners

---
 src/admin.c | 85 ++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 58 insertions(+), 27 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index a750e9e..427f7d5 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -60,12 +60,14 @@ static void privmsg_admin_out(admin_handle h, const char *data)
 {
 	struct irc_client *c = h->client;
 	struct irc_network *n = h->network;
-	char *nick = c->state->me.nick;
+	const char *nick = "*";
 	char *hostmask;
 
 	hostmask = admin_hostmask(n);
 	if (n->external_state != NULL) {
 		nick = n->external_state->me.nick;
+	} else if (c != NULL && c->state != NULL && c->state->me.nick != NULL) {
+		nick = c->state->me.nick;
 	}
 	if (c != NULL) {
 		client_send_args_ex(c, hostmask, "NOTICE", nick, data, NULL);
@@ -299,6 +301,7 @@ static void cmd_disconnect_network (admin_handle h, const char * const *args, vo
 	if (n->connection.state == NETWORK_CONNECTION_STATE_NOT_CONNECTED) {
 		admin_out(h, "Already disconnected from `%s'", n->name);
 	} else if (nc->type == NETWORK_VIRTUAL &&
+		n->connection.data.virtual.ops != NULL &&
 		n->connection.data.virtual.ops->not_disconnectable) {
 		admin_out(h, "Built-in network `%s' can't be disconnected",
 				  n->name);
@@ -457,7 +460,8 @@ static void list_networks_helper(admin_handle h)
 			admin_out(h, "%s: Connected, logging in", n->name);
 			break;
 		case NETWORK_CONNECTION_STATE_NOT_CONNECTED:
-			if (n->connection.data.tcp.last_disconnect_reason)
+			if (((struct network_config *)n->private_data)->type == NETWORK_TCP &&
+				n->connection.data.tcp.last_disconnect_reason)
 				admin_out(h, "%s: Not connected: %s", n->name,
 						  n->connection.data.tcp.last_disconnect_reason);
 			else
@@ -707,7 +711,7 @@ static void cmd_charset(admin_handle h, const char * const *args, void *userdata
 
 static void cmd_echo(admin_handle h, const char * const *args, void *userdata)
 {
-	admin_out(h, "%s", args[1]);
+	admin_out(h, "%s", args[1] != NULL?args[1]:"");
 }
 
 static gint cmp_cmd(gconstpointer a, gconstpointer b)
@@ -741,6 +745,7 @@ gboolean process_cmd(admin_handle h, const char *cmd)
 	args = g_strsplit(cmd, " ", 0);
 
 	if (!args[0]) {
+		g_strfreev(args);
 		admin_out(h, "Please specify a command. Use the 'help' command to get a list of available commands");
 		return TRUE;
 	}
@@ -784,6 +789,7 @@ gboolean admin_process_command(struct irc_client *c, struct irc_line *l, int cmd
 	}
 
 	ah.send_fn = privmsg_admin_out;
+	ah.user_data = NULL;
 	ah.client = c;
 	ah.network = c->network;
 	ah.global = c->network->global;
@@ -818,12 +824,24 @@ static gboolean admin_net_init(struct irc_network *n)
 
 static gboolean admin_to_server (struct irc_network *n, struct irc_client *c, const struct irc_line *l)
 {
+	/* The commands below that can't do without a parameter */
+	static const char *need_param[] = { "PRIVMSG", "NOTICE", "WHO", "JOIN", "PART", "WHOIS", NULL };
+	int j;
+
+	for (j = 0; need_param[j] != NULL; j++) {
+		if (!base_strcmp(l->args[0], need_param[j]) && l->argc < 2) {
+			virtual_network_recv_response(n, ERR_NEEDMOREPARAMS, l->args[0], "Not enough params", NULL);
+			return TRUE;
+		}
+	}
+
 	if (!base_strcmp(l->args[0], "PRIVMSG") ||
 		!base_strcmp(l->args[0], "NOTICE")) {
 		struct admin_handle ah;
 
-		if (irccmp(n->external_state->info, l->args[0], n->external_state->me.nick) == 0) {
-			virtual_network_recv_args(n, n->external_state->me.hostmask, l->args[0], l->args[1], NULL);
+		if (irccmp(n->external_state->info, l->args[1], n->external_state->me.nick) == 0) {
+			virtual_network_recv_args(n, n->external_state->me.hostmask, l->args[0], l->args[1],
+									  l->argc > 2?l->args[2]:"", NULL);
 			return TRUE;
 		}
 
@@ -839,7 +857,7 @@ static gboolean admin_to_server (struct irc_network *n, struct irc_client *c, co
 		ah.network = n;
 		ah.global = n->global;
 
-		return process_cmd(&ah, l->args[2]);
+		return process_cmd(&ah, l->argc > 2?l->args[2]:NULL);
 	} else if (!base_strcmp(l->args[0], "ISON")) {
 		int i;
 		char *tmp;
@@ -995,7 +1013,12 @@ void admin_log(enum log_level level, const struct irc_network *n, const struct i
 	for (gl = my_global->networks; gl; gl = gl->next) {
 		struct irc_network *network = gl->data;
 
-		if (network->connection.data.virtual.ops != &admin_network) {
+		struct network_config *nc = network->private_data;
+
+		/* The connection data of other types of networks has another layout */
+		if (nc == NULL || nc->type != NETWORK_VIRTUAL ||
+			network->external_state == NULL ||
+			network->connection.data.virtual.ops != &admin_network) {
 			continue;
 		}
 
@@ -1029,6 +1052,12 @@ static void cmd_start_listener(admin_handle h, const char * const *args, void *u
 		return;
 	}
 
+	if (args[3] != NULL &&
+		find_network(admin_get_global(h)->networks, args[3]) == NULL) {
+		admin_out(h, "No such network `%s`", args[3]);
+		return;
+	}
+
 	cfg = g_new0(struct listener_config, 1);
 
 	b = g_strdup(args[1]);
@@ -1038,17 +1067,11 @@ static void cmd_start_listener(admin_handle h, const char * const *args, void *u
 		cfg->address = b;
 		cfg->port = g_strdup(p);
 	} else {
-		cfg->port = g_strdup(b);
+		cfg->port = b;
 		cfg->address = NULL;
 	}
 
-	if (args[3]) {
-		cfg->network = g_strdup(args[3]);
-		if (find_network(admin_get_global(h)->networks, args[3]) == NULL) {
-			admin_out(h, "No such network `%s`", args[3]);
-			return;
-		}
-	}
+	cfg->network = g_strdup(args[3]);
 
 	cfg->password = g_strdup(args[2]);
 
@@ -1060,8 +1083,8 @@ static void cmd_start_listener(admin_handle h, const char * const *args, void *u
 
 static void cmd_stop_listener(admin_handle h, const char * const *args, void *userdata)
 {
-	GList *gl;
-	char *b, *p;
+	GList *gl, *next;
+	char *b, *p, *spec;
 	int i = 0;
 
 	if (args[1] == NULL) {
@@ -1069,7 +1092,7 @@ static void cmd_stop_listener(admin_handle h, const char * const *args, void *us
 		return;
 	}
 
-	b = g_strdup(args[1]);
+	spec = b = g_strdup(args[1]);
 	if ((p = strchr(b, ':'))) {
 		*p = '\0';
 		p++;
@@ -1078,9 +1101,11 @@ static void cmd_stop_listener(admin_handle h, const char * const *args, void *us
 		b = NULL;
 	}
 
-	for (gl = admin_get_global(h)->listeners; gl; gl = gl->next) {
+	for (gl = admin_get_global(h)->listeners; gl; gl = next) {
 		struct irc_listener *l = gl->data;
 
+		next = gl->next;
+
 		if (b && l->config->address == NULL) {
 			continue;
 		}
@@ -1089,7 +1114,7 @@ static void cmd_stop_listener(admin_handle h, const char * const *args, void *us
 			continue;
 		}
 
-		if (strcmp(p, l->config->port) != 0) {
+		if (l->config->port == NULL || strcmp(p, l->config->port) != 0) {
 			continue;
 		}
 
@@ -1098,7 +1123,7 @@ static void cmd_stop_listener(admin_handle h, const char * const *args, void *us
 		i++;
 	}
 
-	if (b) g_free(b); else g_free(p);
+	g_free(spec);
 
 	admin_out(h, "%d listeners stopped", i);
 }
@@ -1110,7 +1135,7 @@ static void cmd_list_listener(admin_handle h, const char * const *args, void *us
 	for (gl = admin_get_global(h)->listeners; gl; gl = gl->next) {
 		struct irc_listener *l = gl->data;
 
-		admin_out(h, "%s:%s%s%s%s", l->config->address?l->config->address:"", l->config->port,
+		admin_out(h, "%s:%s%s%s%s", l->config->address?l->config->address:"", l->config->port?l->config->port:"",
 				  l->network?" (":"", l->network?l->network->name:"",
 				  l->network?")":"");
 	}
@@ -1679,7 +1704,7 @@ static void cmd_set(admin_handle h, const char * const *args, void *userdata)
 		for (i = 0; settings[i].name != NULL; i++) {
 			tmp = settings[i].get(h);
 			if (tmp == NULL) {
-				admin_out(h, "%s is not set", settings[i]);
+				admin_out(h, "%s is not set", settings[i].name);
 			} else {
 				admin_out(h, "%s = %s", settings[i].name, tmp);
 			}
@@ -1783,18 +1808,20 @@ static gboolean handle_client_data(GIOChannel *channel,
 {
 	char *raw;
 	GError *error = NULL;
-	GIOStatus status;
+	GIOStatus status = G_IO_STATUS_NORMAL;
 	struct admin_handle ah;
 	gsize eol;
 
 	ah.global = _global;
 	ah.client = NULL;
+	ah.network = NULL;
 	ah.user_data = channel;
 	ah.send_fn = iochannel_admin_out;
 
 	if (condition & G_IO_IN) {
-		status = g_io_channel_read_line(channel, &raw, NULL, &eol, &error);
-		if (status == G_IO_STATUS_NORMAL) {
+		/* The other end may have closed the socket already: handle
+		 * all that it sent before that. */
+		while ((status = g_io_channel_read_line(channel, &raw, NULL, &eol, &error)) == G_IO_STATUS_NORMAL) {
 			raw[eol] = '\0';
 			process_cmd(&ah, raw);
 			g_free(raw);
@@ -1803,6 +1830,10 @@ static gboolean handle_client_data(GIOChannel *channel,
 		if (error != NULL) {
 			g_error_free(error);
 		}
+
+		if (status != G_IO_STATUS_AGAIN) {
+			return FALSE;
+		}
 	}
 
 	if (condition & G_IO_HUP) {
@@ -1853,7 +1884,7 @@ gboolean start_admin_socket(struct global *global)
 	}
 
 	un.sun_family = AF_UNIX;
-	strncpy(un.sun_path, global->config->admin_socket, sizeof(un.sun_path));
+	g_strlcpy(un.sun_path, global->config->admin_socket, sizeof(un.sun_path));
 	unlink(un.sun_path);
 
 	if (bind(sock, (struct sockaddr *)&un, sizeof(un)) < 0) {
-- 
2.43.0


From fdf79d68ec3cbf98f77e4a0122c169035d90134c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:14 +0000
Subject: [PATCH 056/147] fix: admin settings: values with spaces, unset
 values, admin-user, leaks

---
 src/admin.c | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index 427f7d5..01bcb3f 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1145,7 +1145,7 @@ static gboolean motd_file_set(admin_handle h, const char *name)
 {
 	struct global *g = admin_get_global(h);
 
-	if (!g_file_test(name, G_FILE_TEST_EXISTS)) {
+	if (name != NULL && !g_file_test(name, G_FILE_TEST_EXISTS)) {
 		admin_out(h, "%s: file does not exist", name);
 		return FALSE;
 	}
@@ -1219,6 +1219,11 @@ static gboolean report_time_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
+	if (value == NULL) {
+		admin_out(h, "The time reporting setting can't be unset.");
+		return FALSE;
+	}
+
 	if (!strcasecmp(value, "never") || !strcasecmp(value, "false")) {
 		g->config->report_time = REPORT_TIME_NEVER;
 	} else if (!strcasecmp(value, "always")) {
@@ -1227,6 +1232,7 @@ static gboolean report_time_set(admin_handle h, const char *value)
 			  !strcasecmp(value, "true")) {
 		g->config->report_time = REPORT_TIME_REPLICATION;
 	} else {
+		admin_out(h, "Invalid value `%s', expected never, always or replication", value);
 		return FALSE;
 	}
 
@@ -1244,7 +1250,7 @@ static gboolean replication_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
-	if (repl_find_backend(value) == NULL) {
+	if (value != NULL && repl_find_backend(value) == NULL) {
 		admin_out(h, "No such replication backend `%s'", value);
 		return FALSE;
 	}
@@ -1267,7 +1273,7 @@ static gboolean admin_user_set(admin_handle h, const char *value)
 	struct global *g = admin_get_global(h);
 
 	g_free(g->config->admin_user);
-	if (strlen(value) == 0) {
+	if (value != NULL && strlen(value) != 0) {
 		/* FIXME: Check whether value is a somewhat valid IRC nick? */
 		g->config->admin_user = g_strdup(value);
 	} else {
@@ -1435,6 +1441,7 @@ static gboolean port_set(admin_handle h, const char *value)
 		struct listener_config *l = gl->data;
 
 		if (l->is_default) {
+			g_free(l->port);
 			l->port = g_strdup(value);
 			return TRUE;
 		}
@@ -1471,6 +1478,7 @@ static gboolean bind_set(admin_handle h, const char *value)
 		struct listener_config *l = gl->data;
 
 		if (l->is_default) {
+			g_free(l->address);
 			l->address = g_strdup(value);
 			return TRUE;
 		}
@@ -1507,6 +1515,7 @@ static gboolean password_set(admin_handle h, const char *value)
 		struct listener_config *l = gl->data;
 
 		if (l->is_default) {
+			g_free(l->password);
 			l->password = g_strdup(value);
 			return TRUE;
 		}
@@ -1543,6 +1552,7 @@ static gboolean default_network_set(admin_handle h, const char *value)
 		struct listener_config *l = gl->data;
 
 		if (l->is_default) {
+			g_free(l->network);
 			l->network = g_strdup(value);
 			return TRUE;
 		}
@@ -1562,6 +1572,7 @@ static gboolean default_client_charset_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
+	g_free(g->config->client_charset);
 	g->config->client_charset = g_strdup(value);
 
 	return TRUE;
@@ -1576,7 +1587,7 @@ static char *default_nick_get(admin_handle h)
 static gboolean default_nick_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
-	if (strlen(value) == 0) {
+	if (value == NULL || strlen(value) == 0) {
 		admin_out(h, "Nick name can't be empty.");
 		return FALSE;
 	}
@@ -1604,7 +1615,7 @@ static char *default_username_get(admin_handle h)
 static gboolean default_username_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
-	if (strlen(value) == 0) {
+	if (value == NULL || strlen(value) == 0) {
 		admin_out(h, "Username can't be empty.");
 		return FALSE;
 	}
@@ -1633,7 +1644,7 @@ static gboolean default_fullname_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
-	if (strlen(value) == 0) {
+	if (value == NULL || strlen(value) == 0) {
 		admin_out(h, "Fullname can't be empty");
 		return FALSE;
 	}
@@ -1691,8 +1702,11 @@ static void cmd_unset(admin_handle h, const char * const *args, void *userdata)
 	for (i = 0; settings[i].name; i++) {
 		if (!strcasecmp(settings[i].name, args[1])) {
 			settings[i].set(h, NULL);
+			return;
 		}
 	}
+
+	admin_out(h, "Unknown setting `%s'", args[1]);
 }
 
 static void cmd_set(admin_handle h, const char * const *args, void *userdata)
@@ -1714,10 +1728,17 @@ static void cmd_set(admin_handle h, const char * const *args, void *userdata)
 		for (i = 0; settings[i].name; i++) {
 			if (!strcasecmp(settings[i].name, args[1])) {
 				if (args[2] != NULL) {
-					settings[i].set(h, args[2]);
+					/* The value is all that follows the name */
+					tmp = g_strjoinv(" ", (char **)&args[2]);
+					settings[i].set(h, tmp);
+					g_free(tmp);
 				} else {
 					tmp = settings[i].get(h);
-					admin_out(h, "%s", tmp);
+					if (tmp == NULL) {
+						admin_out(h, "%s is not set", settings[i].name);
+					} else {
+						admin_out(h, "%s", tmp);
+					}
 					g_free(tmp);
 				}
 				return;
-- 
2.43.0


From 8a0faddb7d5d8a88ffb0a75cb047b3ea01872f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:15 +0000
Subject: [PATCH 057/147] fix: renamed networks are renamed in the
 configuration too, so that they can be deleted

---
 src/admin.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/admin.c b/src/admin.c
index 01bcb3f..5ffd957 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -376,6 +376,7 @@ static void rename_network_helper(admin_handle h, const char *oldname,
 								  const char *newname)
 {
 	struct irc_network *n;
+	struct network_config *nc;
 
 	n = find_network(admin_get_global(h)->networks, oldname);
 
@@ -391,21 +392,28 @@ static void rename_network_helper(admin_handle h, const char *oldname,
 
 	g_free(n->name);
 	n->name = g_strdup(newname);
+
+	nc = n->private_data;
+	g_free(nc->name);
+	nc->name = g_strdup(newname);
 }
 
 static void del_network_helper(admin_handle h, const char *name)
 {
 	struct irc_network *n = find_network(admin_get_global(h)->networks, name);
+	struct network_config *nc;
 	if (n == NULL) {
 		admin_out(h, "No such network `%s'", name);
 		return;
 	}
+	nc = n->private_data;
 
 	disconnect_network(n);
 
 	unload_network(n);
 
-	config_del_network(admin_get_global(h)->config, name);
+	/* The network may have learned another name than it is configured with */
+	config_del_network(admin_get_global(h)->config, nc->name);
 
 	admin_out(h, "Network `%s' deleted", name);
 }
-- 
2.43.0


From 7715473ccb308ec7076a7746bc4be757d6957c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:46 +0000
Subject: [PATCH 058/147] fix: paragraph separators and carriage returns do not
 end a line in the backlog, key and motd files

---
 libirc/linestack.c | 3 +++
 src/keyfile.c      | 1 +
 2 files changed, 4 insertions(+)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 873f9e4..f4b001c 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -124,6 +124,7 @@ struct linestack_context *create_linestack(const char *data_dir,
 	g_free(data_file);
 
 	g_io_channel_set_encoding(data->line_file, NULL, NULL);
+	g_io_channel_set_line_term(data->line_file, "\n", 1);
 
 	index_file = g_build_filename(data_dir, "index", NULL);
 	g_assert(index_file != NULL);
@@ -271,6 +272,8 @@ struct irc_network_state *linestack_get_state(
 	g_free(data_file);
 
 	g_io_channel_set_encoding(state_file, NULL, NULL);
+	/* By default carriage returns and paragraph separators end a line too */
+	g_io_channel_set_line_term(state_file, "\n", 1);
 
 	ret = network_state_init("", "", "");
 	if (!marshall_network_state(MARSHALL_PULL, state_file, ret)) {
diff --git a/src/keyfile.c b/src/keyfile.c
index 01d4f08..1076874 100644
--- a/src/keyfile.c
+++ b/src/keyfile.c
@@ -44,6 +44,7 @@ gboolean keyfile_read_file(const char *filename, char commentchar, GList **nicks
 
 	/* Passwords and nicks are not necessarily UTF-8 */
 	g_io_channel_set_encoding(gio, NULL, NULL);
+	g_io_channel_set_line_term(gio, "\n", 1);
 
 	while (G_IO_STATUS_NORMAL == g_io_channel_read_line(gio, &ret, &nr, &term, NULL))
 	{
-- 
2.43.0


From cff2ffa5410bbd6015653279972e33b18b48a32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:49 +0000
Subject: [PATCH 059/147] fix: listener: SOCKS requests and first lines that
 arrive in pieces, long SOCKS names, PASS without argument

---
 libirc/listener.c | 176 ++++++++++++++++++++++++++++++----------------
 libirc/listener.h |   3 +
 src/listener.c    |  12 ++--
 3 files changed, 126 insertions(+), 65 deletions(-)

diff --git a/libirc/listener.c b/libirc/listener.c
index 529f536..372b04b 100644
--- a/libirc/listener.c
+++ b/libirc/listener.c
@@ -105,6 +105,7 @@ static gboolean kill_pending_client(struct pending_client *pc)
 #endif
 
 	g_free(pc->clientname);
+	g_string_free(pc->partial, TRUE);
 
 	g_free(pc);
 
@@ -154,27 +155,58 @@ gboolean listener_stop(struct irc_listener *l)
 		l->incoming = g_list_remove(l->incoming, lio);
 	}
 
+	/* These can't outlive the listener */
+	while (l->pending != NULL) {
+		kill_pending_client(l->pending->data);
+	}
+
+	l->active = FALSE;
+
 	return TRUE;
 }
 
+/**
+ * Wait until the first bytes of a request have been received.
+ *
+ * @param pc Pending client
+ * @param len Number of bytes required
+ * @return G_IO_STATUS_NORMAL if these are in pc->partial,
+ *         G_IO_STATUS_AGAIN if they are not there yet.
+ */
+static GIOStatus pending_client_require(struct pending_client *pc, gsize len)
+{
+	while (pc->partial->len < len) {
+		gchar data[0x200];
+		gsize read = 0;
+		GIOStatus status;
+
+		/* No more than needed, the rest is for whoever is next */
+		status = g_io_channel_read_chars(pc->connection, data,
+										 MIN(sizeof(data), len - pc->partial->len),
+										 &read, NULL);
+		g_string_append_len(pc->partial, data, read);
+		if (status != G_IO_STATUS_NORMAL) {
+			return status;
+		}
+	}
+
+	return G_IO_STATUS_NORMAL;
+}
+
 static gboolean handle_client_detect(GIOChannel *ioc, struct pending_client *pc)
 {
 	GIOStatus status;
-	gsize read;
-	gchar header[2];
 	GError *error = NULL;
 
-	status = g_io_channel_read_chars(ioc, header, 1, &read, &error);
-
-	if (status != G_IO_STATUS_NORMAL && status != G_IO_STATUS_AGAIN) {
-		if (error != NULL)
-			g_error_free(error);
-		return FALSE;
+	status = pending_client_require(pc, 1);
+	if (status != G_IO_STATUS_NORMAL) {
+		return (status == G_IO_STATUS_AGAIN);
 	}
 
-	if (header[0] == SOCKS_VERSION) {
+	if (pc->partial->str[0] == SOCKS_VERSION) {
 		listener_log(LOG_TRACE, pc->listener, "Detected SOCKS.");
 		pc->type = CLIENT_TYPE_SOCKS;
+		g_string_truncate(pc->partial, 0);
 		pc->socks.state = SOCKS_STATE_NEW;
 		return TRUE;
 	} else {
@@ -185,22 +217,30 @@ static gboolean handle_client_detect(GIOChannel *ioc, struct pending_client *pc)
 		gboolean ret;
 		gsize in_len;
 
-		pc->type = CLIENT_TYPE_REGULAR;
-
 		g_assert(ioc != NULL);
 
-		status = g_io_channel_read_line(ioc, &raw, &in_len, NULL, &error);
-		if (status != G_IO_STATUS_NORMAL) {
-			g_free(raw);
-			g_error_free(error);
-			return status;
+		if (pc->partial->str[0] == '\n') {
+			raw = g_strdup("");
+			in_len = 0;
+		} else {
+			status = g_io_channel_read_line(ioc, &raw, &in_len, NULL, &error);
+			if (status != G_IO_STATUS_NORMAL) {
+				g_free(raw);
+				if (error != NULL)
+					g_error_free(error);
+				/* Perhaps the rest of the line is still to come */
+				return (status == G_IO_STATUS_AGAIN);
+			}
 		}
 
+		pc->type = CLIENT_TYPE_REGULAR;
+
 		complete = g_malloc(in_len+2);
-		complete[0] = header[0];
+		complete[0] = pc->partial->str[0];
 		memcpy(complete+1, raw, in_len);
 		complete[in_len+1] = '\0';
 		g_free(raw);
+		g_string_truncate(pc->partial, 0);
 
 		if (pc->listener->iconv == (GIConv)-1) {
 			cvrt = complete;
@@ -303,8 +343,11 @@ struct pending_client *listener_new_pending_client(struct irc_listener *listener
 
 	g_io_channel_set_close_on_unref(c, TRUE);
 	g_io_channel_set_encoding(c, NULL, NULL);
+	/* By default a NUL or a paragraph separator would end a line too */
+	g_io_channel_set_line_term(c, "\n", 1);
 	g_io_channel_set_flags(c, G_IO_FLAG_NONBLOCK, NULL);
 	pc = g_new0(struct pending_client, 1);
+	pc->partial = g_string_new(NULL);
 #ifdef HAVE_GSSAPI
 	pc->authn_name = GSS_C_NO_NAME;
 	pc->gss_ctx = GSS_C_NO_CONTEXT;
@@ -537,7 +580,7 @@ static gboolean on_socks_pass_accepted(struct pending_client *cl, gboolean accep
 
 	g_io_channel_flush(cl->connection, NULL);
 
-	if (header[1] == 0x0) {
+	if (accepted) {
 		cl->socks.state = SOCKS_STATE_NORMAL;
 		return TRUE;
 	} else {
@@ -547,47 +590,42 @@ static gboolean on_socks_pass_accepted(struct pending_client *cl, gboolean accep
 
 static gboolean pass_handle_data(struct pending_client *cl)
 {
-	gchar header[2];
-	gsize read;
-	gboolean accepted;
 	GIOStatus status;
 	gchar uname[0x100], pass[0x100];
+	guint8 ulen, plen;
 
-	status = g_io_channel_read_chars(cl->connection, header, 2, &read, NULL);
+	status = pending_client_require(cl, 2);
 	if (status != G_IO_STATUS_NORMAL) {
-		return FALSE;
+		return (status == G_IO_STATUS_AGAIN);
 	}
 
-	if (header[0] != SOCKS_VERSION && header[0] != 0x1) {
+	if (cl->partial->str[0] != SOCKS_VERSION && cl->partial->str[0] != 0x1) {
 		listener_log(LOG_WARNING, cl->listener,
 					 "Client suddenly changed socks uname/pwd version to %x",
-					 header[0]);
+					 cl->partial->str[0]);
 	 	return listener_socks_error(cl, REP_GENERAL_FAILURE);
 	}
 
-	status = g_io_channel_read_chars(cl->connection, uname, header[1], &read,
-									 NULL);
-	if (status != G_IO_STATUS_NORMAL) {
-		return FALSE;
-	}
-
-	uname[(guint8)header[1]] = '\0';
-
-	status = g_io_channel_read_chars(cl->connection, header, 1, &read, NULL);
+	ulen = (guint8)cl->partial->str[1];
+	status = pending_client_require(cl, 2 + ulen + 1);
 	if (status != G_IO_STATUS_NORMAL) {
-		return FALSE;
+		return (status == G_IO_STATUS_AGAIN);
 	}
 
-	status = g_io_channel_read_chars(cl->connection, pass, header[0], &read, NULL);
+	plen = (guint8)cl->partial->str[2 + ulen];
+	status = pending_client_require(cl, 2 + ulen + 1 + plen);
 	if (status != G_IO_STATUS_NORMAL) {
-		return FALSE;
+		return (status == G_IO_STATUS_AGAIN);
 	}
 
-	pass[(guint8)header[0]] = '\0';
+	memcpy(uname, cl->partial->str + 2, ulen);
+	uname[ulen] = '\0';
+	memcpy(pass, cl->partial->str + 2 + ulen + 1, plen);
+	pass[plen] = '\0';
+	g_string_truncate(cl->partial, 0);
 
-	accepted = cl->listener->ops->socks_auth_simple(cl, uname, pass,
-													on_socks_pass_accepted);
-	return TRUE;
+	return cl->listener->ops->socks_auth_simple(cl, uname, pass,
+												on_socks_pass_accepted);
 }
 
 #ifdef HAVE_GSSAPI
@@ -798,28 +836,29 @@ static gboolean handle_client_socks_data(GIOChannel *ioc, struct pending_client
 	GIOStatus status;
 
 	if (cl->socks.state == SOCKS_STATE_NEW) {
-		int i;
+		int i, num_methods;
 		gchar header[2];
-		gchar methods[0x100];
 		gsize read;
-		status = g_io_channel_read_chars(ioc, header, 1, &read, NULL);
+
+		status = pending_client_require(cl, 1);
 		if (status != G_IO_STATUS_NORMAL) {
-			return FALSE;
+			return (status == G_IO_STATUS_AGAIN);
 		}
 
-		/* None by default */
-		cl->socks.method = NULL;
-
-		status = g_io_channel_read_chars(ioc, methods, header[0], &read, NULL);
+		num_methods = (guint8)cl->partial->str[0];
+		status = pending_client_require(cl, 1 + num_methods);
 		if (status != G_IO_STATUS_NORMAL) {
-			return FALSE;
+			return (status == G_IO_STATUS_AGAIN);
 		}
 
-		for (i = 0; i < header[0]; i++) {
+		/* None by default */
+		cl->socks.method = NULL;
+
+		for (i = 0; i < num_methods; i++) {
 			int j;
 			for (j = 0; socks_methods[j].id != -1; j++)
 			{
-				if (socks_methods[j].id == methods[i] &&
+				if (socks_methods[j].id == (guint8)cl->partial->str[1+i] &&
 					socks_methods[j].acceptable != NULL &&
 					socks_methods[j].acceptable(cl)) {
 					cl->socks.method = &socks_methods[j];
@@ -828,6 +867,8 @@ static gboolean handle_client_socks_data(GIOChannel *ioc, struct pending_client
 			}
 		}
 
+		g_string_truncate(cl->partial, 0);
+
 		header[0] = SOCKS_VERSION;
 		header[1] = cl->socks.method?cl->socks.method->id:SOCKS_METHOD_NOACCEPTABLE;
 
@@ -853,14 +894,15 @@ static gboolean handle_client_socks_data(GIOChannel *ioc, struct pending_client
 	} else if (cl->socks.state == SOCKS_STATE_AUTH) {
 		return cl->socks.method->handle_data(cl);
 	} else if (cl->socks.state == SOCKS_STATE_NORMAL) {
-		gchar header[4];
-		gsize read;
+		const gchar *header;
 
-		status = g_io_channel_read_chars(ioc, header, 4, &read, NULL);
+		status = pending_client_require(cl, 4);
 		if (status != G_IO_STATUS_NORMAL) {
-			return FALSE;
+			return (status == G_IO_STATUS_AGAIN);
 		}
 
+		header = cl->partial->str;
+
 		if (header[0] != SOCKS_VERSION) {
 			listener_log(LOG_WARNING, cl->listener, "Client suddenly changed socks version to %x", header[0]);
 		 	return listener_socks_error(cl, REP_GENERAL_FAILURE);
@@ -887,13 +929,25 @@ static gboolean handle_client_socks_data(GIOChannel *ioc, struct pending_client
 			case ATYP_FQDN:
 				{
 					char hostname[0x100];
+					guint8 len;
 					guint16 port;
-					status = g_io_channel_read_chars(ioc, header, 1, &read, NULL);
-					status = g_io_channel_read_chars(ioc, hostname, header[0], &read, NULL);
-					hostname[(guint8)header[0]] = '\0';
 
-					status = g_io_channel_read_chars(ioc, header, 2, &read, NULL);
-					port = ntohs(*(guint16 *)header);
+					status = pending_client_require(cl, 5);
+					if (status != G_IO_STATUS_NORMAL) {
+						return (status == G_IO_STATUS_AGAIN);
+					}
+
+					len = (guint8)cl->partial->str[4];
+					status = pending_client_require(cl, 5 + len + 2);
+					if (status != G_IO_STATUS_NORMAL) {
+						return (status == G_IO_STATUS_AGAIN);
+					}
+
+					memcpy(hostname, cl->partial->str + 5, len);
+					hostname[len] = '\0';
+					port = ((guint8)cl->partial->str[5+len] << 8) |
+							(guint8)cl->partial->str[6+len];
+					g_string_truncate(cl->partial, 0);
 
 					if (cl->listener->ops->socks_connect_fqdn == NULL)
 						return listener_socks_error(cl, REP_ATYP_NOT_SUPPORTED);
diff --git a/libirc/listener.h b/libirc/listener.h
index 3efb6b1..cf50a16 100644
--- a/libirc/listener.h
+++ b/libirc/listener.h
@@ -109,6 +109,9 @@ struct pending_client {
 	/** Private data. */
 	void *private_data;
 
+	/** Start of a request that has not been received completely yet. */
+	GString *partial;
+
 #ifdef HAVE_GSSAPI
 	gss_ctx_id_t gss_ctx;
 	gss_name_t authn_name;
diff --git a/src/listener.c b/src/listener.c
index 0dd2133..c0823ad 100644
--- a/src/listener.c
+++ b/src/listener.c
@@ -63,7 +63,8 @@ static gboolean listener_check_username_password(struct irc_listener *listener,
 			if (r->password == NULL || r->username == NULL)
 				continue;
 
-			if (strcmp(r->username, username))
+			/* Clients that just send a password do not tell their user name */
+			if (username != NULL && strcmp(r->username, username))
 				continue;
 
 			if (strcmp(r->password, password))
@@ -131,13 +132,13 @@ gboolean default_socks_connect_fqdn (struct pending_client *cl, const char *host
 			atyp = ATYP_IPV4;
 			data = (gchar *)&name4->sin_addr;
 			len = 4;
-			port = name4->sin_port;
+			port = ntohs(name4->sin_port);
 		} else if (name != NULL && name->sa_family == AF_INET6) {
 			struct sockaddr_in6 *name6 = (struct sockaddr_in6 *)name;
 			atyp = ATYP_IPV6;
 			data = (gchar *)&name6->sin6_addr;
 			len = 16;
-			port = name6->sin6_port;
+			port = ntohs(name6->sin6_port);
 		} else {
 			network_log(LOG_ERROR, result, "Unable to obtain local address for connection to server");
 			return listener_socks_error(cl, REP_NET_UNREACHABLE);
@@ -194,7 +195,10 @@ static gboolean handle_client_line(struct pending_client *pc, const struct irc_l
 		return TRUE;
 	}
 
-	if (!base_strcmp(l->args[0], "PASS")) {
+	if (!base_strcmp(l->args[0], "PASS") && l->argc < 2) {
+		irc_sendf(pc->connection, listener->iconv, NULL, ":%s %d %s PASS :Not enough parameters", get_my_hostname(), ERR_NEEDMOREPARAMS, "*");
+		g_io_channel_flush(pc->connection, NULL);
+	} else if (!base_strcmp(l->args[0], "PASS")) {
 		const char *networkname = NULL;
 		struct irc_network *n = listener->network;
 		gboolean authenticated = FALSE;
-- 
2.43.0


From 2f4996460b0da377febf8588c88131311fbba86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:05 +0000
Subject: [PATCH 060/147] fix: SOCKS user rules do not apply to clients that
 only send a password

---
 src/listener.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/listener.c b/src/listener.c
index c0823ad..89213f3 100644
--- a/src/listener.c
+++ b/src/listener.c
@@ -64,7 +64,7 @@ static gboolean listener_check_username_password(struct irc_listener *listener,
 				continue;
 
 			/* Clients that just send a password do not tell their user name */
-			if (username != NULL && strcmp(r->username, username))
+			if (username == NULL || strcmp(r->username, username))
 				continue;
 
 			if (strcmp(r->password, password))
-- 
2.43.0


From 3bc8bc6730adf4696f506b0454d5b916dfe49100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:05 +0000
Subject: [PATCH 061/147] fix: the end of a MOTD that is not part of the login
 does not start the session again

---
 src/network.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/network.c b/src/network.c
index 752c7a5..5226d10 100644
--- a/src/network.c
+++ b/src/network.c
@@ -136,7 +136,8 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 					l->args[2], tmp);
 		network_nick_set_nick(&n->external_state->me, tmp);
 		g_free(tmp);
-	} else if (response == RPL_ENDOFMOTD || response == ERR_NOMOTD) {
+	} else if ((response == RPL_ENDOFMOTD || response == ERR_NOMOTD) &&
+			   n->connection.state != NETWORK_CONNECTION_STATE_MOTD_RECVD) {
 		int i;
 		GList *gl;
 		n->connection.state = NETWORK_CONNECTION_STATE_MOTD_RECVD;
@@ -161,7 +162,9 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 
 		for (i = 0; nc->autocmd && nc->autocmd[i]; i++) {
 			struct irc_line *l = irc_parse_line(nc->autocmd[i]);
-			network_send_line(n, NULL, l);
+			if (l != NULL) {
+				network_send_line(n, NULL, l);
+			}
 			free_line(l);
 		}
 
-- 
2.43.0


From 9add08f24406e67b490e5e26e62f4336fa3777c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:03 +0000
Subject: [PATCH 062/147] fix: the user modes sent to an attaching client name
 the user they are about

---
 libirc/client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libirc/client.c b/libirc/client.c
index da461ec..c54a3a1 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -669,7 +669,7 @@ gboolean client_send_state(struct irc_client *c, struct irc_network_state *state
 
 	mode = mode2string(state->me.modes);
 	if (mode != NULL) {
-		ret = client_send_args_ex(c, state->me.nick, "MODE", mode, NULL);
+		ret = client_send_args_ex(c, state->me.nick, "MODE", state->me.nick, mode, NULL);
 	}
 	g_free(mode);
 
-- 
2.43.0


From c4ff69cd8b601ab932dd4a3245ab160632dc15ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:15 +0000
Subject: [PATCH 063/147] fix: the user's own nick change shows clients the
 hostname they know

The nick in the tracked state has changed already when the line is forwarded.  The
hostname in it also replaced the client's own one, so that no later line had the
client's own hostname either.
---
 src/client.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client.c b/src/client.c
index c7e17b6..5911abf 100644
--- a/src/client.c
+++ b/src/client.c
@@ -402,7 +402,8 @@ struct irc_line *irc_line_replace_hostmask(const struct irc_line *l,
 	}
 
 	/* Replace lines "faked" to be from the user itself */
-	if (l->origin != NULL && line_from_nick(info, l, old->nick)) {
+	if (l->origin != NULL && (line_from_nick(info, l, old->nick) ||
+							  line_from_nick(info, l, new->nick))) {
 		ret = linedup(l);
 		g_free(ret->origin);
 		ret->origin = g_strdup(new->hostmask);
-- 
2.43.0


From 484c6ec4ef137098d966b9c7b1990db0cb8808c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:08 +0000
Subject: [PATCH 064/147] fix: the end of a TRACE, LUSERS or ADMIN reply ends
 the query

Later replies of the same kind went to the client that asked first, not to the one
that asked.
---
 libirc/redirect.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libirc/redirect.c b/libirc/redirect.c
index 2d7d1aa..7247e49 100644
--- a/libirc/redirect.c
+++ b/libirc/redirect.c
@@ -137,8 +137,8 @@ static struct query queries[] = {
 		{ RPL_TRACELINK, RPL_TRACECONNECTING,
 		  RPL_TRACEUNKNOWN, RPL_TRACEUSER, RPL_TRACECLASS,
 		  RPL_TRACEHANDSHAKE, RPL_TRACEOPERATOR,
-		  RPL_TRACESERVER, RPL_TRACENEWTYPE, 0 },
-		{ RPL_TRYAGAIN, 0 },
+		  RPL_TRACESERVER, RPL_TRACENEWTYPE, RPL_TRACELOG, 0 },
+		{ RPL_TRACEEND, RPL_TRYAGAIN, 0 },
 		{ ERR_NOSUCHSERVER, 0 },
 		handle_default
 	},
@@ -337,8 +337,8 @@ static struct query queries[] = {
  /* LUSERS [ <mask> [ <target> ] ] */
 	{ "LUSERS",
 		{ RPL_LUSERCLIENT, RPL_LUSEROP, RPL_LUSERUNKNOWN, RPL_LUSERCHANNELS,
-			RPL_LUSERME, RPL_STATSTLINE, 0 },
-		{ RPL_TRYAGAIN, 0 },
+			RPL_STATSTLINE, 0 },
+		{ RPL_LUSERME, RPL_TRYAGAIN, 0 },
 		{ ERR_NOSUCHSERVER, 0 },
 		handle_default
 	},
@@ -354,8 +354,8 @@ static struct query queries[] = {
  /* ADMIN [ <target> ] */
 	{ "ADMIN",
 		{ RPL_ADMINME, RPL_ADMINLOC2, RPL_ADMINLOC1,
-			RPL_ADMINLOC3, 0 },
-		{ RPL_TRYAGAIN, 0 },
+			0 },
+		{ RPL_ADMINLOC3, RPL_TRYAGAIN, 0 },
 		{ ERR_NOSUCHSERVER, 0 },
 		handle_default
 	},
-- 
2.43.0


From bca77d2b013e936528c8ebe814452d92c1782a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:19 +0000
Subject: [PATCH 065/147] fix: replies do not go to clients whose earlier
 commands got no reply

The server answers in order, so when a later query is answered, commands that are
only answered when they fail, such as PRIVMSG and MODE changes, were successful.
Changes of modes and topics are not queries for them.
---
 libirc/redirect.c | 75 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 73 insertions(+), 2 deletions(-)

diff --git a/libirc/redirect.c b/libirc/redirect.c
index 7247e49..24d980c 100644
--- a/libirc/redirect.c
+++ b/libirc/redirect.c
@@ -39,6 +39,8 @@ static int handle_default(const struct irc_line *, struct query_stack *stack,
 						  void *userdata, struct query *);
 static int handle_topic(const struct irc_line *, struct query_stack *stack,
 						void *userdata, struct query *);
+static int handle_mode(const struct irc_line *, struct query_stack *stack,
+					   void *userdata, struct query *);
 
 static struct query queries[] = {
 /* Commands that get a one-client reply:
@@ -265,7 +267,7 @@ static struct query queries[] = {
 			ERR_ILLEGALCHANNELNAME,
 			
 			0 },
-		handle_default
+		handle_mode
 	},
 	
  /* SERVICE <nick> <reserved> <distribution> <type> <reserved> <info> */
@@ -487,6 +489,28 @@ static struct query unknown_query = {
 	handle_default
 };
 
+/* TOPIC <channel> <topic> */
+static struct query topic_change_query = {
+	"TOPIC",
+	{ 0 },
+	{ RPL_TRYAGAIN, 0 },
+	{ ERR_NOTONCHANNEL, ERR_NEEDMOREPARAMS, ERR_CHANOPPRIVSNEEDED,
+		ERR_NOCHANMODES, 0 },
+	handle_default
+};
+
+/* MODE <channel or nick> <changes> */
+static struct query mode_change_query = {
+	"MODE",
+	{ 0 },
+	{ RPL_TRYAGAIN, 0 },
+	{ ERR_NEEDMOREPARAMS, ERR_UMODEUNKNOWNFLAG, ERR_USERSDONTMATCH,
+		ERR_USERNOTINCHANNEL, ERR_KEYSET, ERR_CHANOPPRIVSNEEDED,
+		ERR_UNKNOWNMODE, ERR_NOCHANMODES, ERR_NOSUCHCHANNEL,
+		ERR_ILLEGALCHANNELNAME, 0 },
+	handle_default
+};
+
 /**
  * Check whether reply r is part of a specified list
  *
@@ -522,6 +546,41 @@ static void query_stack_free_entry(struct query_stack *stack, struct query_stack
 	g_free(s);
 }
 
+/**
+ * Check whether a query is only answered when it fails (or the target is away).
+ */
+static gboolean is_silent_query(const struct query *q)
+{
+	int i;
+
+	for (i = 0; i < 20 && q->end_replies[i]; i++) {
+		if (q->end_replies[i] != RPL_TRYAGAIN && q->end_replies[i] != RPL_AWAY)
+			return FALSE;
+	}
+
+	return q->replies[0] == 0;
+}
+
+/**
+ * Forget queries before a specific one that did not fail.
+ */
+static void query_stack_drop_silent(struct query_stack *stack, GList *until)
+{
+	GList *gl = stack->entries;
+
+	while (gl != until) {
+		struct query_stack_entry *s = gl->data;
+		GList *next = gl->next;
+
+		if (is_silent_query(s->query)) {
+			stack->entries = g_list_delete_link(stack->entries, gl);
+			query_stack_free_entry(stack, s);
+		}
+
+		gl = next;
+	}
+}
+
 void *query_stack_match_response(struct query_stack *stack, const struct irc_line *l)
 {
 	int n;
@@ -541,6 +600,9 @@ void *query_stack_match_response(struct query_stack *stack, const struct irc_lin
 			
 			ret = s->userdata;
 
+			/* The server answers in order */
+			query_stack_drop_silent(stack, gl);
+
 			/* Not a valid in-between reply ? Remove from stack */
 			if (!is_reply(s->query->replies, n)) {
 				/* Remove from stack */
@@ -607,6 +669,15 @@ static int handle_default(const struct irc_line *l, struct query_stack *stack,
 static int handle_topic(const struct irc_line *l, struct query_stack *stack, void *userdata, struct query *q)
 {
 	if (l->argc > 2)
-		return 0;
+		q = &topic_change_query;
+	return handle_default(l,stack,userdata,q);
+}
+
+static int handle_mode(const struct irc_line *l, struct query_stack *stack, void *userdata, struct query *q)
+{
+	/* MODE <name> and MODE <channel> [+]<list> are queries */
+	if (l->argc > 3 ||
+		(l->argc == 3 && strspn(l->args[2], "+beI") < strlen(l->args[2])))
+		q = &mode_change_query;
 	return handle_default(l,stack,userdata,q);
 }
-- 
2.43.0


From 92e6771b716dcdbac529f00fd4151a74f79586c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:26 +0000
Subject: [PATCH 066/147] fix: replies to a client's query show the user with
 the hostname the client knows

As lines that are sent to all clients do.
---
 src/redirect.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/redirect.c b/src/redirect.c
index 7a05cb4..ea3cd14 100644
--- a/src/redirect.c
+++ b/src/redirect.c
@@ -90,7 +90,10 @@ gboolean redirect_response(struct query_stack *stack,
 
 	c = (struct irc_client *)query_stack_match_response(stack, l);
 	if (c != NULL) {
-		client_send_line(c, l, NULL);
+		/* Not directly, so that it only sees its own hostmask */
+		GList *recipients = g_list_append(NULL, c);
+		clients_send(recipients, l, NULL);
+		g_list_free(recipients);
 		return TRUE;
 	}
 
-- 
2.43.0


From 837bce59a409485caaa4d936baf06bc4cc057066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:44 +0000
Subject: [PATCH 067/147] fix: a channel without modes gets an answer to a
 query for its modes from the cache

---
 libirc/client.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libirc/client.c b/libirc/client.c
index c54a3a1..09e2def 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -848,7 +848,12 @@ gboolean client_send_channel_mode(struct irc_client *c, struct irc_channel_state
 	mode = mode2string(ch->modes);
 	gboolean ret;
 
-	if (mode != NULL) {
+	if (mode == NULL) {
+		/* No modes set */
+		mode = g_strdup("+");
+	}
+
+	{
 		struct irc_line *l;
 		int i, j = 0;
 		l = g_new0(struct irc_line, 1);
-- 
2.43.0


From 8d7004a2f1e21a1235b1507fc0652bfc6a4b0622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:45 +0000
Subject: [PATCH 068/147] fix: ban lists are only answered from the cache when
 they were received

They include who set the bans and when, if that is known.
---
 libirc/client.c |  9 ++++++++-
 src/cache.c     | 15 ++++++++-------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/libirc/client.c b/libirc/client.c
index 09e2def..3886802 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -832,7 +832,14 @@ gboolean client_send_banlist(struct irc_client *client, struct irc_channel_state
 	{
 		struct nicklist_entry *be = gl->data;
 		g_assert(be != NULL);
-		if (!client_send_response(client, RPL_BANLIST, channel->name,
+		if (be->by != NULL) {
+			char time[20];
+			snprintf(time, sizeof(time), "%lu", be->time_set);
+			if (!client_send_response(client, RPL_BANLIST, channel->name,
+					     be->hostmask, be->by, time, NULL)) {
+				return FALSE;
+			}
+		} else if (!client_send_response(client, RPL_BANLIST, channel->name,
 				     be->hostmask, NULL)) {
 			return FALSE;
 		}
diff --git a/src/cache.c b/src/cache.c
index 5c71f1c..89b807f 100644
--- a/src/cache.c
+++ b/src/cache.c
@@ -29,8 +29,6 @@ static gboolean client_try_cache_mode(struct irc_client *c,
 				      struct irc_line *l,
 				      const struct cache_settings *settings)
 {
-	int i;
-	char m;
 	struct irc_channel_state *ch;
 
 	g_assert(l != NULL);
@@ -54,13 +52,16 @@ static gboolean client_try_cache_mode(struct irc_client *c,
 			return FALSE;
 		}
 
-		for (i = 0; (m = l->args[2][i]); i++) {
-			switch (m) {
-			case 'b': client_send_banlist(c, ch); break;
-			default: return FALSE;
-			}
+		if (strcmp(l->args[2], "b") && strcmp(l->args[2], "+b")) {
+			return FALSE;
+		}
+
+		if (!channel_mode_nicklist_present(ch, 'b')) {
+			return FALSE;
 		}
 
+		client_send_banlist(c, ch);
+
 		return TRUE;
 	/* Queries in the form MODE #channel */
 	} else if (l->argc == 2) {
-- 
2.43.0


From fb06a36566bd8bfd03beeb4a9b0946df2cab25e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:05 +0000
Subject: [PATCH 069/147] fix: WHO answers from the cache show the user with
 the hostname the client knows

---
 src/cache.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cache.c b/src/cache.c
index 89b807f..b388bcb 100644
--- a/src/cache.c
+++ b/src/cache.c
@@ -184,9 +184,11 @@ static gboolean client_try_cache_who(struct irc_client *c, struct irc_network_st
 		struct channel_nick *cn = gl->data;
 		struct network_nick *nn = cn->global_nick;
 		char *info = g_strdup_printf("%d %s", nn->hops, nn->fullname);
+		/* The client only sees its own hostmask */
+		struct network_nick *shown = (nn == &net->me)?&c->state->me:nn;
 
-		client_send_response(c, RPL_WHOREPLY, l->args[1], nn->username,
-				     nn->hostname, nn->server, nn->nick,
+		client_send_response(c, RPL_WHOREPLY, l->args[1], shown->username,
+				     shown->hostname, nn->server, nn->nick,
 				     cn->last_flags, info, NULL);
 
 		g_free(info);
-- 
2.43.0


From c9d35cb70c160ba423df77e90253cda272346db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:30 +0000
Subject: [PATCH 070/147] fix: a topic that was cleared is answered as no topic

---
 libirc/client.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libirc/client.c b/libirc/client.c
index 3886802..cfe2ff2 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -707,7 +707,7 @@ gboolean client_send_topic(struct irc_client *c, struct irc_channel_state *ch,
 					   gboolean explicit)
 {
 	gboolean ret;
-	if (ch->topic) {
+	if (ch->topic && strlen(ch->topic) > 0) {
 		if (!client_send_response(c, RPL_TOPIC, ch->name, ch->topic, NULL)) {
 			return FALSE;
 		}
@@ -716,6 +716,7 @@ gboolean client_send_topic(struct irc_client *c, struct irc_channel_state *ch,
 								  NULL)) {
 			return FALSE;
 		}
+		return TRUE;
 	}
 
 	if (ch->topic_set_time != 0 && ch->topic_set_by != NULL) {
-- 
2.43.0


From e18c04b75b626cd379bba90760f20e95f541577c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:08 +0000
Subject: [PATCH 071/147] fix: the classes of channel modes the server
 announced are announced to clients

Clients could not tell which modes have a parameter, and queries for channel modes
were answered without the parameters of such modes.
---
 libirc/client.c | 3 ++-
 src/network.c   | 9 +++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/libirc/client.c b/libirc/client.c
index cfe2ff2..9a32596 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -872,7 +872,8 @@ gboolean client_send_channel_mode(struct irc_client *c, struct irc_channel_state
 		l->args[2] = g_strdup(ch->name);
 		l->args[3] = mode;
 		for (i = 0; mode[i]; i++) {
-			enum chanmode_type cmt = network_chanmode_type(mode[i], c->state->info);
+			enum chanmode_type cmt = network_chanmode_type(mode[i],
+						(c->network != NULL)?c->network->info:c->state->info);
 			if (cmt == CHANMODE_OPT_SETTING || cmt == CHANMODE_SETTING) {
 				/* Servers may hide a key, but its place is needed */
 				char *option = channel_mode_option(ch, mode[i]);
diff --git a/src/network.c b/src/network.c
index 5226d10..2ce9291 100644
--- a/src/network.c
+++ b/src/network.c
@@ -48,6 +48,15 @@ static gboolean network_update_isupport(struct irc_network_info *net_info,
 		net_info->chantypes = g_strdup(remote_info->chantypes);
 	}
 
+	if (remote_info->chanmodes != NULL) {
+		g_strfreev(net_info->chanmodes);
+		net_info->chanmodes = g_strdupv(remote_info->chanmodes);
+		net_info->chanmodes_a = net_info->chanmodes[0];
+		net_info->chanmodes_b = net_info->chanmodes[1];
+		net_info->chanmodes_c = net_info->chanmodes[2];
+		net_info->chanmodes_d = net_info->chanmodes[3];
+	}
+
 	if (remote_info->casemapping != CASEMAP_UNKNOWN) {
 		net_info->casemapping = remote_info->casemapping;
 	}
-- 
2.43.0


From bc0d70883afb7dffb643af0319817817e1854aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:34 +0000
Subject: [PATCH 072/147] fix: backlog: the state before the first line can be
 asked for

---
 libirc/linestack.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index f4b001c..6050d40 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -233,7 +233,9 @@ struct irc_network_state *linestack_get_state(
 	status = g_io_channel_flush(nd->index_file, &error);
 	LF_CHECK_IO_STATUS(status);
 
-	if (to_index != NULL) {
+	if (to_index != NULL && *to_index == 0) {
+		state_index = 0;
+	} else if (to_index != NULL) {
 		t = (*to_index)-1;
 		status = g_io_channel_seek_position(nd->index_file,
 			t * INDEX_RECORD_SIZE + sizeof(guint64) + sizeof(time_t),
-- 
2.43.0


From 6dcf03a3ae7301d06df5702bb015ac8e1e99c4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:35 +0000
Subject: [PATCH 073/147] fix: backlog: a history that is opened again keeps
 its states apart

---
 libirc/linestack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 6050d40..6d408c7 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -194,7 +194,7 @@ struct linestack_context *create_linestack(const char *data_dir,
 		g_dir_close(dir);
 	}
 
-	if (!file_insert_state(data, state, 0)) {
+	if (!file_insert_state(data, state, data->count)) {
 		log_global(LOG_WARNING, "Unable to insert state");
 		g_free(data);
 		return NULL;
-- 
2.43.0


From ca2a184eb79e9452c7632079e6fc4d90a5c60d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:52 +0000
Subject: [PATCH 074/147] fix: backlog: what is not stored with a state is not
 left uninitialized, and the time a channel was made is stored

---
 libirc/linestack.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 6d408c7..1681765 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -684,7 +684,7 @@ gboolean linestack_replay(struct linestack_context *ctx,
 }
 
 
-#define marshall_new(m,t) if ((m) == MARSHALL_PULL) *(t) = g_malloc(sizeof(**t));
+#define marshall_new(m,t) if ((m) == MARSHALL_PULL) *(t) = g_malloc0(sizeof(**t));
 
 static const char tabs[10] = {'\t', '\t', '\t', '\t', '\t',
 			       '\t', '\t', '\t', '\t', '\t' };
@@ -988,6 +988,8 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 	ret &= marshall_string(nst, "topic", level+1, m, t, &(*c)->topic);
 	ret &= marshall_string(nst, "topic_set_by", level+1, m, t, &(*c)->topic_set_by);
 	ret &= marshall_time(nst, "topic_set_time", level+1, m, t, &(*c)->topic_set_time);
+	ret &= marshall_time(nst, "creation_time", level+1, m, t, &(*c)->creation_time);
+	ret &= marshall_bool(nst, "mode_received", level+1, m, t, &(*c)->mode_received);
 	for (i = 0; i < MAXMODES; i++) {
 		char name[20];
 		g_snprintf(name, sizeof(name), "mode_nicklist[%d]", i);
-- 
2.43.0


From 8e108656dcb4bc0d0c080f3c3335f305e5ce0beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:53 +0000
Subject: [PATCH 075/147] fix: backlog: the features of the network are stored
 with a state, so that names and modes are understood

---
 libirc/linestack.c | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 1681765..787ba88 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -1056,11 +1056,43 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 	return ret;
 }
 
+/* The features that are needed for making sense of other lines */
+static gboolean marshall_network_info(struct irc_network_state *nst, const char *name, int level, enum marshall_mode m, GIOChannel *t, struct irc_network_info *info)
+{
+	gboolean ret = TRUE;
+	int casemapping = info->casemapping;
+	char *chanmodes = NULL;
+
+	ret &= marshall_struct(t, m, level, name);
+	if (m == MARSHALL_PULL) {
+		g_free(info->prefix);
+		g_free(info->chantypes);
+	} else if (info->chanmodes != NULL) {
+		chanmodes = g_strjoinv(",", info->chanmodes);
+	}
+	ret &= marshall_string(nst, "prefix", level+1, m, t, &info->prefix);
+	ret &= marshall_string(nst, "chantypes", level+1, m, t, &info->chantypes);
+	ret &= marshall_string(nst, "chanmodes", level+1, m, t, &chanmodes);
+	ret &= marshall_int(nst, "casemapping", level+1, m, t, &casemapping);
+	if (m == MARSHALL_PULL) {
+		info->casemapping = casemapping;
+		if (chanmodes != NULL) {
+			char *param = g_strdup_printf("CHANMODES=%s", chanmodes);
+			network_info_parse(info, param);
+			g_free(param);
+		}
+	}
+	g_free(chanmodes);
+
+	return ret;
+}
+
 static gboolean marshall_network_state(enum marshall_mode m, GIOChannel *t,
 									   struct irc_network_state *n)
 {
 	gboolean ret = TRUE;
 
+	ret &= marshall_network_info(n, "info", 0, m, t, n->info);
 	if (m == MARSHALL_PULL) {
 		g_free(n->me.hostmask);
 		n->me.hostmask = NULL;
-- 
2.43.0


From 584fc0ddfa7083c76350ed3a9f8086ea33912b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:06 +0000
Subject: [PATCH 076/147] fix: backlog: the time a topic was set is not the
 time the line is looked at again

---
 libirc/linestack.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 787ba88..14994ef 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -672,6 +672,13 @@ static gboolean replay_line(struct irc_line *l, time_t t, void *state)
 {
 	struct irc_network_state *st = state;
 	state_handle_data(st, l);
+
+	if (l->argc > 1 && !base_strcmp(l->args[0], "TOPIC")) {
+		struct irc_channel_state *cs = find_channel(st, l->args[1]);
+		if (cs != NULL && cs->topic_set_time != 0)
+			cs->topic_set_time = t;
+	}
+
 	return TRUE;
 }
 
-- 
2.43.0


From 9fffb124ab4bb9d2631a898f646e76217c32e0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:22 +0000
Subject: [PATCH 077/147] fix: backlog: a state is stored after the line it
 includes, so that it is not applied twice

---
 libirc/linestack.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 14994ef..a14effe 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -543,12 +543,6 @@ gboolean linestack_insert_line(struct linestack_context *nd,
 		g_assert(strchr(l->args[i], '\r') == NULL);
 	}
 
-	if (nd->count >= nd->last_line_with_state + STATE_DUMP_INTERVAL) {
-		ret = file_insert_state(nd, state, nd->count);
-		if (ret == FALSE)
-			return FALSE;
-	}
-
 	if (!write_index_entry(nd->index_file,
 					  g_io_channel_tell_position(nd->line_file),
 					  time(NULL),
@@ -564,6 +558,14 @@ gboolean linestack_insert_line(struct linestack_context *nd,
 	}
 
 	nd->count++;
+
+	/* The state already includes the effect of this line */
+	if (nd->count >= nd->last_line_with_state + STATE_DUMP_INTERVAL) {
+		ret = file_insert_state(nd, state, nd->count);
+		if (ret == FALSE)
+			return FALSE;
+	}
+
 	return TRUE;
 }
 
-- 
2.43.0


From fd2e74858093a6fa7252c5523bed51678a06ae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:48 +0000
Subject: [PATCH 078/147] fix: backlog: the history starts with the login, and
 positions in an earlier history are forgotten

---
 src/admin.c         |  9 +++++++++
 src/internals.h     |  4 ++++
 src/network.c       | 18 +++++++++++++++++-
 src/repl_backends.c | 14 ++++++++++++++
 4 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/admin.c b/src/admin.c
index 5ffd957..bd7d07a 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -596,6 +596,15 @@ static void cmd_die(admin_handle h, const char * const *args, void *userdata)
 
 static GHashTable *markers = NULL;
 
+/**
+ * Forget up to where the history of a network was sent.
+ */
+void admin_forget_network(struct irc_network *n)
+{
+	if (markers != NULL)
+		g_hash_table_remove(markers, n);
+}
+
 static void cmd_backlog(admin_handle h, const char * const *args, void *userdata)
 {
 	linestack_marker lm;
diff --git a/src/internals.h b/src/internals.h
index 1da1693..91a33be 100644
--- a/src/internals.h
+++ b/src/internals.h
@@ -134,6 +134,10 @@ void global_update_config(struct global *my_global);
 void client_replicate(struct irc_client *);
 
 gboolean init_replication(void);
+void replication_forget_network(struct irc_network *n);
+
+/* admin.c */
+void admin_forget_network(struct irc_network *n);
 
 /* main.c */
 void free_global(struct global *);
diff --git a/src/network.c b/src/network.c
index 2ce9291..869202a 100644
--- a/src/network.c
+++ b/src/network.c
@@ -88,6 +88,8 @@ static gboolean network_process_ctcp_request(struct irc_network *n,
 }
 
 
+static void network_start_history(struct irc_network *s);
+
 /**
  * Process a line received from the server
  *
@@ -163,6 +165,10 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 
 		network_update_isupport(n->info, n->external_state->info);
 
+		/* The nick and the features of the network are known from here on */
+		if (n->linestack != NULL)
+			network_start_history(n);
+
 		nickserv_identify_me(n, n->external_state->me.nick);
 
 		clients_send_state(n->clients, n->external_state);
@@ -399,9 +405,19 @@ static void handle_network_disconnect(struct irc_network *n)
 	}
 }
 
-static void handle_network_state_set(struct irc_network *s)
+/* Start a new history, in which the old positions mean nothing */
+static void network_start_history(struct irc_network *s)
 {
+	if (s->linestack != NULL)
+		free_linestack_context(s->linestack);
+	replication_forget_network(s);
+	admin_forget_network(s);
 	s->linestack = new_linestack(s, s->global->config->linestack_dir);
+}
+
+static void handle_network_state_set(struct irc_network *s)
+{
+	network_start_history(s);
 	s->queries = new_query_stack((void (*)(void *))client_ref_void,
 								 (void (*)(void *))client_unref);
 }
diff --git a/src/repl_backends.c b/src/repl_backends.c
index 1810241..12eb293 100644
--- a/src/repl_backends.c
+++ b/src/repl_backends.c
@@ -17,6 +17,7 @@
 	Foundation, Inc., 675 Mass Ave, Cambridge, MA 02139, USA.
 */
 
+#include "internals.h"
 #include "ctrlproxy.h"
 #include <string.h>
 
@@ -129,6 +130,19 @@ static void simple_replicate(struct irc_client *c)
 				   c->network->global->config->report_time_offset);
 }
 
+/**
+ * Forget the positions in the history of a network, since it has started anew.
+ */
+void replication_forget_network(struct irc_network *n)
+{
+	if (markers != NULL)
+		g_hash_table_remove(markers, n);
+	if (lastdisconnect_backlog != NULL)
+		g_hash_table_remove(lastdisconnect_backlog, n);
+	if (simple_backlog != NULL)
+		g_hash_table_remove(simple_backlog, n);
+}
+
 static const struct replication_backend backends[] = {
 	{ "none", none_replicate },
 	{ "highlight", highlight_replicate },
-- 
2.43.0


From 86e0a192367134c0b3f55ce17c9ef89e49dccaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:12 +0000
Subject: [PATCH 079/147] fix: backlog: a client is sent the state at the start
 of the lines it gets, and its own hostmask

---
 src/admin.c         |  9 ++----
 src/client.c        | 73 +++++++++++++++++++++++++++++++++++++++++++++
 src/internals.h     |  4 +++
 src/repl_backends.c | 46 ++++++++++++++--------------
 4 files changed, 102 insertions(+), 30 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index bd7d07a..57a39b3 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -632,9 +632,7 @@ static void cmd_backlog(admin_handle h, const char * const *args, void *userdata
 	if (!args[1] || strlen(args[1]) == 0) {
 		admin_out(h, "Sending backlog for network '%s'", n->name);
 
-		if (!linestack_send(n->linestack, lm, NULL, admin_get_client(h),
-					   TRUE, n->global->config->report_time != REPORT_TIME_NEVER,
-					   n->global->config->report_time_offset)) {
+		if (!client_send_history(admin_get_client(h), NULL, lm, TRUE)) {
 			admin_out(h, "Some errors sending backlog.");
 		}
 
@@ -646,10 +644,7 @@ static void cmd_backlog(admin_handle h, const char * const *args, void *userdata
 	/* Backlog for specific nick/channel */
 	admin_out(h, "Sending backlog for channel %s", args[1]);
 
-	if (!linestack_send_object(n->linestack, args[1], lm, NULL,
-						  admin_get_client(h), TRUE,
-						  n->global->config->report_time != REPORT_TIME_NEVER,
-						  n->global->config->report_time_offset)) {
+	if (!client_send_history(admin_get_client(h), args[1], lm, TRUE)) {
 		admin_out(h, "Some errors sending backlog.");
 		return;
 	}
diff --git a/src/client.c b/src/client.c
index 5911abf..9e37b26 100644
--- a/src/client.c
+++ b/src/client.c
@@ -495,6 +495,79 @@ static gboolean client_forward_from_server(struct irc_client *c, const struct ir
 	return ret;
 }
 
+/**
+ * Send a line that was received earlier to a client, so that it sees its
+ * own hostmask only.
+ */
+gboolean client_send_history_line(struct irc_client *c, const struct irc_line *l)
+{
+	struct irc_line *nl = NULL;
+	gboolean ret;
+
+	if (c->network->external_state != NULL) {
+		struct network_nick old = c->network->external_state->me;
+
+		/* The nick the user had at the time */
+		old.nick = c->state->me.nick;
+		nl = irc_line_replace_hostmask(l, c->network->info, &old,
+									   &c->state->me);
+	}
+
+	ret = client_send_line(c, nl != NULL?nl:l, NULL);
+	free_line(nl);
+	return ret;
+}
+
+struct history_data {
+	struct irc_client *client;
+	gboolean dataonly;
+};
+
+static gboolean send_history_line(struct irc_line *l, time_t t, void *userdata)
+{
+	struct history_data *data = userdata;
+	const struct ctrlproxy_config *config = data->client->network->global->config;
+	gboolean is_message;
+
+	if (l == NULL || l->argc == 0)
+		return TRUE;
+
+	is_message = l->argc > 2 &&
+		(!base_strcmp(l->args[0], "PRIVMSG") || !base_strcmp(l->args[0], "NOTICE"));
+
+	if (data->dataonly && !is_message)
+		return TRUE;
+
+	if (is_message && config->report_time != REPORT_TIME_NEVER)
+		line_prefix_time(l, t+config->report_time_offset);
+
+	return client_send_history_line(data->client, l);
+}
+
+/**
+ * Send what was received earlier to a client.
+ *
+ * @param c Client to send to
+ * @param object Nick or channel to send the lines of, or NULL for all
+ * @param from Where to start, or NULL for the beginning
+ * @param dataonly Whether to send messages only
+ */
+gboolean client_send_history(struct irc_client *c, const char *object,
+							 linestack_marker from, gboolean dataonly)
+{
+	struct history_data data;
+
+	data.client = c;
+	data.dataonly = dataonly;
+
+	if (object != NULL)
+		return linestack_traverse_object(c->network->linestack, object, from,
+										 NULL, send_history_line, &data);
+	else
+		return linestack_traverse(c->network->linestack, from, NULL,
+								  send_history_line, &data);
+}
+
 /**
  * Send a line to a list of clients.
  *
diff --git a/src/internals.h b/src/internals.h
index 91a33be..5209d44 100644
--- a/src/internals.h
+++ b/src/internals.h
@@ -108,6 +108,10 @@ G_GNUC_WARN_UNUSED_RESULT G_MODULE_EXPORT struct irc_line *irc_line_replace_host
 										   const struct network_nick *,
 										   const struct network_nick *);
 
+gboolean client_send_history_line(struct irc_client *c, const struct irc_line *l);
+gboolean client_send_history(struct irc_client *c, const char *object,
+							 linestack_marker from,
+							 gboolean dataonly);
 G_MODULE_EXPORT void clients_send(GList *clients, const struct irc_line *, const struct irc_client *exception);
 G_MODULE_EXPORT void clients_send_args_ex(GList *clients, const char *hostmask, ...);
 
diff --git a/src/repl_backends.c b/src/repl_backends.c
index 12eb293..58fe4a5 100644
--- a/src/repl_backends.c
+++ b/src/repl_backends.c
@@ -38,7 +38,7 @@ static gboolean check_highlight(struct irc_line *l, time_t t, void *userdata)
 
 	for (i = 0; matches && matches[i]; i++) {
 		if (strstr(l->args[2], matches[i]) != NULL) {
-			return client_send_line(c, l, NULL);
+			return client_send_history_line(c, l);
 		}
 	}
 
@@ -77,23 +77,35 @@ static void lastdisconnect_mark(struct irc_client *c, void *userdata)
 							 linestack_get_marker(c->network->linestack));
 }
 
-static void lastdisconnect_replicate(struct irc_client *c)
+/* Send the state there was at a position, and what happened since */
+static void replicate_from(struct irc_client *c, linestack_marker lm)
 {
-	linestack_marker lm = g_hash_table_lookup(lastdisconnect_backlog, c->network);
 	struct irc_network_state *ns;
+	guint64 start = 0;
 
-	if (c->network->linestack == NULL)
-		return;
+	if (lm == NULL)
+		lm = &start;
 
 	ns = linestack_get_state(c->network->linestack, lm);
-	if (ns != NULL) {
-		client_send_state(c, ns);
+	if (ns == NULL) {
+		/* At least the current state, then */
+		none_replicate(c);
+		return;
 	}
+
+	client_send_state(c, ns);
 	free_network_state(ns);
 
-	linestack_send(c->network->linestack, lm, NULL, c, FALSE,
-				   c->network->global->config->report_time != REPORT_TIME_NEVER,
-				   c->network->global->config->report_time_offset);
+	if (!client_send_history(c, NULL, lm, FALSE))
+		client_log(LOG_WARNING, c, "Some errors sending backlog.");
+}
+
+static void lastdisconnect_replicate(struct irc_client *c)
+{
+	if (c->network->linestack == NULL)
+		return;
+
+	replicate_from(c, g_hash_table_lookup(lastdisconnect_backlog, c->network));
 }
 
 static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum data_direction dir, void *userdata)
@@ -112,22 +124,10 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 
 static void simple_replicate(struct irc_client *c)
 {
-	linestack_marker m;
-	struct irc_network_state *ns;
-
 	if (c->network->linestack == NULL)
 		return;
 
-	m = g_hash_table_lookup(simple_backlog, c->network);
-	ns = linestack_get_state(c->network->linestack, m);
-	if (ns) {
-		client_send_state(c, ns);
-	}
-	free_network_state(ns);
-
-	linestack_send(c->network->linestack, m, NULL, c, FALSE,
-				   c->network->global->config->report_time != REPORT_TIME_NEVER,
-				   c->network->global->config->report_time_offset);
+	replicate_from(c, g_hash_table_lookup(simple_backlog, c->network));
 }
 
 /**
-- 
2.43.0


From ce169437964e977fe3cfacbbceae4025268cc0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:33 +0000
Subject: [PATCH 080/147] fix: backlog: highlighted messages show their time as
 well

---
 src/client.c        | 27 +++++++++++++++------------
 src/internals.h     |  3 ++-
 src/repl_backends.c |  2 +-
 3 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/client.c b/src/client.c
index 9e37b26..f910f88 100644
--- a/src/client.c
+++ b/src/client.c
@@ -495,15 +495,26 @@ static gboolean client_forward_from_server(struct irc_client *c, const struct ir
 	return ret;
 }
 
+static gboolean is_message(const struct irc_line *l)
+{
+	return l->argc > 2 &&
+		(!base_strcmp(l->args[0], "PRIVMSG") || !base_strcmp(l->args[0], "NOTICE"));
+}
+
 /**
  * Send a line that was received earlier to a client, so that it sees its
- * own hostmask only.
+ * own hostmask only, and when it was received if that is configured.
  */
-gboolean client_send_history_line(struct irc_client *c, const struct irc_line *l)
+gboolean client_send_history_line(struct irc_client *c, struct irc_line *l,
+								  time_t t)
 {
+	const struct ctrlproxy_config *config = c->network->global->config;
 	struct irc_line *nl = NULL;
 	gboolean ret;
 
+	if (config->report_time != REPORT_TIME_NEVER && is_message(l))
+		line_prefix_time(l, t+config->report_time_offset);
+
 	if (c->network->external_state != NULL) {
 		struct network_nick old = c->network->external_state->me;
 
@@ -526,22 +537,14 @@ struct history_data {
 static gboolean send_history_line(struct irc_line *l, time_t t, void *userdata)
 {
 	struct history_data *data = userdata;
-	const struct ctrlproxy_config *config = data->client->network->global->config;
-	gboolean is_message;
 
 	if (l == NULL || l->argc == 0)
 		return TRUE;
 
-	is_message = l->argc > 2 &&
-		(!base_strcmp(l->args[0], "PRIVMSG") || !base_strcmp(l->args[0], "NOTICE"));
-
-	if (data->dataonly && !is_message)
+	if (data->dataonly && !is_message(l))
 		return TRUE;
 
-	if (is_message && config->report_time != REPORT_TIME_NEVER)
-		line_prefix_time(l, t+config->report_time_offset);
-
-	return client_send_history_line(data->client, l);
+	return client_send_history_line(data->client, l, t);
 }
 
 /**
diff --git a/src/internals.h b/src/internals.h
index 5209d44..4a2316d 100644
--- a/src/internals.h
+++ b/src/internals.h
@@ -108,7 +108,8 @@ G_GNUC_WARN_UNUSED_RESULT G_MODULE_EXPORT struct irc_line *irc_line_replace_host
 										   const struct network_nick *,
 										   const struct network_nick *);
 
-gboolean client_send_history_line(struct irc_client *c, const struct irc_line *l);
+gboolean client_send_history_line(struct irc_client *c, struct irc_line *l,
+								  time_t t);
 gboolean client_send_history(struct irc_client *c, const char *object,
 							 linestack_marker from,
 							 gboolean dataonly);
diff --git a/src/repl_backends.c b/src/repl_backends.c
index 58fe4a5..3385627 100644
--- a/src/repl_backends.c
+++ b/src/repl_backends.c
@@ -38,7 +38,7 @@ static gboolean check_highlight(struct irc_line *l, time_t t, void *userdata)
 
 	for (i = 0; matches && matches[i]; i++) {
 		if (strstr(l->args[2], matches[i]) != NULL) {
-			return client_send_history_line(c, l);
+			return client_send_history_line(c, l, t);
 		}
 	}
 
-- 
2.43.0


From dbff3dcf3f65acfd872269c3700bec57a74f1f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:34 +0000
Subject: [PATCH 081/147] fix: backlog: a CTCP reply of the proxy is not a
 message said by the user

---
 src/repl_backends.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/repl_backends.c b/src/repl_backends.c
index 3385627..6f0eff6 100644
--- a/src/repl_backends.c
+++ b/src/repl_backends.c
@@ -115,6 +115,10 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 	if (base_strcmp(l->args[0], "PRIVMSG") &&
 		base_strcmp(l->args[0], "NOTICE")) return TRUE;
 
+	/* CTCP is not something the user said, the proxy may have replied */
+	if (l->argc > 2 && l->args[2][0] == '\001' &&
+		base_strncmp(l->args[2], "\001ACTION", 7) != 0) return TRUE;
+
 	if (n->linestack != NULL)
 		g_hash_table_replace(simple_backlog, irc_network_ref(n),
 							 linestack_get_marker(n->linestack));
-- 
2.43.0


From 64db6e408a73150a06e51e82f78dde19f50e9b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:12 +0000
Subject: [PATCH 082/147] fix: socks: a method that can not be used is not a
 failed authentication

---
 libirc/listener.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/libirc/listener.c b/libirc/listener.c
index 372b04b..63faadb 100644
--- a/libirc/listener.c
+++ b/libirc/listener.c
@@ -672,7 +672,6 @@ static gboolean gssapi_acceptable (struct pending_client *pc)
 	if (GSS_ERROR(major_status)) {
 		log_gssapi(l, LOG_ERROR, "importing principal name",
 				   major_status, minor_status);
-		gssapi_fail(pc);
 		return FALSE;
 	}
 
@@ -683,8 +682,6 @@ static gboolean gssapi_acceptable (struct pending_client *pc)
 	if (GSS_ERROR(major_status)) {
 		log_gssapi(l, LOG_ERROR, "acquiring service credentials",
 				   major_status, minor_status);
-		gssapi_fail(pc);
-
 		return FALSE;
 	}
 
-- 
2.43.0


From d378f2640410b4396a23a4dc135974fc987c00e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:45 +0000
Subject: [PATCH 083/147] fix: lines that arrived together with the password
 are not lost

---
 libirc/transport_ioc.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 35faf5c..b8c1e71 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -226,9 +226,8 @@ static void irc_transport_iochannel_activate(struct irc_transport *transport)
 							backend_data->incoming, G_IO_IN | G_IO_HUP,
 							handle_transport_receive, transport);
 
-	handle_transport_receive(backend_data->incoming,
-			  g_io_channel_get_buffer_condition(backend_data->incoming) & G_IO_IN,
-			  transport);
+	/* What has been read already is handled by the main loop as well, since
+	 * whoever is activating this is not ready for lines yet. */
 }
 
 
-- 
2.43.0


From 886da9b528cc261db4d3328c17e5c18f4c6ee902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:06 +0000
Subject: [PATCH 084/147] fix: transport: do not use a freed error when sending
 queued lines fails

---
 libirc/transport_ioc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index b8c1e71..7b5aed0 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -378,7 +378,7 @@ static gboolean transport_send_queue(GIOChannel *ioc, GIOCondition cond,
 			return TRUE;
 		case G_IO_STATUS_ERROR:
 			transport->callbacks->log(transport, l, error);
-			g_error_free(error);
+			g_clear_error(&error);
 			break;
 		case G_IO_STATUS_EOF:
 			backend_data->outgoing_id = 0;
@@ -404,7 +404,7 @@ static gboolean transport_send_queue(GIOChannel *ioc, GIOCondition cond,
 			break;
 		case G_IO_STATUS_ERROR:
 			transport->callbacks->log(transport, l, error);
-			g_error_free(error);
+			g_clear_error(&error);
 			break;
 		}
 		free_line(l);
-- 
2.43.0


From 7a5eef0c60fe6997c2f493735b9d8b0c2b852bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:21 +0000
Subject: [PATCH 085/147] fix: long lines are not cut off when the other side
 is slow

---
 libirc/line.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libirc/line.c b/libirc/line.c
index 13c491b..e6446a3 100644
--- a/libirc/line.c
+++ b/libirc/line.c
@@ -170,6 +170,12 @@ GIOStatus irc_send_line(GIOChannel *c, GIConv iconv,
 	} else {
 		cvrt = raw;
 	}
+
+	/* The line has to fit into the buffer as a whole: no more than that is
+	 * accepted from a line while the other side is not reading. */
+	if (g_io_channel_get_buffer_size(c) < strlen(cvrt) + 16)
+		g_io_channel_set_buffer_size(c, strlen(cvrt) + 16);
+
 	ret = g_io_channel_write_chars(c, cvrt, -1, &bytes_written, error);
 	g_free(cvrt);
 
-- 
2.43.0


From ff7af0e2a92ed582d6fcd35025ba089646c02ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:29 +0000
Subject: [PATCH 086/147] fix: a line that can not be converted does not garble
 the next one

---
 libirc/line.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libirc/line.c b/libirc/line.c
index e6446a3..15629d4 100644
--- a/libirc/line.c
+++ b/libirc/line.c
@@ -165,8 +165,11 @@ GIOStatus irc_send_line(GIOChannel *c, GIConv iconv,
 	if (iconv != (GIConv)-1) {
 		cvrt = g_convert_with_iconv(raw, -1, iconv, NULL, NULL, error);
 		g_free(raw);
-		if (cvrt == NULL)
+		if (cvrt == NULL) {
+			/* The next line starts afresh */
+			g_iconv(iconv, NULL, NULL, NULL, NULL);
 			return G_IO_STATUS_ERROR;
+		}
 	} else {
 		cvrt = raw;
 	}
@@ -409,6 +412,8 @@ GIOStatus irc_recv_line(GIOChannel *c, GIConv iconv,
 	} else {
 		cvrt = g_convert_with_iconv(raw, -1, iconv, NULL, NULL, error);
 		if (cvrt == NULL) {
+			/* The next line starts afresh */
+			g_iconv(iconv, NULL, NULL, NULL, NULL);
 			cvrt = raw;
 			status = G_IO_STATUS_ERROR;
 		} else {
-- 
2.43.0


From a68f0b8235f895ff69605c6aa5cf0425ff0945ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:53 +0000
Subject: [PATCH 087/147] fix: a line that can not be written in the character
 set of a client is skipped, not the end of the session state

---
 libirc/transport_ioc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 7b5aed0..1ad741d 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -189,6 +189,12 @@ static gboolean irc_transport_iochannel_send_line(struct irc_transport *transpor
 		return FALSE;
 	case G_IO_STATUS_ERROR:
 		transport->callbacks->log(transport, l, *error);
+		if ((*error)->domain == G_CONVERT_ERROR) {
+			/* Only this line is lost, there is nothing wrong
+			 * with the connection. */
+			g_clear_error(error);
+			return TRUE;
+		}
 		if (error == &tmp)
 			g_error_free(tmp);
 		return FALSE;
-- 
2.43.0


From 08de5b12361b71d8b5904b678755102f96f9433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:14 +0000
Subject: [PATCH 088/147] fix: the full name sent to the server is known for
 the user himself

---
 libirc/connection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libirc/connection.c b/libirc/connection.c
index 6e8c37d..cd7c236 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -50,6 +50,7 @@ static void server_send_login (struct irc_network *s)
 
 	s->external_state = network_state_init(login_details->nick, login_details->username,
 								  get_my_hostname());
+	s->external_state->me.fullname = g_strdup(login_details->realname);
 	network_state_set_log_fn(s->external_state, state_log_helper, s);
 	if (s->callbacks->state_set)
 		s->callbacks->state_set(s);
@@ -808,6 +809,7 @@ static gboolean connect_virtual(struct irc_network *s)
 
 	s->external_state = network_state_init(details->nick, details->username,
 								  get_my_hostname());
+	s->external_state->me.fullname = g_strdup(details->realname);
 
 	free_login_details(details);
 	s->external_state->userdata = s;
-- 
2.43.0


From 92ff578bd6933525d52995a62103dd25b2d685cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:40 +0000
Subject: [PATCH 089/147] fix: nickserv: the password known for the network
 goes before the one for all networks

---
 src/nickserv.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/nickserv.c b/src/nickserv.c
index 5e09b11..f83a6d3 100644
--- a/src/nickserv.c
+++ b/src/nickserv.c
@@ -36,6 +36,7 @@
 const char *nickserv_find_nick(struct irc_network *n, const char *nick)
 {
 	GList *gl;
+	const char *any = NULL;
 	for (gl = n->global->nickserv_nicks; gl; gl = gl->next) {
 		struct keyfile_entry *e = gl->data;
 
@@ -44,14 +45,17 @@ const char *nickserv_find_nick(struct irc_network *n, const char *nick)
 		}
 
 		if (e->network == NULL) {
-			return e->pass;
+			if (any == NULL)
+				any = e->pass;
+			continue;
 		}
 		if (!strcasecmp(e->network, n->name)) {
 			return e->pass;
 		}
 	}
 
-	return NULL;
+	/* Not known for this network in particular */
+	return any;
 }
 
 const char *nickserv_nick(struct irc_network *n)
@@ -88,21 +92,22 @@ static void cache_nickserv_pass(struct irc_network *n, const char *newpass)
 {
 	struct keyfile_entry *e = NULL;
 	GList *gl;
+	const char *known;
 
 	if (!n->global->config->learn_nickserv) {
 		return;
 	}
 
+	known = nickserv_find_nick(n, n->external_state->me.nick);
+	if (known != NULL && !strcmp(known, newpass)) {
+		return;
+	}
+
 	for (gl = n->global->nickserv_nicks; gl; gl = gl->next) {
 		e = gl->data;
 
 		if (e->network && !strcasecmp(e->network, n->name) &&
-			!strcasecmp(e->nick, n->external_state->me.nick)) {
-			break;
-		}
-
-		if (!e->network && !irccmp(n->external_state->info, e->nick, n->external_state->me.nick) &&
-			!strcmp(e->pass, newpass)) {
+			!irccmp(n->info, e->nick, n->external_state->me.nick)) {
 			break;
 		}
 	}
-- 
2.43.0


From 3817f26f21259f547df1bf5413fd32fe27bf2486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:41 +0000
Subject: [PATCH 090/147] fix: nickserv: do not send the password when somebody
 else takes the nick that was tried

---
 src/nickserv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nickserv.c b/src/nickserv.c
index f83a6d3..e8c3e10 100644
--- a/src/nickserv.c
+++ b/src/nickserv.c
@@ -140,7 +140,8 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 
 	/* User has changed his/her nick. Check whether this nick needs to be identified */
 	if (dir == FROM_SERVER && l->argc > 1 && !irccmp(n->info, l->args[0], "NICK") &&
-	   nickattempt && !irccmp(n->info, nickattempt, l->args[1])) {
+	   nickattempt && !irccmp(n->info, nickattempt, l->args[1]) &&
+	   !irccmp(n->info, n->external_state->me.nick, l->args[1])) {
 		nickserv_identify_me(n, l->args[1]);
 	}
 
-- 
2.43.0


From 4dbe24b271b89be656ba0ca002f7b7b7bb9437f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:42 +0000
Subject: [PATCH 091/147] fix: nickserv: do not ghost forever when the nick
 stays in use

---
 src/nickserv.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/nickserv.c b/src/nickserv.c
index e8c3e10..9978ee0 100644
--- a/src/nickserv.c
+++ b/src/nickserv.c
@@ -130,10 +130,14 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 {
 	/* Last nick that was tried, by network name */
 	static GHashTable *nickattempts = NULL;
+	/* Networks on which the last attempt was made here, after ghosting */
+	static GHashTable *ghosted = NULL;
+	static gboolean retrying = FALSE;
 	const char *nickattempt;
 
 	if (nickattempts == NULL) {
 		nickattempts = g_hash_table_new_full(g_str_hash, g_str_equal, g_free, g_free);
+		ghosted = g_hash_table_new_full(g_str_hash, g_str_equal, g_free, NULL);
 	}
 
 	nickattempt = g_hash_table_lookup(nickattempts, n->name);
@@ -149,6 +153,8 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 	if (dir == TO_SERVER && l->argc > 1 && !irccmp(n->info, l->args[0], "NICK")) {
 		g_hash_table_replace(nickattempts, g_strdup(n->name), g_strdup(l->args[1]));
 		nickattempt = g_hash_table_lookup(nickattempts, n->name);
+		if (!retrying)
+			g_hash_table_remove(ghosted, n->name);
 	}
 
 	if (dir == TO_SERVER && l->argc > 2 &&
@@ -167,17 +173,21 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 	/* If we receive a nick-already-in-use message, ghost the current user */
 	if (dir == FROM_SERVER && atol(l->args[0]) == ERR_NICKNAMEINUSE) {
 		const char *pass = (nickattempt != NULL)?nickserv_find_nick(n, nickattempt):NULL;
-		if (pass) {
+		/* Once: the nick may still be in use after ghosting */
+		if (pass && g_hash_table_lookup(ghosted, n->name) == NULL) {
 			const char *nickserv_n = nickserv_nick(n);
 			char *raw;
 
+			g_hash_table_insert(ghosted, g_strdup(n->name), n);
 			network_log(LOG_INFO, n, "Ghosting current user using '%s'", nickattempt);
 
 			raw = g_strdup_printf("GHOST %s %s", nickattempt, pass);
 			network_send_args(n, "PRIVMSG", nickserv_n, raw, NULL);
 			g_free(raw);
 			raw = g_strdup(nickattempt);
+			retrying = TRUE;
 			network_send_args(n, "NICK", raw, NULL);
+			retrying = FALSE;
 			g_free(raw);
 		}
 	}
-- 
2.43.0


From 617b9a0a7c172c96ec00d70b788e31bd4fd0b4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:04 +0000
Subject: [PATCH 092/147] fix: nickserv: ghost the nick that is in use, not the
 one tried after it

---
 src/nickserv.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nickserv.c b/src/nickserv.c
index 9978ee0..4de2569 100644
--- a/src/nickserv.c
+++ b/src/nickserv.c
@@ -171,8 +171,9 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 	}
 
 	/* If we receive a nick-already-in-use message, ghost the current user */
-	if (dir == FROM_SERVER && atol(l->args[0]) == ERR_NICKNAMEINUSE) {
-		const char *pass = (nickattempt != NULL)?nickserv_find_nick(n, nickattempt):NULL;
+	if (dir == FROM_SERVER && atol(l->args[0]) == ERR_NICKNAMEINUSE && l->argc > 2 &&
+	    nickattempt != NULL && !irccmp(n->info, nickattempt, l->args[2])) {
+		const char *pass = nickserv_find_nick(n, nickattempt);
 		/* Once: the nick may still be in use after ghosting */
 		if (pass && g_hash_table_lookup(ghosted, n->name) == NULL) {
 			const char *nickserv_n = nickserv_nick(n);
-- 
2.43.0


From 369c6f28d82e1451e3fba51d67c542685f8c5cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:19 +0000
Subject: [PATCH 093/147] Revert "fix: nickserv: ghost the nick that is in use,
 not the one tried after it"

This reverts commit 617b9a0a7c172c96ec00d70b788e31bd4fd0b4d3.
---
 src/nickserv.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/nickserv.c b/src/nickserv.c
index 4de2569..9978ee0 100644
--- a/src/nickserv.c
+++ b/src/nickserv.c
@@ -171,9 +171,8 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 	}
 
 	/* If we receive a nick-already-in-use message, ghost the current user */
-	if (dir == FROM_SERVER && atol(l->args[0]) == ERR_NICKNAMEINUSE && l->argc > 2 &&
-	    nickattempt != NULL && !irccmp(n->info, nickattempt, l->args[2])) {
-		const char *pass = nickserv_find_nick(n, nickattempt);
+	if (dir == FROM_SERVER && atol(l->args[0]) == ERR_NICKNAMEINUSE) {
+		const char *pass = (nickattempt != NULL)?nickserv_find_nick(n, nickattempt):NULL;
 		/* Once: the nick may still be in use after ghosting */
 		if (pass && g_hash_table_lookup(ghosted, n->name) == NULL) {
 			const char *nickserv_n = nickserv_nick(n);
-- 
2.43.0


From 7e85ef3763eff9e529e069dc40e07cad5bfa91f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:19 +0000
Subject: [PATCH 094/147] Revert "fix: nickserv: do not ghost forever when the
 nick stays in use"

This reverts commit 4dbe24b271b89be656ba0ca002f7b7b7bb9437f4.
---
 src/nickserv.c | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/nickserv.c b/src/nickserv.c
index 9978ee0..e8c3e10 100644
--- a/src/nickserv.c
+++ b/src/nickserv.c
@@ -130,14 +130,10 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 {
 	/* Last nick that was tried, by network name */
 	static GHashTable *nickattempts = NULL;
-	/* Networks on which the last attempt was made here, after ghosting */
-	static GHashTable *ghosted = NULL;
-	static gboolean retrying = FALSE;
 	const char *nickattempt;
 
 	if (nickattempts == NULL) {
 		nickattempts = g_hash_table_new_full(g_str_hash, g_str_equal, g_free, g_free);
-		ghosted = g_hash_table_new_full(g_str_hash, g_str_equal, g_free, NULL);
 	}
 
 	nickattempt = g_hash_table_lookup(nickattempts, n->name);
@@ -153,8 +149,6 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 	if (dir == TO_SERVER && l->argc > 1 && !irccmp(n->info, l->args[0], "NICK")) {
 		g_hash_table_replace(nickattempts, g_strdup(n->name), g_strdup(l->args[1]));
 		nickattempt = g_hash_table_lookup(nickattempts, n->name);
-		if (!retrying)
-			g_hash_table_remove(ghosted, n->name);
 	}
 
 	if (dir == TO_SERVER && l->argc > 2 &&
@@ -173,21 +167,17 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 	/* If we receive a nick-already-in-use message, ghost the current user */
 	if (dir == FROM_SERVER && atol(l->args[0]) == ERR_NICKNAMEINUSE) {
 		const char *pass = (nickattempt != NULL)?nickserv_find_nick(n, nickattempt):NULL;
-		/* Once: the nick may still be in use after ghosting */
-		if (pass && g_hash_table_lookup(ghosted, n->name) == NULL) {
+		if (pass) {
 			const char *nickserv_n = nickserv_nick(n);
 			char *raw;
 
-			g_hash_table_insert(ghosted, g_strdup(n->name), n);
 			network_log(LOG_INFO, n, "Ghosting current user using '%s'", nickattempt);
 
 			raw = g_strdup_printf("GHOST %s %s", nickattempt, pass);
 			network_send_args(n, "PRIVMSG", nickserv_n, raw, NULL);
 			g_free(raw);
 			raw = g_strdup(nickattempt);
-			retrying = TRUE;
 			network_send_args(n, "NICK", raw, NULL);
-			retrying = FALSE;
 			g_free(raw);
 		}
 	}
-- 
2.43.0


From 10572933667121fb2a05a48f128eefd7d75c3843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:52 +0000
Subject: [PATCH 095/147] fix: configuration: values that are not UTF-8 or have
 a stray backslash are used as they are, not missing

---
 src/settings.c | 182 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 134 insertions(+), 48 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 86641bd..3d572bc 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -120,7 +120,93 @@ void config_register_known_key(char *name)
 	known_keys = g_list_insert_sorted(known_keys, g_strdup(name), (GCompareFunc)strcmp);
 }
 
+/**
+ * Copy of a setting that is not UTF-8, with each byte taken for a character
+ * so that it can be read.
+ */
+static GKeyFile *config_bytes_as_chars(GKeyFile *kf, const char *group, const char *key)
+{
+	char *raw = g_key_file_get_value(kf, group, key, NULL);
+	char *value;
+	GKeyFile *ret;
+
+	if (raw == NULL)
+		return NULL;
+
+	value = g_convert(raw, -1, "UTF-8", "ISO-8859-1", NULL, NULL, NULL);
+	g_free(raw);
+	if (value == NULL)
+		return NULL;
+
+	ret = g_key_file_new();
+	g_key_file_set_value(ret, group, key, value);
+	g_free(value);
+
+	return ret;
+}
+
+static char *config_chars_to_bytes(char *value)
+{
+	char *ret = g_convert(value, -1, "ISO-8859-1", "UTF-8", NULL, NULL, NULL);
+	g_free(value);
+	return ret;
+}
+
+/**
+ * Get a string from a key file. Unlike with GLib's function, it is not
+ * necessarily UTF-8, and a backslash that has no meaning is just that.
+ */
+static char *config_get_string(GKeyFile *kf, const char *group, const char *key)
+{
+	char *ret = g_key_file_get_string(kf, group, key, NULL);
+	GKeyFile *bytes;
+
+	if (ret != NULL)
+		return ret;
 
+	bytes = config_bytes_as_chars(kf, group, key);
+	if (bytes == NULL)
+		return NULL;
+
+	ret = g_key_file_get_string(bytes, group, key, NULL);
+	if (ret == NULL)
+		ret = g_key_file_get_value(bytes, group, key, NULL);
+	g_key_file_free(bytes);
+
+	return config_chars_to_bytes(ret);
+}
+
+/**
+ * Get a list of strings from a key file, with the same exceptions as
+ * config_get_string().
+ */
+static char **config_get_string_list(GKeyFile *kf, const char *group, const char *key, gsize *size)
+{
+	char **ret = g_key_file_get_string_list(kf, group, key, NULL, NULL);
+
+	if (ret == NULL) {
+		GKeyFile *bytes = config_bytes_as_chars(kf, group, key);
+
+		if (bytes != NULL) {
+			gsize i;
+
+			ret = g_key_file_get_string_list(bytes, group, key, NULL, NULL);
+			if (ret == NULL) {
+				char *value = g_key_file_get_value(bytes, group, key, NULL);
+				ret = g_strsplit(value, ";", 0);
+				g_free(value);
+			}
+			g_key_file_free(bytes);
+
+			for (i = 0; ret[i] != NULL; i++)
+				ret[i] = config_chars_to_bytes(ret[i]);
+		}
+	}
+
+	*size = (ret != NULL)?g_strv_length(ret):0;
+
+	return ret;
+}
 
 gboolean g_key_file_save_to_file(GKeyFile *kf, const gchar *file, GError **error)
 {
@@ -512,7 +598,7 @@ static void config_load_channel(struct network_config *n, GKeyFile *kf, const ch
 
 	ch->name = g_strdup(name);
 	if (g_key_file_has_key(kf, name, "key", NULL))
-		ch->key = g_key_file_get_string(kf, name, "key", NULL);
+		ch->key = config_get_string(kf, name, "key");
 
 	if (g_key_file_has_key(kf, name, "autojoin", NULL))
 		ch->autojoin = g_key_file_get_boolean(kf, name, "autojoin", NULL);
@@ -526,7 +612,7 @@ static void config_load_servers(struct network_config *n)
 	char **servers;
 	int i;
 
-	servers = g_key_file_get_string_list(n->keyfile, n->groupname, "servers", &size, NULL);
+	servers = config_get_string_list(n->keyfile, n->groupname, "servers", &size);
 
 	if (!servers) {
 		return;
@@ -540,11 +626,11 @@ static void config_load_servers(struct network_config *n)
 			continue;
 		}
 
-		s->password = g_key_file_get_string(n->keyfile, servers[i], "password", NULL);
+		s->password = config_get_string(n->keyfile, servers[i], "password");
 		if (g_key_file_has_key(n->keyfile, servers[i], "ssl", NULL))
 			s->ssl = g_key_file_get_boolean(n->keyfile, servers[i], "ssl", NULL);
 
-		s->bind_address = g_key_file_get_string(n->keyfile, servers[i], "bind", NULL);
+		s->bind_address = config_get_string(n->keyfile, servers[i], "bind");
 
 		n->type_settings.tcp.servers = g_list_append(n->type_settings.tcp.servers, s);
 
@@ -589,14 +675,14 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 
 	if (g_key_file_has_key(kf, groupname, "fullname", NULL)) {
 		g_free(n->fullname);
-		n->fullname = g_key_file_get_string(kf, groupname, "fullname", NULL);
+		n->fullname = config_get_string(kf, groupname, "fullname");
 		if (!strcmp(n->fullname, "") || n->fullname[0] == ' ')
 			log_global(LOG_WARNING, "Invalid fullname `%s' set for network `%s'", n->fullname, n->name);
 	}
 
 	if (g_key_file_has_key(kf, groupname, "nick", NULL)) {
 		g_free(n->nick);
-		n->nick = g_key_file_get_string(kf, groupname, "nick", NULL);
+		n->nick = config_get_string(kf, groupname, "nick");
 		if (!strcmp(n->nick, "") || n->nick[0] == ' ')
 			log_global(LOG_WARNING, "Invalid nick name `%s' set for `%s'", n->nick, n->name);
 	}
@@ -611,7 +697,7 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 
 	if (g_key_file_has_key(kf, groupname, "username", NULL)) {
 		g_free(n->username);
-		n->username = g_key_file_get_string(kf, groupname, "username", NULL);
+		n->username = config_get_string(kf, groupname, "username");
 		if (!strcmp(n->username, "") || n->username[0] == ' ')
 			log_global(LOG_WARNING, "Invalid username `%s' set for network `%s'", n->username, n->name);
 	}
@@ -622,12 +708,12 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 
 	if (g_key_file_has_key(kf, groupname, "password", NULL)) {
 		g_free(n->password);
-		n->password = g_key_file_get_string(kf, groupname, "password", NULL);
+		n->password = config_get_string(kf, groupname, "password");
 	}
 
 	if (g_key_file_has_key(kf, groupname, "autocmd", NULL)) {
 		g_strfreev(n->autocmd);
-		n->autocmd = g_key_file_get_string_list(n->keyfile, groupname, "autocmd", &size, NULL);
+		n->autocmd = config_get_string_list(n->keyfile, groupname, "autocmd", &size);
 	}
 
 	n->name = g_strdup(networkname);
@@ -641,14 +727,14 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 
 	switch (n->type) {
 	case NETWORK_TCP:
-		n->type_settings.tcp.default_bind_address = g_key_file_get_string(kf, groupname, "bind", NULL);
+		n->type_settings.tcp.default_bind_address = config_get_string(kf, groupname, "bind");
 		config_load_servers(n);
 		break;
 	case NETWORK_PROGRAM:
-		n->type_settings.program_location = g_key_file_get_string(kf, groupname, "program", NULL);
+		n->type_settings.program_location = config_get_string(kf, groupname, "program");
 		break;
 	case NETWORK_VIRTUAL:
-		n->type_settings.virtual_name = g_key_file_get_string(kf, groupname, "virtual", NULL);
+		n->type_settings.virtual_name = config_get_string(kf, groupname, "virtual");
 		break;
 	case NETWORK_IOCHANNEL:
 		/* Don't store */
@@ -669,7 +755,7 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 	if (g_key_file_has_key(n->keyfile, groupname, "autojoin", NULL)) {
 		char **autojoin_channels;
 		gsize i;
-		autojoin_channels = g_key_file_get_string_list(n->keyfile, groupname, "autojoin", &size, NULL);
+		autojoin_channels = config_get_string_list(n->keyfile, groupname, "autojoin", &size);
 		for (i = 0; i < size; i++) {
 			struct channel_config *cc = config_find_add_channel(n, autojoin_channels[i]);
 
@@ -785,7 +871,7 @@ static void config_load_listeners_socks(struct ctrlproxy_config *cfg)
 	GKeyFile *kf = cfg->keyfile;
 	struct listener_config *l;
 
-	allows = g_key_file_get_string_list(kf, "socks", "allow", &size, NULL);
+	allows = config_get_string_list(kf, "socks", "allow", &size);
 
 	if (allows == NULL) {
 		return;
@@ -796,7 +882,7 @@ static void config_load_listeners_socks(struct ctrlproxy_config *cfg)
 	l = g_new0(struct listener_config, 1);
 
 	if (g_key_file_has_key(kf, "socks", "port", NULL)) {
-		l->port = g_key_file_get_string(kf, "socks", "port", NULL);
+		l->port = config_get_string(kf, "socks", "port");
 	} else {
 		l->port = g_strdup_printf("%d", DEFAULT_SOCKS_PORT);
 	}
@@ -839,10 +925,10 @@ static void config_load_listeners(struct ctrlproxy_config *cfg)
 
 	if (g_key_file_has_key(cfg->keyfile, "listener", "password", NULL)) {
 		g_key_file_set_string(cfg->keyfile, "global", "password",
-							  g_key_file_get_string(cfg->keyfile, "listener", "password", NULL));
+							  config_get_string(cfg->keyfile, "listener", "password"));
 		g_key_file_remove_key(cfg->keyfile, "listener", "password", NULL);
 	}
-	cfg->password = g_key_file_get_string(cfg->keyfile, "global", "password", NULL);
+	cfg->password = config_get_string(cfg->keyfile, "global", "password");
 
 	if (g_key_file_has_key(cfg->keyfile, "global", "listener-auto", NULL)) {
 		cfg->auto_listener = g_key_file_get_boolean(cfg->keyfile, "global", "listener-auto", NULL);
@@ -860,9 +946,9 @@ static void config_load_listeners(struct ctrlproxy_config *cfg)
 
 	if (g_key_file_has_key(cfg->keyfile, "global", "port", NULL)) {
 		struct listener_config *l = g_new0(struct listener_config, 1);
-		l->port = g_key_file_get_string(cfg->keyfile, "global", "port", NULL);
-		l->password = g_key_file_get_string(cfg->keyfile, "global", "password", NULL);
-		l->address = g_key_file_get_string(cfg->keyfile, "global", "bind", NULL);
+		l->port = config_get_string(cfg->keyfile, "global", "port");
+		l->password = config_get_string(cfg->keyfile, "global", "password");
+		l->address = config_get_string(cfg->keyfile, "global", "bind");
 		l->ssl = g_key_file_has_key(cfg->keyfile, "global", "ssl", NULL) &&
 				 g_key_file_get_boolean(cfg->keyfile, "global", "ssl", NULL);
 
@@ -870,16 +956,16 @@ static void config_load_listeners(struct ctrlproxy_config *cfg)
 		if (l->ssl) {
 			l->ssl_credentials = ssl_create_server_credentials(cfg->config_dir, cfg->keyfile, "global");
 			if (g_key_file_has_key(cfg->keyfile, "global", "certfile", NULL)) {
-				l->certfile = g_key_file_get_string(cfg->keyfile, "global", "certfile", NULL);
+				l->certfile = config_get_string(cfg->keyfile, "global", "certfile");
 			}
 			if (g_key_file_has_key(cfg->keyfile, "global", "keyfile", NULL)) {
-				l->keyfile = g_key_file_get_string(cfg->keyfile, "global", "keyfile", NULL);
+				l->keyfile = config_get_string(cfg->keyfile, "global", "keyfile");
 			}
 		}
 #endif
 		l->is_default = TRUE;
 
-		l->network = g_key_file_get_string(cfg->keyfile, "global", "default-network", NULL);
+		l->network = config_get_string(cfg->keyfile, "global", "default-network");
 
 		cfg->listeners = g_list_append(cfg->listeners, l);
 	}
@@ -915,7 +1001,7 @@ static void config_load_listeners(struct ctrlproxy_config *cfg)
 			l->address = NULL;
 		}
 
-		l->password = g_key_file_get_string(kf, groups[i], "password", NULL);
+		l->password = config_get_string(kf, groups[i], "password");
 
 		if (g_key_file_has_key(kf, groups[i], "ssl", NULL))
 			l->ssl = g_key_file_get_boolean(kf, groups[i], "ssl", NULL);
@@ -924,16 +1010,16 @@ static void config_load_listeners(struct ctrlproxy_config *cfg)
 		if (l->ssl) {
 			l->ssl_credentials = ssl_create_server_credentials(cfg->config_dir, kf, groups[i]);
 			if (g_key_file_has_key(kf, groups[i], "certfile", NULL)) {
-				l->certfile = g_key_file_get_string(kf, groups[i], "certfile", NULL);
+				l->certfile = config_get_string(kf, groups[i], "certfile");
 			}
 			if (g_key_file_has_key(kf, groups[i], "keyfile", NULL)) {
-				l->keyfile = g_key_file_get_string(kf, groups[i], "keyfile", NULL);
+				l->keyfile = config_get_string(kf, groups[i], "keyfile");
 			}
 		}
 #endif
 
 		if (g_key_file_has_key(kf, groups[i], "network", NULL)) {
-			l->network = g_key_file_get_string(kf, groups[i], "network", NULL);
+			l->network = config_get_string(kf, groups[i], "network");
 		}
 
 		cfg->listeners = g_list_append(cfg->listeners, l);
@@ -1039,7 +1125,7 @@ static void config_load_networks(struct ctrlproxy_config *cfg, GList *channel_ke
 	g_strfreev(groups);
 }
 
-#define FETCH_SETTING(data, kf, section, prefix, name) (data)->name = g_key_file_get_string((kf), (section), prefix #name, NULL)
+#define FETCH_SETTING(data, kf, section, prefix, name) (data)->name = config_get_string((kf), (section), prefix #name)
 #define STORE_SETTING(data, kf, section, prefix, name) g_key_file_set_string((kf), (section), prefix #name, (data)->name)
 
 static void config_save_log(struct log_file_config *data,
@@ -1082,7 +1168,7 @@ static void config_load_log(struct ctrlproxy_config *config)
 	char *logging = NULL;
 
 	if (g_key_file_has_key(kf, "global", "logging", NULL)) {
-		logging = g_key_file_get_string(kf, "global", "logging", NULL);
+		logging = config_get_string(kf, "global", "logging");
 	}
 
 	if (g_key_file_has_group(kf, "log-custom")) {
@@ -1144,12 +1230,12 @@ static void config_load_log(struct ctrlproxy_config *config)
 		data->nickchange = "%h:%M -!- %n is now known as %r";
 
 		if (g_key_file_has_key(kf, "global", "logfile", NULL)) {
-			data->logfilename= g_key_file_get_string(kf, "global", "logfile", NULL);
+			data->logfilename= config_get_string(kf, "global", "logfile");
 		} else if (g_key_file_has_key(kf, "global", "logdir", NULL)) {
-			data->logbasedir = g_key_file_get_string(kf, "global", "logdir", NULL);
+			data->logbasedir = config_get_string(kf, "global", "logdir");
 			data->logfilename = g_strdup_printf("%s/%%N/%%@", data->logbasedir);
 		} else if (g_key_file_has_key(kf, "log-irssi", "logfile", NULL)) {
-			data->logbasedir = g_key_file_get_string(kf, "log-irssi", "logfile", NULL);
+			data->logbasedir = config_get_string(kf, "log-irssi", "logfile");
 			data->logfilename = g_strdup_printf("%s/%%N/%%@", data->logbasedir);
 		} else {
 			data->logbasedir = g_build_filename(config->config_dir,
@@ -1205,8 +1291,8 @@ static void config_load_auto_away(struct auto_away_config *d, GKeyFile *kf)
 {
 	if (g_key_file_has_group(kf, "auto-away")) {
 		d->enabled = TRUE;
-		d->message = g_key_file_get_string(kf, "auto-away", "message", NULL);
-		d->nick = g_key_file_get_string(kf, "auto-away", "nick", NULL);
+		d->message = config_get_string(kf, "auto-away", "message");
+		d->nick = config_get_string(kf, "auto-away", "nick");
 		if (g_key_file_has_key(kf, "auto-away", "client_limit", NULL)) {
 			d->client_limit = g_key_file_get_integer(kf, "auto-away", "client_limit", NULL);
 			if (g_key_file_has_key(kf, "auto-away", "only_noclient", NULL))
@@ -1227,8 +1313,8 @@ static void config_load_auto_away(struct auto_away_config *d, GKeyFile *kf)
 	} else {
 		if (g_key_file_has_key(kf, "global", "auto-away-enable", NULL))
 			d->enabled = g_key_file_get_boolean(kf, "global", "auto-away-enable", NULL);
-		d->message = g_key_file_get_string(kf, "global", "auto-away-message", NULL);
-		d->nick = g_key_file_get_string(kf, "global", "auto-away-nick", NULL);
+		d->message = config_get_string(kf, "global", "auto-away-message");
+		d->nick = config_get_string(kf, "global", "auto-away-nick");
 		if (g_key_file_has_key(kf, "global", "auto-away-client-limit", NULL)) {
 			d->client_limit = g_key_file_get_integer(kf, "global", "auto-away-client-limit", NULL);
 		} else
@@ -1290,7 +1376,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 
 	if (g_key_file_has_key(kf, "global", "keytab", NULL)) {
 		char *keytab;
-		keytab = g_key_file_get_string(kf, "global", "keytab", NULL);
+		keytab = config_get_string(kf, "global", "keytab");
 #ifdef HAVE_GSSKRB5_REGISTER_ACCEPTOR_IDENTITY
 		gsskrb5_register_acceptor_identity(keytab);
 #endif
@@ -1304,10 +1390,10 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 	}
 
 
-	cfg->replication = g_key_file_get_string(kf, "global", "replication", NULL);
+	cfg->replication = config_get_string(kf, "global", "replication");
 
 	if (g_key_file_has_key(kf, "global", "report-time", NULL)) {
-		char *setting = g_key_file_get_string(kf, "global", "report-time", NULL);
+		char *setting = config_get_string(kf, "global", "report-time");
 		if (!strcasecmp(setting, "never") || !strcasecmp(setting, "false")) {
 			cfg->report_time = REPORT_TIME_NEVER;
 		} else if (!strcasecmp(setting, "always")) {
@@ -1327,7 +1413,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 	}
 
 	if (g_key_file_has_key(kf, "global", "motd-file", NULL)) {
-		cfg->motd_file = g_key_file_get_string(kf, "global", "motd-file", NULL);
+		cfg->motd_file = config_get_string(kf, "global", "motd-file");
 	} else if (from_source) {
 		cfg->motd_file = g_strdup("motd");
 	} else {
@@ -1335,13 +1421,13 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 	}
 
 	if (g_key_file_has_key(kf, "client", "charset", NULL)) {
-		cfg->client_charset = g_key_file_get_string(kf, "client", "charset", NULL);
+		cfg->client_charset = config_get_string(kf, "client", "charset");
 		g_key_file_remove_key(cfg->keyfile, "client", "charset", NULL); /* deprecated */
 	} else if (g_key_file_has_key(kf, "global", "client-charset", NULL)) {
-		cfg->client_charset = g_key_file_get_string(kf, "global", "client-charset", NULL);
+		cfg->client_charset = config_get_string(kf, "global", "client-charset");
 		g_key_file_remove_key(cfg->keyfile, "global", "client-charset", NULL); /* deprecated */
 	} else if (g_key_file_has_key(kf, "global", "default-client-charset", NULL)) {
-		cfg->client_charset = g_key_file_get_string(kf, "global", "default-client-charset", NULL);
+		cfg->client_charset = config_get_string(kf, "global", "default-client-charset");
 	} else {
 		cfg->client_charset = NULL;
 	}
@@ -1366,7 +1452,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 
 	if (g_key_file_has_key(kf, "global", "default-username", NULL)) {
 		g_free(cfg->default_username);
-		cfg->default_username = g_key_file_get_string(kf, "global", "default-username", NULL);
+		cfg->default_username = config_get_string(kf, "global", "default-username");
 		if (!strcmp(cfg->default_username, "") || cfg->default_username[0] == ' ') {
 			log_global(LOG_WARNING, "Invalid default username `%s' set", cfg->default_username);
 		}
@@ -1374,7 +1460,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 
 	if (g_key_file_has_key(kf, "global", "default-fullname", NULL)) {
 		g_free(cfg->default_realname);
-		cfg->default_realname = g_key_file_get_string(kf, "global", "default-fullname", NULL);
+		cfg->default_realname = config_get_string(kf, "global", "default-fullname");
 		if (!strcmp(cfg->default_realname, "") || cfg->default_realname[0] == ' ') {
 			log_global(LOG_WARNING, "Invalid default fullname `%s' set", cfg->default_realname);
 		}
@@ -1382,7 +1468,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 
 	if (g_key_file_has_key(kf, "global", "default-nick", NULL)) {
 		g_free(cfg->default_nick);
-		cfg->default_nick = g_key_file_get_string(kf, "global", "default-nick", NULL);
+		cfg->default_nick = config_get_string(kf, "global", "default-nick");
 		if (!strcmp(cfg->default_nick, "") || cfg->default_nick[0] == ' ') {
 			log_global(LOG_WARNING, "Invalid nick name `%s' set", cfg->default_nick);
 		}
@@ -1402,7 +1488,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 	}
 
 	if (g_key_file_has_key(kf, "global", "admin-user", NULL)) {
-		cfg->admin_user = g_key_file_get_string(kf, "global", "admin-user", NULL);
+		cfg->admin_user = config_get_string(kf, "global", "admin-user");
 	}
 
 	cfg->admin_log = TRUE;
@@ -1448,7 +1534,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 	g_strfreev(keys);
 
 	size = 0;
-	autoconnect_list = g_key_file_get_string_list(kf, "global", "autoconnect", &size, NULL);
+	autoconnect_list = config_get_string_list(kf, "global", "autoconnect", &size);
 
 	for (i = 0; i < size; i++) {
 		struct network_config *nc = find_create_network_config(cfg, autoconnect_list[i]);
-- 
2.43.0


From 035bff6efbdf4371fc7aca453a5337bae6189e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:30 +0000
Subject: [PATCH 096/147] fix: configuration: a save that fails, for example on
 a full disk, does not lose what was saved before

---
 src/keyfile.c  | 61 +++++++++++++++++++++++++++++---------------------
 src/keyfile.h  |  1 +
 src/settings.c | 34 +++++++++++++---------------
 3 files changed, 52 insertions(+), 44 deletions(-)

diff --git a/src/keyfile.c b/src/keyfile.c
index 1076874..52a41cc 100644
--- a/src/keyfile.c
+++ b/src/keyfile.c
@@ -23,6 +23,8 @@
 #include <fcntl.h>
 #include <errno.h>
 #include <stdio.h>
+#include <stdlib.h>
+#include <limits.h>
 #include <glib/gstdio.h>
 #include <stdio.h>
 #include <unistd.h>
@@ -88,41 +90,48 @@ gboolean keyfile_read_file(const char *filename, char commentchar, GList **nicks
 	return TRUE;
 }
 
-gboolean keyfile_write_file(GList *nicks, const char *header,
-							const char *filename)
+/**
+ * Replace a file that may contain passwords. Either all of the new contents
+ * are there afterwards or, if there was an error, the old ones.
+ */
+gboolean replace_file(const char *filename, const char *data, gsize length, GError **error)
 {
-	GList *gl;
-	int fd;
+	char target[PATH_MAX];
+	mode_t old_mask = umask(077);
+	gboolean ret;
 
-	fd = open(filename, O_WRONLY | O_CREAT | O_TRUNC, 0600);
+	/* Not the link, but what it points at */
+	if (realpath(filename, target) != NULL)
+		filename = target;
 
-	if (fd == -1) {
-		log_global(LOG_WARNING, "Unable to write nickserv file `%s': %s", filename, strerror(errno));
-		return FALSE;
-	}
+	ret = g_file_set_contents(filename, data, length, error);
 
-	if (write(fd, header, strlen(header)) < 0) {
-		log_global(LOG_WARNING, "error writing file header: %s", strerror(errno));
-		close(fd);
-		return FALSE;
-	}
+	umask(old_mask);
+
+	return ret;
+}
+
+gboolean keyfile_write_file(GList *nicks, const char *header,
+							const char *filename)
+{
+	GList *gl;
+	GString *data = g_string_new(header);
+	GError *error = NULL;
+	gboolean ret;
 
 	for (gl = nicks; gl; gl = gl->next) {
 		struct keyfile_entry *n = gl->data;
-		char *line;
-
-		line = g_strdup_printf("%s\t%s\t%s\n", n->nick, n->pass, n->network?n->network:"*");
-		if (write(fd, line, strlen(line)) < 0) {
-			log_global(LOG_WARNING, "error writing line `%s': %s", line, strerror(errno));
-			g_free(line);
-			close(fd);
-			return FALSE;
-		}
 
-		g_free(line);
+		g_string_append_printf(data, "%s\t%s\t%s\n", n->nick, n->pass, n->network?n->network:"*");
+	}
+
+	ret = replace_file(filename, data->str, data->len, &error);
+	if (!ret) {
+		log_global(LOG_WARNING, "Unable to write key file `%s': %s", filename, error->message);
+		g_error_free(error);
 	}
 
-	close(fd);
+	g_string_free(data, TRUE);
 
-	return TRUE;
+	return ret;
 }
diff --git a/src/keyfile.h b/src/keyfile.h
index b7c3642..82de68c 100644
--- a/src/keyfile.h
+++ b/src/keyfile.h
@@ -35,6 +35,7 @@ struct keyfile_entry {
 };
 
 gboolean keyfile_read_file(const char *filename, char commentchar, GList **nicks);
+gboolean replace_file(const char *filename, const char *data, gsize length, GError **error);
 gboolean keyfile_write_file(GList *entries, const char *header,
 							const char *filename);
 
diff --git a/src/settings.c b/src/settings.c
index 3d572bc..a6131f9 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -210,26 +210,28 @@ static char **config_get_string_list(GKeyFile *kf, const char *group, const char
 
 gboolean g_key_file_save_to_file(GKeyFile *kf, const gchar *file, GError **error)
 {
-	gsize length, nr;
+	gsize length;
 	char *data = g_key_file_to_data(kf, &length, error);
-	GIOChannel *gio;
+	gboolean ret;
 
 	if (!data)
 		return FALSE;
 
-	gio = g_io_channel_new_file(file, "w+", error);
-	if (!gio) {
-		g_free(data);
-		return FALSE;
-	}
-
-	g_io_channel_write_chars(gio, data, length, &nr, error);
+	ret = replace_file(file, data, length, error);
 
 	g_free(data);
 
-	g_io_channel_unref(gio);
+	return ret;
+}
 
-	return TRUE;
+static void config_save_file(GKeyFile *kf, const char *filename)
+{
+	GError *error = NULL;
+
+	if (!g_key_file_save_to_file(kf, filename, &error)) {
+		log_global(LOG_WARNING, "Unable to save to \"%s\": %s", filename, error->message);
+		g_error_free(error);
+	}
 }
 
 static void config_save_tcp_servers(struct network_config *n, GKeyFile *kf, const char *groupname)
@@ -352,7 +354,7 @@ static void config_save_network(struct ctrlproxy_config *cfg,
 	g_free(autojoin_list);
 
 	if (n->filename != NULL) {
-		g_key_file_save_to_file(kf, n->filename, NULL);
+		config_save_file(kf, n->filename);
 	}
 }
 
@@ -361,7 +363,6 @@ static void config_save_listeners(struct ctrlproxy_config *cfg, const char *path
 	GList *gl;
 	char *filename;
 	GKeyFile *kf;
-	GError *error = NULL;
 	gboolean empty = TRUE;
 
 	if (cfg->password != NULL)
@@ -427,10 +428,7 @@ static void config_save_listeners(struct ctrlproxy_config *cfg, const char *path
 	if (empty) {
 		unlink(filename);
 	} else {
-		if (!g_key_file_save_to_file(kf, filename, &error)) {
-			log_global(LOG_WARNING, "Unable to save to \"%s\": %s", filename, error->message);
-			g_error_free(error);
-		}
+		config_save_file(kf, filename);
 	}
 
 	g_free(filename);
@@ -588,7 +586,7 @@ void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_
 	g_free(list);
 
 	fn = g_build_filename(configuration_dir, "config", NULL);
-	g_key_file_save_to_file(cfg->keyfile, fn, NULL);
+	config_save_file(cfg->keyfile, fn);
 	g_free(fn);
 }
 
-- 
2.43.0


From 46a19043b3c33fe4dd79e346d04f175b0637fa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:29 +0000
Subject: [PATCH 097/147] fix: configuration: settings that were unset do not
 come back, and the password of a network is saved

---
 src/settings.c | 102 ++++++++++++++++++++-----------------------------
 1 file changed, 41 insertions(+), 61 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index a6131f9..431b3c3 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -234,6 +234,17 @@ static void config_save_file(GKeyFile *kf, const char *filename)
 	}
 }
 
+/**
+ * Set a string in a key file, or remove it if there is none.
+ */
+static void config_set_string(GKeyFile *kf, const char *group, const char *key, const char *value)
+{
+	if (value != NULL)
+		g_key_file_set_string(kf, group, key, value);
+	else
+		g_key_file_remove_key(kf, group, key, NULL);
+}
+
 static void config_save_tcp_servers(struct network_config *n, GKeyFile *kf, const char *groupname)
 {
 	GList *gl;
@@ -246,15 +257,8 @@ static void config_save_tcp_servers(struct network_config *n, GKeyFile *kf, cons
 
 		values[i] = name;
 
-		if (ts->password)
-			g_key_file_set_string(kf, name, "password", ts->password);
-		else
-			g_key_file_remove_key(kf, name, "password", NULL);
-
-		if (ts->bind_address) {
-			g_key_file_set_string(kf, name, "bind", ts->bind_address);
-		} else
-			g_key_file_remove_key(kf, name, "bind", NULL);
+		config_set_string(kf, name, "password", ts->password);
+		config_set_string(kf, name, "bind", ts->bind_address);
 
 		i++;
 	}
@@ -279,18 +283,10 @@ static void config_save_network(struct ctrlproxy_config *cfg,
 
 	kf = n->keyfile;
 
-	if (n->fullname != NULL)
-		g_key_file_set_string(kf, n->groupname, "fullname", n->fullname);
-	else
-		g_key_file_remove_key(kf, n->groupname, "fullname", NULL);
-	if (n->nick != NULL)
-		g_key_file_set_string(kf, n->groupname, "nick", n->nick);
-	else
-		g_key_file_remove_key(kf, n->groupname, "nick", NULL);
-	if (n->username != NULL)
-		g_key_file_set_string(kf, n->groupname, "username", n->username);
-	else
-		g_key_file_remove_key(kf, n->groupname, "username", NULL);
+	config_set_string(kf, n->groupname, "fullname", n->fullname);
+	config_set_string(kf, n->groupname, "nick", n->nick);
+	config_set_string(kf, n->groupname, "username", n->username);
+	config_set_string(kf, n->groupname, "password", n->password);
 	if (n->autocmd != NULL) {
 		g_key_file_set_string_list(kf, n->groupname, "autocmd", (const char *const*)n->autocmd,
 							   g_strv_length(n->autocmd));
@@ -300,8 +296,12 @@ static void config_save_network(struct ctrlproxy_config *cfg,
 
 	if (n->queue_speed)
 		g_key_file_set_integer(kf, n->groupname, "queue-speed", n->queue_speed);
+	else
+		g_key_file_remove_key(kf, n->groupname, "queue-speed", NULL);
 	if (n->reconnect_interval != -1)
 		g_key_file_set_integer(kf, n->groupname, "reconnect-interval", n->reconnect_interval);
+	else
+		g_key_file_remove_key(kf, n->groupname, "reconnect-interval", NULL);
 
 	switch(n->type) {
 	case NETWORK_VIRTUAL:
@@ -312,11 +312,8 @@ static void config_save_network(struct ctrlproxy_config *cfg,
 		break;
 	case NETWORK_TCP:
 		config_save_tcp_servers(n, kf, n->groupname);
-		if (n->type_settings.tcp.default_bind_address != NULL)
-			g_key_file_set_string(kf, n->groupname, "bind",
-								  n->type_settings.tcp.default_bind_address);
-		else
-			g_key_file_remove_key(kf, n->groupname, "bind", NULL);
+		config_set_string(kf, n->groupname, "bind",
+						  n->type_settings.tcp.default_bind_address);
 		break;
 	default:break;
 	}
@@ -365,8 +362,7 @@ static void config_save_listeners(struct ctrlproxy_config *cfg, const char *path
 	GKeyFile *kf;
 	gboolean empty = TRUE;
 
-	if (cfg->password != NULL)
-		g_key_file_set_string(cfg->keyfile, "global", "password", cfg->password);
+	config_set_string(cfg->keyfile, "global", "password", cfg->password);
 
 	if (cfg->auto_listener) {
 		g_key_file_set_boolean(cfg->keyfile, "global", "listener-auto", cfg->auto_listener);
@@ -382,17 +378,14 @@ static void config_save_listeners(struct ctrlproxy_config *cfg, const char *path
 
 		if (l->is_default) {
 			g_key_file_set_string(cfg->keyfile, "global", "port", l->port);
-			if (l->address != NULL)
-				g_key_file_set_string(cfg->keyfile, "global", "bind", l->address);
+			config_set_string(cfg->keyfile, "global", "bind", l->address);
 			if (l->password != NULL)
 				g_key_file_set_string(cfg->keyfile, "global", "password", l->password);
 
 			if (g_key_file_has_key(cfg->keyfile, "global", "ssl", NULL) || l->ssl)
 				g_key_file_set_boolean(cfg->keyfile, "global", "ssl", l->ssl);
 
-			if (l->network != NULL)
-				g_key_file_set_string(cfg->keyfile, "global", "default-network",
-								  l->network);
+			config_set_string(cfg->keyfile, "global", "default-network", l->network);
 			cfg->default_listener = l;
 		} else {
 			char *tmp;
@@ -496,8 +489,7 @@ void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_
 		cfg->keyfile = g_key_file_new();
 
 	g_key_file_set_boolean(cfg->keyfile, "global", "autosave", cfg->autosave);
-	if (cfg->admin_user != NULL)
-		g_key_file_set_string(cfg->keyfile, "global", "admin-user", cfg->admin_user);
+	config_set_string(cfg->keyfile, "global", "admin-user", cfg->admin_user);
 
 	if (g_key_file_has_key(cfg->keyfile, "global", "admin-log", NULL) ||
 		!cfg->admin_log)
@@ -521,13 +513,9 @@ void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_
 	if (g_key_file_has_key(cfg->keyfile, "global", "create-implicit", NULL) || !cfg->create_implicit)
 		g_key_file_set_boolean(cfg->keyfile, "global", "create-implicit", cfg->create_implicit);
 
-	if (cfg->client_charset != NULL)
-		g_key_file_set_string(cfg->keyfile, "global", "default-client-charset", cfg->client_charset);
-
-	if (cfg->replication)
-		g_key_file_set_string(cfg->keyfile, "global", "replication", cfg->replication);
-	if (cfg->motd_file != NULL)
-		g_key_file_set_string(cfg->keyfile, "global", "motd-file", cfg->motd_file);
+	config_set_string(cfg->keyfile, "global", "default-client-charset", cfg->client_charset);
+	config_set_string(cfg->keyfile, "global", "replication", cfg->replication);
+	config_set_string(cfg->keyfile, "global", "motd-file", cfg->motd_file);
 
 	switch (cfg->report_time) {
 	case REPORT_TIME_ALWAYS:
@@ -544,18 +532,9 @@ void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_
 		break;
 	}
 
-	if (cfg->default_realname != NULL)
-		g_key_file_set_string(cfg->keyfile, "global", "default-fullname", cfg->default_realname);
-	else
-		g_key_file_remove_key(cfg->keyfile, "global", "default-fullname", NULL);
-	if (cfg->default_nick != NULL)
-		g_key_file_set_string(cfg->keyfile, "global", "default-nick", cfg->default_nick);
-	else
-		g_key_file_remove_key(cfg->keyfile, "global", "default-nick", NULL);
-	if (cfg->default_username != NULL)
-		g_key_file_set_string(cfg->keyfile, "global", "default-username", cfg->default_username);
-	else
-		g_key_file_remove_key(cfg->keyfile, "global", "default-username", NULL);
+	config_set_string(cfg->keyfile, "global", "default-fullname", cfg->default_realname);
+	config_set_string(cfg->keyfile, "global", "default-nick", cfg->default_nick);
+	config_set_string(cfg->keyfile, "global", "default-username", cfg->default_username);
 
 	if (cfg->report_time_offset != 0 ||
 		g_key_file_has_key(cfg->keyfile, "global", "report-time-offset", NULL))
@@ -582,6 +561,8 @@ void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_
 
 	if (i > 0)
 		g_key_file_set_string_list(cfg->keyfile, "global", "autoconnect", (const gchar **)list, i);
+	else
+		g_key_file_remove_key(cfg->keyfile, "global", "autoconnect", NULL);
 
 	g_free(list);
 
@@ -1268,20 +1249,19 @@ static void config_save_auto_away(struct auto_away_config *d, struct ctrlproxy_c
 		g_key_file_set_boolean(kf, "global", "auto-away-enable", d->enabled);
 	}
 
-	if (d->message != NULL) {
-		g_key_file_set_string(kf, "global", "auto-away-message", d->message);
-	}
-
-	if (d->nick != NULL) {
-		g_key_file_set_string(kf, "global", "auto-away-nick", d->nick);
-	}
+	config_set_string(kf, "global", "auto-away-message", d->message);
+	config_set_string(kf, "global", "auto-away-nick", d->nick);
 
 	if (d->client_limit != -1) {
 		g_key_file_set_integer(kf, "global", "auto-away-client-limit", d->client_limit);
+	} else {
+		g_key_file_remove_key(kf, "global", "auto-away-client-limit", NULL);
 	}
 
 	if (d->max_idle_time != -1) {
 		g_key_file_set_integer(kf, "global", "auto-away-time", d->max_idle_time);
+	} else {
+		g_key_file_remove_key(kf, "global", "auto-away-time", NULL);
 	}
 }
 
-- 
2.43.0


From 9239c2dc5bffa816527524b6f399f2e2f45b0423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:31 +0000
Subject: [PATCH 098/147] fix: admin: the port can not be unset, and the
 password is the one that will be used after a restart too

---
 src/admin.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/admin.c b/src/admin.c
index 57a39b3..51631f0 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1449,6 +1449,11 @@ static gboolean port_set(admin_handle h, const char *value)
 	/* FIXME: What if there is no default listener ? */
 	/* FIXME: Check that value is a valid service name or port number */
 
+	if (value == NULL) {
+		admin_out(h, "The port can't be unset.");
+		return FALSE;
+	}
+
 	for (gl = g->config->listeners; gl; gl = gl->next) {
 		struct listener_config *l = gl->data;
 
@@ -1529,6 +1534,10 @@ static gboolean password_set(admin_handle h, const char *value)
 		if (l->is_default) {
 			g_free(l->password);
 			l->password = g_strdup(value);
+
+			/* There is only one password setting */
+			g_free(g->config->password);
+			g->config->password = g_strdup(value);
 			return TRUE;
 		}
 	}
-- 
2.43.0


From 28c91fe7d982210394fcbac545e0f27480e09d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:33 +0000
Subject: [PATCH 099/147] fix: configuration: channel keys are loaded for their
 channels, and forgotten when there are none left

---
 src/settings.c | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 431b3c3..acc2c60 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -430,6 +430,7 @@ static void config_save_listeners(struct ctrlproxy_config *cfg, const char *path
 static void config_save_networks(struct ctrlproxy_config *cfg, const char *config_dir, GList *networks)
 {
 	char *networksdir = g_build_filename(config_dir, "networks", NULL);
+	char *keysfile = g_build_filename(config_dir, "keys", NULL);
 	GList *gl;
 	GList *channel_keys = NULL;
 
@@ -449,20 +450,15 @@ static void config_save_networks(struct ctrlproxy_config *cfg, const char *confi
 
 	config_cleanup_networks_dir(cfg);
 
-	if (channel_keys != NULL) {
-		char *filename = g_build_filename(cfg->config_dir, "keys",
-									  NULL);
-		keyfile_write_file(channel_keys, CHANNEL_KEY_FILE_HEADER, filename);
-		g_free(filename);
-
-		while (channel_keys) {
-			g_free(channel_keys->data);
-			channel_keys = channel_keys->next;
-		}
+	/* Without keys, forget those that were saved earlier */
+	if (channel_keys != NULL || g_file_test(keysfile, G_FILE_TEST_EXISTS))
+		keyfile_write_file(channel_keys, CHANNEL_KEY_FILE_HEADER, keysfile);
 
-		g_list_free(channel_keys);
-	}
+	for (gl = channel_keys; gl; gl = gl->next)
+		g_free(gl->data);
+	g_list_free(channel_keys);
 
+	g_free(keysfile);
 	g_free(networksdir);
 }
 
@@ -723,11 +719,11 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 	for (gl = channel_keys; gl; gl = gl->next) {
 		struct keyfile_entry *ke = gl->data;
 
-		if (!strcasecmp(ke->network, n->name)) {
-			struct channel_config *cc = config_find_add_channel(n, n->nick);
+		if (ke->network != NULL && !strcasecmp(ke->network, n->name)) {
+			struct channel_config *cc = config_find_add_channel(n, ke->nick);
 
 			g_free(cc->key);
-			cc->key = g_strdup(n->password);
+			cc->key = g_strdup(ke->pass);
 		}
 	}
 
-- 
2.43.0


From 98a233ea5d564ed58f5226f3f4c751ead5f272bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:43 +0000
Subject: [PATCH 100/147] fix: configuration: renamed networks keep what is
 configured for them, deleted ones do not come back

---
 src/admin.c    |  10 ++++
 src/settings.c | 154 ++++++++++++++++++++++++++++++++++++++++++++++---
 src/settings.h |   1 +
 3 files changed, 158 insertions(+), 7 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index 51631f0..cd31331 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -363,6 +363,11 @@ static void add_network_helper(admin_handle h, const char *name)
 		return;
 	}
 
+	if (!config_valid_network_name(name)) {
+		admin_out(h, "Invalid name for a network: `%s'", name);
+		return;
+	}
+
 	nc = network_config_init(admin_get_global(h)->config);
 	g_free(nc->name); nc->name = g_strdup(name);
 	n = load_network(admin_get_global(h), nc);
@@ -390,6 +395,11 @@ static void rename_network_helper(admin_handle h, const char *oldname,
 		return;
 	}
 
+	if (!config_valid_network_name(newname)) {
+		admin_out(h, "Invalid name for a network: `%s'", newname);
+		return;
+	}
+
 	g_free(n->name);
 	n->name = g_strdup(newname);
 
diff --git a/src/settings.c b/src/settings.c
index acc2c60..a58870d 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -42,6 +42,8 @@
 	"; a channel name, channel key and network name, separated by tabs.\n" \
 	";\n\n"
 
+#define IS_SPECIAL_FILE(name) (name[0] == '.' || name[strlen(name)-1] == '~')
+
 static GList *known_keys = NULL;
 
 static void config_cleanup_networks_dir(struct ctrlproxy_config *cfg);
@@ -224,14 +226,17 @@ gboolean g_key_file_save_to_file(GKeyFile *kf, const gchar *file, GError **error
 	return ret;
 }
 
-static void config_save_file(GKeyFile *kf, const char *filename)
+static gboolean config_save_file(GKeyFile *kf, const char *filename)
 {
 	GError *error = NULL;
 
 	if (!g_key_file_save_to_file(kf, filename, &error)) {
 		log_global(LOG_WARNING, "Unable to save to \"%s\": %s", filename, error->message);
 		g_error_free(error);
+		return FALSE;
 	}
+
+	return TRUE;
 }
 
 /**
@@ -268,6 +273,86 @@ static void config_save_tcp_servers(struct network_config *n, GKeyFile *kf, cons
 	g_strfreev(values);
 }
 
+/**
+ * Check whether a name can be used for the section or file of a network.
+ */
+gboolean config_valid_network_name(const char *name)
+{
+	const char *p;
+
+	if (name[0] == '\0' || name[0] == '#' || name[0] == '&' || IS_SPECIAL_FILE(name))
+		return FALSE;
+
+	for (p = name; *p; p++) {
+		if (*p == '[' || *p == ']' || *p == '/' || g_ascii_iscntrl(*p))
+			return FALSE;
+	}
+
+	/* Sections with another meaning */
+	return strcmp(name, "global") != 0 && strcmp(name, "socks") != 0 &&
+		strcmp(name, "auto-away") != 0 && strcmp(name, "log-custom") != 0 &&
+		strcmp(name, "log-irssi") != 0;
+}
+
+/**
+ * Check whether the section for a network is named after it.
+ */
+static gboolean config_network_renamed(struct ctrlproxy_config *cfg, struct network_config *n)
+{
+	return n->keyfile != NULL && n->keyfile == cfg->keyfile &&
+		strcmp(n->groupname, n->name) != 0 && config_valid_network_name(n->name);
+}
+
+static void config_rename_network_groups(struct ctrlproxy_config *cfg, GList *networks)
+{
+	GList *gl;
+	GKeyFile *old;
+	char *data;
+	gsize length;
+
+	for (gl = networks; gl; gl = gl->next) {
+		if (config_network_renamed(cfg, gl->data))
+			break;
+	}
+
+	if (gl == NULL)
+		return;
+
+	old = g_key_file_new();
+	data = g_key_file_to_data(cfg->keyfile, &length, NULL);
+	g_key_file_load_from_data(old, data, length, G_KEY_FILE_NONE, NULL);
+	g_free(data);
+
+	for (gl = networks; gl; gl = gl->next) {
+		struct network_config *n = gl->data;
+
+		if (config_network_renamed(cfg, n))
+			g_key_file_remove_group(cfg->keyfile, n->groupname, NULL);
+	}
+
+	for (gl = networks; gl; gl = gl->next) {
+		struct network_config *n = gl->data;
+		char **keys;
+		int i;
+
+		if (!config_network_renamed(cfg, n))
+			continue;
+
+		keys = g_key_file_get_keys(old, n->groupname, NULL, NULL);
+		for (i = 0; keys != NULL && keys[i] != NULL; i++) {
+			char *value = g_key_file_get_value(old, n->groupname, keys[i], NULL);
+			g_key_file_set_value(cfg->keyfile, n->name, keys[i], value);
+			g_free(value);
+		}
+		g_strfreev(keys);
+
+		g_free(n->groupname);
+		n->groupname = g_strdup(n->name);
+	}
+
+	g_key_file_free(old);
+}
+
 static void config_save_network(struct ctrlproxy_config *cfg,
 								const char *dir, struct network_config *n, GList **channel_keys)
 {
@@ -277,6 +362,11 @@ static void config_save_network(struct ctrlproxy_config *cfg,
 	int autojoin_list_count;
 
 	if (n->keyfile == NULL) {
+		if (!config_valid_network_name(n->name)) {
+			log_global(LOG_WARNING, "Network `%s' can not be saved under that name", n->name);
+			return;
+		}
+
 		n->keyfile = cfg->keyfile;
 		n->groupname = g_strdup(n->name);
 	}
@@ -351,7 +441,25 @@ static void config_save_network(struct ctrlproxy_config *cfg,
 	g_free(autojoin_list);
 
 	if (n->filename != NULL) {
-		config_save_file(kf, n->filename);
+		char *old_dir = g_path_get_dirname(n->filename);
+		char *filename;
+
+		if (config_valid_network_name(n->name)) {
+			filename = g_build_filename(dir, n->name, NULL);
+		} else {
+			char *old_name = g_path_get_basename(n->filename);
+			filename = g_build_filename(dir, old_name, NULL);
+			g_free(old_name);
+		}
+
+		if (config_save_file(kf, filename) && !strcmp(old_dir, dir)) {
+			g_free(n->filename);
+			n->filename = filename;
+		} else {
+			g_free(filename);
+		}
+
+		g_free(old_dir);
 	}
 }
 
@@ -434,6 +542,8 @@ static void config_save_networks(struct ctrlproxy_config *cfg, const char *confi
 	GList *gl;
 	GList *channel_keys = NULL;
 
+	config_rename_network_groups(cfg, networks);
+
 	for (gl = networks; gl; gl = gl->next) {
 		struct network_config *n = gl->data;
 		if (n->filename != NULL && !g_file_test(networksdir, G_FILE_TEST_IS_DIR)) {
@@ -549,7 +659,7 @@ void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_
 	for (gl = cfg->networks; gl; gl = gl->next) {
 		struct network_config *nc = gl->data;
 
-		if (nc->autoconnect) {
+		if (nc->autoconnect && !nc->implicit) {
 			list[i] = nc->name;
 			i++;
 		}
@@ -1019,10 +1129,32 @@ struct network_config *config_find_network(struct ctrlproxy_config *cfg,
 
 void config_del_network(struct ctrlproxy_config *cfg, const char *name)
 {
-	cfg->networks = g_list_remove(cfg->networks, config_find_network(cfg, name));
+	struct network_config *nc = config_find_network(cfg, name);
+
+	if (nc == NULL)
+		return;
+
+	cfg->networks = g_list_remove(cfg->networks, nc);
+
+	if (nc->keyfile != NULL && nc->keyfile == cfg->keyfile) {
+		g_key_file_remove_group(cfg->keyfile, nc->groupname, NULL);
+	}
 }
 
-#define IS_SPECIAL_FILE(name) (name[0] == '.' || name[strlen(name)-1] == '~')
+/**
+ * Find the network that is stored in a file.
+ */
+static struct network_config *config_find_network_file(struct ctrlproxy_config *cfg,
+													   const char *path)
+{
+	GList *gl;
+	for (gl = cfg->networks; gl; gl = gl->next) {
+		struct network_config *nc = gl->data;
+		if (nc->filename != NULL && !strcmp(nc->filename, path))
+			return nc;
+	}
+	return NULL;
+}
 
 static void config_cleanup_networks_dir(struct ctrlproxy_config *cfg)
 {
@@ -1037,12 +1169,20 @@ static void config_cleanup_networks_dir(struct ctrlproxy_config *cfg)
 
 	while ((name = g_dir_read_name(dir))) {
 		char *path;
-		if (IS_SPECIAL_FILE(name) || config_find_network(cfg, name)) {
+		GKeyFile *kf;
+
+		if (IS_SPECIAL_FILE(name)) {
 			continue;
 		}
 
 		path = g_build_filename(networksdir, name, NULL);
-		g_unlink(path);
+		kf = g_key_file_new();
+		/* What could not be loaded is not ours to remove */
+		if (config_find_network_file(cfg, path) == NULL &&
+			g_key_file_load_from_file(kf, path, G_KEY_FILE_NONE, NULL)) {
+			g_unlink(path);
+		}
+		g_key_file_free(kf);
 		g_free(path);
 	}
 
diff --git a/src/settings.h b/src/settings.h
index 94f9313..1a23278 100644
--- a/src/settings.h
+++ b/src/settings.h
@@ -243,6 +243,7 @@ G_GNUC_WARN_UNUSED_RESULT G_MODULE_EXPORT struct ctrlproxy_config *init_configur
 G_MODULE_EXPORT void free_config(struct ctrlproxy_config *);
 G_MODULE_EXPORT void setup_configdir(const char *dir);
 G_MODULE_EXPORT gboolean g_key_file_save_to_file(GKeyFile *kf, const gchar *file, GError **error);
+G_MODULE_EXPORT gboolean config_valid_network_name(const char *name);
 G_MODULE_EXPORT void config_del_network(struct ctrlproxy_config *cfg, const char *name);
 
 #endif /* __CTRLPROXY_SETTINGS_H__ */
-- 
2.43.0


From ea233b5dd333e496b9e30277e6a278689aae8efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:19 +0000
Subject: [PATCH 101/147] fix: configuration: the users allowed to use SOCKS
 are not forgotten when the configuration is saved

---
 src/settings.c | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index a58870d..6e25db8 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -463,6 +463,31 @@ static void config_save_network(struct ctrlproxy_config *cfg,
 	}
 }
 
+static void config_save_socks_listener(struct listener_config *l, GKeyFile *kf)
+{
+	GList *gl;
+	int i = 0;
+	char **allows = g_new0(char *, g_list_length(l->allow_rules)+1);
+
+	for (gl = l->allow_rules; gl; gl = gl->next) {
+		struct allow_rule *r = gl->data;
+
+		if (r->password != NULL)
+			allows[i] = g_strdup_printf("%s:%s", r->username, r->password);
+		else
+			allows[i] = g_strdup(r->username);
+		i++;
+	}
+
+	g_key_file_set_string_list(kf, "socks", "allow", (const gchar **)allows, i);
+	g_key_file_set_string(kf, "socks", "port", l->port);
+	config_set_string(kf, "socks", "bind", l->address);
+	config_set_string(kf, "socks", "password", l->password);
+	config_set_string(kf, "socks", "default-network", l->network);
+
+	g_strfreev(allows);
+}
+
 static void config_save_listeners(struct ctrlproxy_config *cfg, const char *path)
 {
 	GList *gl;
@@ -484,7 +509,9 @@ static void config_save_listeners(struct ctrlproxy_config *cfg, const char *path
 	for (gl = cfg->listeners; gl; gl = gl->next) {
 		struct listener_config *l = gl->data;
 
-		if (l->is_default) {
+		if (l->allow_rules != NULL) {
+			config_save_socks_listener(l, cfg->keyfile);
+		} else if (l->is_default) {
 			g_key_file_set_string(cfg->keyfile, "global", "port", l->port);
 			config_set_string(cfg->keyfile, "global", "bind", l->address);
 			if (l->password != NULL)
@@ -962,8 +989,6 @@ static void config_load_listeners_socks(struct ctrlproxy_config *cfg)
 		return;
 	}
 
-	g_key_file_remove_key(kf, "socks", "allow", NULL);
-
 	l = g_new0(struct listener_config, 1);
 
 	if (g_key_file_has_key(kf, "socks", "port", NULL)) {
@@ -979,7 +1004,9 @@ static void config_load_listeners_socks(struct ctrlproxy_config *cfg)
 		l->is_default = TRUE;
 	}
 
-	g_key_file_remove_key(kf, "socks", "port", NULL);
+	l->address = config_get_string(kf, "socks", "bind");
+	l->password = config_get_string(kf, "socks", "password");
+	l->network = config_get_string(kf, "socks", "default-network");
 
 	for (i = 0; i < size; i++) {
 		struct allow_rule *r = g_new0(struct allow_rule, 1);
@@ -992,8 +1019,6 @@ static void config_load_listeners_socks(struct ctrlproxy_config *cfg)
 		l->allow_rules = g_list_append(l->allow_rules, r);
 	}
 
-	g_key_file_remove_group(kf, "socks", NULL);
-
 	g_strfreev(allows);
 
 	cfg->listeners = g_list_append(cfg->listeners, l);
@@ -1220,7 +1245,7 @@ static void config_load_networks(struct ctrlproxy_config *cfg, GList *channel_ke
 	/* Load other networks in configuration file */
 	groups = g_key_file_get_groups(cfg->keyfile, &size);
 	for (i = 0; i < size; i++) {
-		if (!strcmp(groups[i], "global")) {
+		if (!strcmp(groups[i], "global") || !strcmp(groups[i], "socks")) {
 			continue;
 		}
 
-- 
2.43.0


From 7b5c99ebf4cd8f75f86ca6eef70fd3152a648c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:21 +0000
Subject: [PATCH 102/147] fix: configuration: custom logging is still on after
 the configuration was saved

---
 src/settings.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/settings.c b/src/settings.c
index 6e25db8..c0a8e66 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -80,6 +80,7 @@ static const char *builtin_known_keys[] = {
 	"listener-autoport",
 	"logging",
 	"logfile",
+	"logfilename",
 	"logdir",
 	"port",
 	"bind",
@@ -1266,7 +1267,7 @@ static void config_load_networks(struct ctrlproxy_config *cfg, GList *channel_ke
 }
 
 #define FETCH_SETTING(data, kf, section, prefix, name) (data)->name = config_get_string((kf), (section), prefix #name)
-#define STORE_SETTING(data, kf, section, prefix, name) g_key_file_set_string((kf), (section), prefix #name, (data)->name)
+#define STORE_SETTING(data, kf, section, prefix, name) config_set_string((kf), (section), prefix #name, (data)->name)
 
 static void config_save_log(struct log_file_config *data,
 							struct ctrlproxy_config *config)
@@ -1286,6 +1287,7 @@ static void config_save_log(struct log_file_config *data,
 			g_key_file_set_string(config->keyfile, "global", "logfile", data->logfilename);
 		}
 	} else {
+		g_key_file_set_string(config->keyfile, "global", "logging", "custom");
 		STORE_SETTING(data, config->keyfile, "global", "", logfilename);
 		STORE_SETTING(data, config->keyfile, "global", "log-format-", nickchange);
 		STORE_SETTING(data, config->keyfile, "global", "log-format-", topic);
-- 
2.43.0


From 99929e0c9cf68d31f709f47b69142c9ec2e817af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:22 +0000
Subject: [PATCH 103/147] fix: configuration: a network file that can not be
 parsed or a strange name to connect to does not abort, and a server to
 connect to is added once

---
 src/settings.c | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index c0a8e66..2028b0a 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -951,6 +951,7 @@ static struct network_config *find_create_network_config(struct ctrlproxy_config
 			tmp = irc_create_url(sc->host, sc->port, FALSE);
 
 			if (strcasecmp(tmp, name) == 0) {
+				g_free(tmp);
 				return nc;
 			}
 
@@ -958,21 +959,19 @@ static struct network_config *find_create_network_config(struct ctrlproxy_config
 		}
 	}
 
-	nc = network_config_init(cfg);
-	nc->name = g_strdup(name);
-	nc->autoconnect = FALSE;
-	nc->reconnect_interval = -1;
-	nc->type = NETWORK_TCP;
 	tc = g_new0(struct tcp_server_config, 1);
 	if (!irc_parse_url(name, &tc->host, &tc->port, &tc->ssl)) {
 		log_global(LOG_ERROR, "Error parsing server URL %s", name);
 		g_free(tc);
-		free_config(cfg);
 		return NULL;
 	}
-	nc->type_settings.tcp.servers = g_list_append(nc->type_settings.tcp.servers, tc);
 
-	cfg->networks = g_list_append(cfg->networks, nc);
+	nc = network_config_init(cfg);
+	nc->name = g_strdup(name);
+	nc->autoconnect = FALSE;
+	nc->reconnect_interval = -1;
+	nc->type = NETWORK_TCP;
+	nc->type_settings.tcp.servers = g_list_append(nc->type_settings.tcp.servers, tc);
 
 	return nc;
 }
@@ -1224,7 +1223,6 @@ static void config_load_networks(struct ctrlproxy_config *cfg, GList *channel_ke
 	const char *name;
 	char **groups;
 	gsize size, i;
-	struct network_config *n;
 
 	/* Load networks from files */
 
@@ -1234,8 +1232,7 @@ static void config_load_networks(struct ctrlproxy_config *cfg, GList *channel_ke
 			if (IS_SPECIAL_FILE(name)) {
 				continue;
 			}
-			n = config_load_network_file(cfg, networksdir, name, channel_keys);
-			g_assert(n != NULL);
+			config_load_network_file(cfg, networksdir, name, channel_keys);
 		}
 
 		g_dir_close(dir);
@@ -1259,8 +1256,7 @@ static void config_load_networks(struct ctrlproxy_config *cfg, GList *channel_ke
 			continue;
 		}
 
-		n = config_load_network_keyfile_group(cfg, groups[i], cfg->keyfile, groups[i], channel_keys);
-		g_assert(n != NULL);
+		config_load_network_keyfile_group(cfg, groups[i], cfg->keyfile, groups[i], channel_keys);
 	}
 
 	g_strfreev(groups);
@@ -1680,8 +1676,8 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 	for (i = 0; i < size; i++) {
 		struct network_config *nc = find_create_network_config(cfg, autoconnect_list[i]);
 
-		g_assert(nc);
-		nc->autoconnect = TRUE;
+		if (nc != NULL)
+			nc->autoconnect = TRUE;
 	}
 
 	g_strfreev(autoconnect_list);
-- 
2.43.0


From 69991bb3452a4e8ab58c8c0dbe9ba2a1278a7b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:05 +0000
Subject: [PATCH 104/147] fix: URLs with a port and a slash at the end, and
 with IPv6 addresses

---
 libirc/url.c | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/libirc/url.c b/libirc/url.c
index 566847b..be66adc 100644
--- a/libirc/url.c
+++ b/libirc/url.c
@@ -23,6 +23,9 @@
 
 char *irc_create_url(const char *server, const char *port, gboolean ssl)
 {
+	/* The port tells where an IPv6 address ends */
+	if (strchr(server, ':') != NULL)
+		return g_strdup_printf("%s://%s:%s", (ssl?"ircs":"irc"), server, port);
 	if (ssl && (!strcmp("ircs", port) || !strcmp("994", port)))
 		return g_strdup_printf("ircs://%s", server);
 	if (!ssl && (!strcmp("ircd", port) || !strcmp("6667", port)))
@@ -32,7 +35,7 @@ char *irc_create_url(const char *server, const char *port, gboolean ssl)
 
 gboolean irc_parse_url(const char *url, char **server, char **port, gboolean *ssl)
 {
-	char *p, *q;
+	const char *p, *q;
 
 	if (!strncmp(url, "irc://", strlen("irc://"))) {
 		*ssl = FALSE;
@@ -50,23 +53,25 @@ gboolean irc_parse_url(const char *url, char **server, char **port, gboolean *ss
 	}
 
 	q = strchr(url, '/');
-	p = strchr(url, ':');
-	if (p != NULL && (q == NULL || p < q)) {
-		*port = g_strdup(p+1);
-		*server = g_strndup(url, p-url);
-		return TRUE;
-	}
+	if (q == NULL)
+		q = url + strlen(url);
 
-	if (*ssl) {
-		*port = g_strdup(IRCS_PORT);
+	if (url[0] == '[' && (p = memchr(url, ']', q - url)) != NULL) {
+		/* IPv6 address */
+		*server = g_strndup(url + 1, p - url - 1);
+		p = (p[1] == ':')?p + 1:NULL;
 	} else {
-		*port = g_strdup(IRC_PORT);
+		/* The last colon, as there may be others in an IPv6 address */
+		p = g_strrstr_len(url, q - url, ":");
+		*server = g_strndup(url, (p != NULL?p:q) - url);
 	}
 
-	if (q != NULL) {
-		*server = g_strndup(url, q - url);
+	if (p != NULL) {
+		*port = g_strndup(p + 1, q - p - 1);
+	} else if (*ssl) {
+		*port = g_strdup(IRCS_PORT);
 	} else {
-		*server = g_strdup(url);
+		*port = g_strdup(IRC_PORT);
 	}
 
 	return TRUE;
-- 
2.43.0


From ec797ee8819dce9568e47c8205f1746d4b2084e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:07 +0000
Subject: [PATCH 105/147] fix: configuration: servers to connect to that are
 configured already are found, and networks may have a server in common

---
 src/settings.c | 77 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 51 insertions(+), 26 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 2028b0a..909fd0b 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -746,13 +746,29 @@ static void config_load_servers(struct network_config *n)
 		s->bind_address = config_get_string(n->keyfile, servers[i], "bind");
 
 		n->type_settings.tcp.servers = g_list_append(n->type_settings.tcp.servers, s);
-
-		g_key_file_remove_group(n->keyfile, servers[i], NULL);
 	}
 
 	g_strfreev(servers);
 }
 
+/**
+ * Remove the sections about servers, once they have been loaded. Those that
+ * are needed are saved with the networks.
+ */
+static void config_remove_servers(GKeyFile *kf)
+{
+	char **groups = g_key_file_get_groups(kf, NULL);
+	int i;
+
+	for (i = 0; groups[i] != NULL; i++) {
+		if (!strncasecmp(groups[i], "irc://", strlen("irc://")) ||
+			!strncasecmp(groups[i], "ircs://", strlen("ircs://")))
+			g_key_file_remove_group(kf, groups[i], NULL);
+	}
+
+	g_strfreev(groups);
+}
+
 static struct channel_config *config_find_add_channel(struct network_config *nc, const char *name)
 {
 	GList *gl;
@@ -907,6 +923,8 @@ static struct network_config *config_load_network_file(struct ctrlproxy_config *
 	n = config_load_network_keyfile_group(cfg, name, kf, "global", channel_keys);
 	n->filename = filename;
 
+	config_remove_servers(n->keyfile);
+
 	groups = g_key_file_get_groups(n->keyfile, &size);
 	for (i = 0; i < size; i++) {
 		if (!g_ascii_isalpha(groups[i][0]))
@@ -923,13 +941,17 @@ static struct network_config *find_create_network_config(struct ctrlproxy_config
 	GList *gl;
 	struct network_config *nc;
 	struct tcp_server_config *tc;
+	gboolean valid;
+
+	tc = g_new0(struct tcp_server_config, 1);
+	valid = irc_parse_url(name, &tc->host, &tc->port, &tc->ssl);
 
 	for (gl = cfg->networks; gl; gl = gl->next) {
 		GList *gl1;
 		nc = gl->data;
 
 		if (strcasecmp(nc->name, name) == 0) {
-			return nc;
+			break;
 		}
 
 		if (nc->type != NETWORK_TCP) {
@@ -937,43 +959,44 @@ static struct network_config *find_create_network_config(struct ctrlproxy_config
 		}
 
 		for (gl1 = nc->type_settings.tcp.servers; gl1; gl1 = gl1->next) {
-			char *tmp;
 			struct tcp_server_config *sc = gl1->data;
 
 			if (strcasecmp(sc->host, name) == 0) {
-				return nc;
+				break;
 			}
 
-			if (strncasecmp(sc->host, name, strlen(sc->host)) != 0) {
-				continue;
+			if (valid && strcasecmp(sc->host, tc->host) == 0 &&
+				strcasecmp(sc->port, tc->port) == 0 &&
+				sc->ssl == tc->ssl) {
+				break;
 			}
+		}
 
-			tmp = irc_create_url(sc->host, sc->port, FALSE);
+		if (gl1 != NULL) {
+			break;
+		}
+	}
 
-			if (strcasecmp(tmp, name) == 0) {
-				g_free(tmp);
-				return nc;
-			}
+	if (gl == NULL && valid) {
+		nc = network_config_init(cfg);
+		/* The configuration of the network can't be saved under an URL */
+		nc->name = g_strdup(strstr(name, "://")?tc->host:name);
+		nc->autoconnect = FALSE;
+		nc->reconnect_interval = -1;
+		nc->type = NETWORK_TCP;
+		nc->type_settings.tcp.servers = g_list_append(nc->type_settings.tcp.servers, tc);
 
-			g_free(tmp);
-		}
+		return nc;
 	}
 
-	tc = g_new0(struct tcp_server_config, 1);
-	if (!irc_parse_url(name, &tc->host, &tc->port, &tc->ssl)) {
+	if (gl == NULL)
 		log_global(LOG_ERROR, "Error parsing server URL %s", name);
-		g_free(tc);
-		return NULL;
-	}
 
-	nc = network_config_init(cfg);
-	nc->name = g_strdup(name);
-	nc->autoconnect = FALSE;
-	nc->reconnect_interval = -1;
-	nc->type = NETWORK_TCP;
-	nc->type_settings.tcp.servers = g_list_append(nc->type_settings.tcp.servers, tc);
+	g_free(tc->host);
+	g_free(tc->port);
+	g_free(tc);
 
-	return nc;
+	return (gl != NULL)?gl->data:NULL;
 }
 
 static void config_load_listeners_socks(struct ctrlproxy_config *cfg)
@@ -1259,6 +1282,8 @@ static void config_load_networks(struct ctrlproxy_config *cfg, GList *channel_ke
 		config_load_network_keyfile_group(cfg, groups[i], cfg->keyfile, groups[i], channel_keys);
 	}
 
+	config_remove_servers(cfg->keyfile);
+
 	g_strfreev(groups);
 }
 
-- 
2.43.0


From 1b53ec30268d7c4a8389e28fb08b5ca2fe09b9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:51 +0000
Subject: [PATCH 106/147] fix: configuration: a network to connect to goes
 before another one that has a server of that name

---
 src/settings.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 909fd0b..e23853f 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -936,6 +936,18 @@ static struct network_config *config_load_network_file(struct ctrlproxy_config *
 	return n;
 }
 
+struct network_config *config_find_network(struct ctrlproxy_config *cfg,
+										   const char *name)
+{
+	GList *gl;
+	for (gl = cfg->networks; gl; gl = gl->next) {
+		struct network_config *nc = gl->data;
+		if (!strcasecmp(nc->name, name))
+			return nc;
+	}
+	return NULL;
+}
+
 static struct network_config *find_create_network_config(struct ctrlproxy_config *cfg, const char *name)
 {
 	GList *gl;
@@ -943,6 +955,10 @@ static struct network_config *find_create_network_config(struct ctrlproxy_config
 	struct tcp_server_config *tc;
 	gboolean valid;
 
+	nc = config_find_network(cfg, name);
+	if (nc != NULL)
+		return nc;
+
 	tc = g_new0(struct tcp_server_config, 1);
 	valid = irc_parse_url(name, &tc->host, &tc->port, &tc->ssl);
 
@@ -950,10 +966,6 @@ static struct network_config *find_create_network_config(struct ctrlproxy_config
 		GList *gl1;
 		nc = gl->data;
 
-		if (strcasecmp(nc->name, name) == 0) {
-			break;
-		}
-
 		if (nc->type != NETWORK_TCP) {
 			continue;
 		}
@@ -1163,18 +1175,6 @@ static void config_load_listeners(struct ctrlproxy_config *cfg)
 }
 
 
-struct network_config *config_find_network(struct ctrlproxy_config *cfg,
-										   const char *name)
-{
-	GList *gl;
-	for (gl = cfg->networks; gl; gl = gl->next) {
-		struct network_config *nc = gl->data;
-		if (!strcasecmp(nc->name, name))
-			return nc;
-	}
-	return NULL;
-}
-
 void config_del_network(struct ctrlproxy_config *cfg, const char *name)
 {
 	struct network_config *nc = config_find_network(cfg, name);
-- 
2.43.0


From 138f311c161f996e242cc729bbf602188f6b9db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:43 +0000
Subject: [PATCH 107/147] fix: configuration: files of renamed networks are
 only removed when the new ones were written

---
 src/settings.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index e23853f..3e53e38 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -354,9 +354,13 @@ static void config_rename_network_groups(struct ctrlproxy_config *cfg, GList *ne
 	g_key_file_free(old);
 }
 
-static void config_save_network(struct ctrlproxy_config *cfg,
+/**
+ * @return FALSE if there is a file for the network that could not be written.
+ */
+static gboolean config_save_network(struct ctrlproxy_config *cfg,
 								const char *dir, struct network_config *n, GList **channel_keys)
 {
+	gboolean ret = TRUE;
 	GList *gl;
 	GKeyFile *kf;
 	char **autojoin_list;
@@ -365,7 +369,7 @@ static void config_save_network(struct ctrlproxy_config *cfg,
 	if (n->keyfile == NULL) {
 		if (!config_valid_network_name(n->name)) {
 			log_global(LOG_WARNING, "Network `%s' can not be saved under that name", n->name);
-			return;
+			return TRUE;
 		}
 
 		n->keyfile = cfg->keyfile;
@@ -453,7 +457,8 @@ static void config_save_network(struct ctrlproxy_config *cfg,
 			g_free(old_name);
 		}
 
-		if (config_save_file(kf, filename) && !strcmp(old_dir, dir)) {
+		ret = config_save_file(kf, filename);
+		if (ret && !strcmp(old_dir, dir)) {
 			g_free(n->filename);
 			n->filename = filename;
 		} else {
@@ -462,6 +467,8 @@ static void config_save_network(struct ctrlproxy_config *cfg,
 
 		g_free(old_dir);
 	}
+
+	return ret;
 }
 
 static void config_save_socks_listener(struct listener_config *l, GKeyFile *kf)
@@ -567,6 +574,7 @@ static void config_save_networks(struct ctrlproxy_config *cfg, const char *confi
 {
 	char *networksdir = g_build_filename(config_dir, "networks", NULL);
 	char *keysfile = g_build_filename(config_dir, "keys", NULL);
+	gboolean complete = TRUE;
 	GList *gl;
 	GList *channel_keys = NULL;
 
@@ -582,11 +590,13 @@ static void config_save_networks(struct ctrlproxy_config *cfg, const char *confi
 		}
 
 
-		if (!n->implicit)
-			config_save_network(cfg, networksdir, n, &channel_keys);
+		if (!n->implicit && !config_save_network(cfg, networksdir, n, &channel_keys))
+			complete = FALSE;
 	}
 
-	config_cleanup_networks_dir(cfg);
+	/* Keep the old files as long as there is not a new one for every network */
+	if (complete)
+		config_cleanup_networks_dir(cfg);
 
 	/* Without keys, forget those that were saved earlier */
 	if (channel_keys != NULL || g_file_test(keysfile, G_FILE_TEST_EXISTS))
-- 
2.43.0


From 2c41256f60a562ff6aa9965f0870dd7b4b4a6e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:11 +0000
Subject: [PATCH 108/147] fix: configuration: an empty entry in the list of
 SOCKS users is skipped

---
 src/settings.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 3e53e38..8e2da0d 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -1054,9 +1054,14 @@ static void config_load_listeners_socks(struct ctrlproxy_config *cfg)
 	l->network = config_get_string(kf, "socks", "default-network");
 
 	for (i = 0; i < size; i++) {
-		struct allow_rule *r = g_new0(struct allow_rule, 1);
-		char **parts = g_strsplit(allows[i], ":", 2);
+		struct allow_rule *r;
+		char **parts;
 
+		if (allows[i][0] == '\0')
+			continue;
+
+		r = g_new0(struct allow_rule, 1);
+		parts = g_strsplit(allows[i], ":", 2);
 		r->username = parts[0];
 		r->password = parts[1];
 
-- 
2.43.0


From 6276875a2057cc10c97902fb606ca53a957a4df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:34 +0000
Subject: [PATCH 109/147] fix: log files in the format of irssi hold the reason
 of a kick

---
 src/settings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/settings.c b/src/settings.c
index 8e2da0d..0457b7c 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -1402,7 +1402,7 @@ static void config_load_log(struct ctrlproxy_config *config)
 		data->action = "%h:%M  * %n %m";
 		data->mode = "%h:%M -!- mode/%t [%p %c] by %n";
 		data->quit = "%h:%M -!- %n [%u] has quit [%m]";
-		data->kick = "%h:%M -!- %t has been kicked by %n [%m]";
+		data->kick = "%h:%M -!- %t has been kicked by %n [%r]";
 		data->topic = "%h:%M -!- %n has changed the topic to %t";
 		data->notopic = "%h:%M -!- %n has removed the topic";
 		data->nickchange = "%h:%M -!- %n is now known as %r";
-- 
2.43.0


From deac0532a98e09ab85f4ddc9cb08410651a4476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:35 +0000
Subject: [PATCH 110/147] fix: the number of log files held open is limited
 also when all were used recently

---
 src/log_support.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/log_support.c b/src/log_support.c
index 0ba9026..88cb8d1 100644
--- a/src/log_support.c
+++ b/src/log_support.c
@@ -93,8 +93,12 @@ gboolean log_support_write(struct log_support_context *ctx,
 {
 	struct log_file_info *fi;
 
-	if (ctx->num_opened > MAX_OPEN_LOGFILES)
+	if (ctx->num_opened >= MAX_OPEN_LOGFILES) {
 		log_support_cleanup(ctx);
+		/* All of them in use: start over, they are reopened when needed */
+		if (ctx->num_opened >= MAX_OPEN_LOGFILES)
+			log_support_reopen(ctx);
+	}
 	
 	/* First, check if the file is still present in the hash table */
 	fi = g_hash_table_lookup(ctx->files, path);
-- 
2.43.0


From a9f995bedd35ff9c5ee96f1e33dd299d7469cb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:40 +0000
Subject: [PATCH 111/147] fix: keep a channel's configured key when its modes
 were not received

The key was dropped from the configuration whenever the network was
disconnected or the configuration saved without the key having been seen
in a MODE or a 324, so the next login could not join the channel.
---
 src/gen_config.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gen_config.c b/src/gen_config.c
index 8885ada..51ca690 100644
--- a/src/gen_config.c
+++ b/src/gen_config.c
@@ -70,10 +70,11 @@ void network_update_config(struct irc_network_state *ns, struct network_config *
 			cc->name = g_strdup(cs->name);
 			nc->channels = g_list_append(nc->channels, cc);
 		}
-		g_free(cc->key);
-		cc->key = NULL;
-		if (cs->chanmode_option['k'])
+		/* Without the channel's modes, its key isn't known */
+		if (cs->chanmode_option['k'] || cs->mode_received) {
+			g_free(cc->key);
 			cc->key = g_strdup(cs->chanmode_option['k']);
+		}
 		cc->autojoin = TRUE;
 	}
 }
-- 
2.43.0


From 64d9d1ab3e0480771580fe5904c7954169e532b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:45 +0000
Subject: [PATCH 112/147] fix: auto-away: only what the user sends counts as
 activity

Replies to CTCP requests, passwords sent to NickServ and commands sent
after logging in marked the user as back on all networks, even though
nobody was there.
---
 src/auto_away.c | 28 +++++++++++++++++++---------
 src/ctrlproxy.h |  2 ++
 src/internals.h |  1 +
 src/network.c   |  3 +++
 4 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/auto_away.c b/src/auto_away.c
index ba6c10d..addff9d 100644
--- a/src/auto_away.c
+++ b/src/auto_away.c
@@ -45,6 +45,7 @@ static gboolean check_time(gpointer user_data)
 
 	if (time(NULL) - d->last_message > d->max_idle_time) {
 		GList *sl;
+		gboolean sent = FALSE;
 		for (sl = d->global->networks; sl; sl = sl->next) {
 			struct irc_network *s = (struct irc_network *)sl->data;
 			if (s->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD &&
@@ -56,26 +57,36 @@ static gboolean check_time(gpointer user_data)
 				if (d->config->nick != NULL) {
 					network_send_args(s, "NICK", d->config->nick, NULL);
 				}
+				sent = TRUE;
 			}
 		}
+		/* Don't repeat it while waiting for the servers to confirm */
+		if (sent)
+			d->last_message = time(NULL);
 	}
 
 	return TRUE;
 }
 
-static gboolean log_data(struct irc_network *n, const struct irc_line *l,
-						 enum data_direction dir, void *userdata)
+/**
+ * Handle a line sent by the user, rather than by ctrlproxy itself.
+ */
+void auto_away_user_line(struct global *global, const struct irc_line *l)
 {
-	struct auto_away_data *d = userdata;
+	struct auto_away_data *d;
 	GList *sl;
 
-	if (dir == TO_SERVER && !base_strcmp(l->args[0], "AWAY")) {
+	if (global == NULL || global->auto_away == NULL)
+		return;
+
+	d = global->auto_away;
+
+	if (!base_strcmp(l->args[0], "AWAY")) {
 		d->last_message = time(NULL);
 	}
 
-	if (dir == TO_SERVER &&
-	   (!base_strcmp(l->args[0], "PRIVMSG") ||
-		!base_strcmp(l->args[0], "NOTICE"))) {
+	if (!base_strcmp(l->args[0], "PRIVMSG") ||
+		!base_strcmp(l->args[0], "NOTICE")) {
 		d->last_message = time(NULL);
 		for (sl = d->global->networks; sl; sl = sl->next) {
 			struct irc_network *s = (struct irc_network *)sl->data;
@@ -84,7 +95,6 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l,
 				network_send_args(s, "AWAY", NULL);
 		}
 	}
-	return TRUE;
 }
 
 static gboolean new_client(struct irc_client *c, void *userdata)
@@ -121,5 +131,5 @@ void auto_away_add(struct global *global, struct auto_away_config *config)
 		log_global(LOG_WARNING, "Ignoring auto-away time %d because it is too low", d->max_idle_time);
 	add_new_client_hook("auto-away", new_client, d);
 	add_lose_client_hook("auto-away", lose_client, d);
-	add_server_filter("auto-away", log_data, d, -1);
+	global->auto_away = d;
 }
diff --git a/src/ctrlproxy.h b/src/ctrlproxy.h
index 5201405..f242ac3 100644
--- a/src/ctrlproxy.h
+++ b/src/ctrlproxy.h
@@ -84,6 +84,8 @@ struct global {
 	GIOChannel *admin_incoming;
 	gint admin_incoming_id;
 	gboolean restricted;
+
+	struct auto_away_data *auto_away;
 };
 
 /**
diff --git a/src/internals.h b/src/internals.h
index 4a2316d..c49cf16 100644
--- a/src/internals.h
+++ b/src/internals.h
@@ -181,6 +181,7 @@ void free_listeners(struct global *global);
 
 /* auto_away.c */
 void auto_away_add(struct global *global, struct auto_away_config *config);
+void auto_away_user_line(struct global *global, const struct irc_line *l);
 
 
 
diff --git a/src/network.c b/src/network.c
index 869202a..5e3a9b3 100644
--- a/src/network.c
+++ b/src/network.c
@@ -562,6 +562,9 @@ void fini_networks(struct global *global)
 gboolean network_forward_line(struct irc_network *s, struct irc_client *c,
 							  const struct irc_line *l, gboolean is_private)
 {
+	if (c != NULL)
+		auto_away_user_line(s->global, l);
+
 	/* Also write this message to all other clients currently connected */
 	if (!is_private &&
 	   (!base_strcmp(l->args[0], "PRIVMSG") ||
-- 
2.43.0


From 58ebc68a806f7f675e951226dabe8bce5f973389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:46 +0000
Subject: [PATCH 113/147] fix: let commands given on the administration network
 know the client

DETACH, CHARSET and BACKLOG only worked when given as /CTRLPROXY.
---
 src/network.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network.c b/src/network.c
index 5e3a9b3..b7944c6 100644
--- a/src/network.c
+++ b/src/network.c
@@ -590,7 +590,7 @@ gboolean network_forward_line(struct irc_network *s, struct irc_client *c,
 		}
 	}
 
-	return network_send_line(s, NULL, l);
+	return network_send_line(s, c, l);
 }
 
 #define LINESTACK_README_CONTENTS  \
-- 
2.43.0


From 56e711fe58b568ce0d7021840bb22a1d4a459988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:48 +0000
Subject: [PATCH 114/147] fix: make help topics of more than one word available

---
 src/admin.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index cd31331..b223802 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -105,17 +105,23 @@ static void network_admin_out(admin_handle h, const char *data)
 static void cmd_help(admin_handle h, const char * const *args, void *userdata)
 {
 	const char *s;
+	char *topic;
 
-	s = help_get(help, args[1] != NULL?args[1]:"index");
+	/* Some topics consist of more than one word */
+	topic = args[1] != NULL?g_strjoinv(" ", (char **)&args[1]):NULL;
+
+	s = help_get(help, topic != NULL?topic:"index");
 
 	if (s == NULL) {
-		if (args[1] == NULL) {
+		if (topic == NULL) {
 			admin_out(h, "Sorry, help not available");
 		} else {
-			admin_out(h, "Sorry, no help for %s available", args[1]);
+			admin_out(h, "Sorry, no help for %s available", topic);
 		}
+		g_free(topic);
 		return;
 	}
+	g_free(topic);
 
 	while (strncmp(s, "%\n", 2) != 0) {
 		char *tmp;
-- 
2.43.0


From 015455202acd5820dd5babbe52a7cd73029a3912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:49 +0000
Subject: [PATCH 115/147] fix: ECHO repeats all of the specified text

---
 src/admin.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/admin.c b/src/admin.c
index b223802..7fd0eac 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -739,7 +739,10 @@ static void cmd_charset(admin_handle h, const char * const *args, void *userdata
 
 static void cmd_echo(admin_handle h, const char * const *args, void *userdata)
 {
-	admin_out(h, "%s", args[1] != NULL?args[1]:"");
+	char *text = args[1] != NULL?g_strjoinv(" ", (char **)&args[1]):NULL;
+
+	admin_out(h, "%s", text != NULL?text:"");
+	g_free(text);
 }
 
 static gint cmp_cmd(gconstpointer a, gconstpointer b)
-- 
2.43.0


From 549921def48a133c132064b8d87b601592ade06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:50 +0000
Subject: [PATCH 116/147] fix: Bind to the configured address also on hosts
 with only loopback addresses

---
 libirc/connection.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/libirc/connection.c b/libirc/connection.c
index cd7c236..bac4149 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -363,9 +363,6 @@ static gboolean bindsock(struct irc_network *s,
 	memset(&hints_bind, 0, sizeof(hints_bind));
 	hints_bind.ai_family = res->ai_family;
 
-#ifdef AI_ADDRCONFIG
-	hints_bind.ai_flags = AI_ADDRCONFIG;
-#endif
 
 	hints_bind.ai_socktype = res->ai_socktype;
 	hints_bind.ai_protocol = res->ai_protocol;
-- 
2.43.0


From b855097a73fca12482dd6f0b9044769e8c2e6e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:29 +0000
Subject: [PATCH 117/147] fix: Tell a client that its command was not sent
 while connecting to the server

---
 src/client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client.c b/src/client.c
index f910f88..ae9ff98 100644
--- a/src/client.c
+++ b/src/client.c
@@ -124,7 +124,7 @@ static gboolean process_from_client(struct irc_client *c, const struct irc_line
 			 * to the server, though unlikely to occur often */
 			network_forward_line(c->network, c, l, FALSE);
 		}
-	} else if (c->network->connection.state == NETWORK_CONNECTION_STATE_NOT_CONNECTED) {
+	} else {
 		char *msg;
 		if (c->network->connection.data.tcp.last_disconnect_reason == NULL) {
 			msg = g_strdup("Currently not connected to server...");
-- 
2.43.0


From 9dc213b266fa9eaf73c42f95b80822b3776a516a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:30 +0000
Subject: [PATCH 118/147] fix: Tell clients about user modes that are gone
 after a reconnect

---
 libirc/client.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/libirc/client.c b/libirc/client.c
index 9a32596..0f07a54 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -667,6 +667,27 @@ gboolean client_send_state(struct irc_client *c, struct irc_network_state *state
 		}
 	}
 
+	/* Modes that are no longer set, e.g. because the connection was lost */
+	if (c->state != NULL) {
+		irc_modes_t removed;
+		int i;
+
+		for (i = 0; i < MAXMODES; i++) {
+			removed[i] = c->state->me.modes[i] && !state->me.modes[i];
+		}
+
+		mode = mode2string(removed);
+		if (mode != NULL) {
+			mode[0] = '-';
+			ret = client_send_args_ex(c, state->me.nick, "MODE", state->me.nick, mode, NULL);
+		}
+		g_free(mode);
+
+		if (!ret) {
+			return FALSE;
+		}
+	}
+
 	mode = mode2string(state->me.modes);
 	if (mode != NULL) {
 		ret = client_send_args_ex(c, state->me.nick, "MODE", state->me.nick, mode, NULL);
-- 
2.43.0


From 655307e92c1ce3d521318c02914038d66a9d2dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:31 +0000
Subject: [PATCH 119/147] fix: Send the names list as a single argument, so the
 state of the client is right too

---
 libirc/client.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/libirc/client.c b/libirc/client.c
index 0f07a54..cf86c05 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -753,6 +753,22 @@ gboolean client_send_topic(struct irc_client *c, struct irc_channel_state *ch,
 	return TRUE;
 }
 
+/* Send names that were collected as separate arguments as what they are: a
+ * single argument, which is also how the client's state is to see them. */
+static gboolean client_send_names_line(struct irc_client *c, struct irc_line *l)
+{
+	gboolean ret;
+	char *names = g_strjoinv(" ", l->args+4);
+	struct irc_line *nl = irc_parse_line_args(l->origin, l->args[0],
+						l->args[1], l->args[2], l->args[3],
+						names, NULL);
+	nl->has_endcolon = WITH_COLON;
+	ret = client_send_line(c, nl, NULL);
+	free_line(nl);
+	g_free(names);
+	return ret;
+}
+
 gboolean client_send_nameslist(struct irc_client *c, struct irc_channel_state *ch)
 {
 	GList *nl;
@@ -784,23 +800,19 @@ gboolean client_send_nameslist(struct irc_client *c, struct irc_channel_state *c
 		ret = TRUE;
 
 		if (l == NULL || !line_add_arg(l, arg)) {
-			char *tmp;
 			if (l != NULL) {
-				ret = client_send_line(c, l, NULL);
+				ret = client_send_names_line(c, l);
 				free_line(l);
 			}
 
 			l = irc_parse_line_args(c->default_origin, "353",
 						client_get_default_target(c),
 						mode, ch->name, NULL);
-			l->has_endcolon = WITHOUT_COLON;
-			tmp = g_strdup_printf(":%s", arg);
-			if (!line_add_arg(l, tmp)) {
+			if (!line_add_arg(l, arg)) {
 				client_log(LOG_WARNING, c, "Name too long for names list: %s", arg);
 				free_line(l);
 				l = NULL;
 			}
-			g_free(tmp);
 		}
 
 		g_free(arg);
@@ -811,7 +823,7 @@ gboolean client_send_nameslist(struct irc_client *c, struct irc_channel_state *c
 	}
 
 	if (l != NULL) {
-		ret = client_send_line(c, l, NULL);
+		ret = client_send_names_line(c, l);
 		free_line(l);
 		if (!ret) {
 			return FALSE;
-- 
2.43.0


From 01f11db866e5c8cbf99d2c8ac8dfef5cce0054d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:11 +0000
Subject: [PATCH 120/147] fix: Keep the users of the daemon inside its
 configuration directory

---
 daemon/user.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/daemon/user.c b/daemon/user.c
index 93d6476..c3189ea 100644
--- a/daemon/user.c
+++ b/daemon/user.c
@@ -50,9 +50,16 @@ void daemon_user_free(struct daemon_user *user)
 
 struct daemon_user *get_daemon_user(struct ctrlproxyd_config *config, const char *username)
 {
-	struct daemon_user *user = g_new0(struct daemon_user, 1);
+	struct daemon_user *user;
 	struct passwd *pwd;
 
+	/* The name becomes part of paths */
+	if (username == NULL || username[0] == '\0' || strchr(username, '/') != NULL ||
+		!strcmp(username, ".") || !strcmp(username, "..")) {
+		return NULL;
+	}
+
+	user = g_new0(struct daemon_user, 1);
 	user->username = g_strdup(username);
 	user->child_watch = -1;
 
@@ -160,7 +167,8 @@ void foreach_daemon_user(struct ctrlproxyd_config *config, struct irc_listener *
 		setpwent();
 		while ((pwent = getpwent()) != NULL) {
 			user = get_daemon_user(config, pwent->pw_name);
-			fn(user, config->ctrlproxy_path, listener);
+			if (user != NULL)
+				fn(user, config->ctrlproxy_path, listener);
 		}
 		endpwent();
 	} else {
@@ -170,7 +178,8 @@ void foreach_daemon_user(struct ctrlproxyd_config *config, struct irc_listener *
 			return;
 		while ((name = g_dir_read_name(dir)) != NULL) {
 			user = get_daemon_user(config, name);
-			fn(user, config->ctrlproxy_path, listener);
+			if (user != NULL)
+				fn(user, config->ctrlproxy_path, listener);
 		}
 		g_dir_close(dir);
 	}
-- 
2.43.0


From ce2cbb5996d72d6d2f5bee53b23671f9549cd288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:11 +0000
Subject: [PATCH 121/147] fix: Start proxies of users that only have a
 directory in the daemon

---
 daemon/user.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daemon/user.c b/daemon/user.c
index c3189ea..03f3e6d 100644
--- a/daemon/user.c
+++ b/daemon/user.c
@@ -92,6 +92,11 @@ struct spawn_data {
 static void user_setup(gpointer user_data)
 {
 	struct spawn_data *data = user_data;
+
+	/* Users that only have a directory run as the daemon does */
+	if (data->user->uid == (uid_t)-1)
+		return;
+
 	if (setuid(data->user->uid) < 0) {
 		listener_log(LOG_WARNING, data->listener, "Unable to change effective user id to %s (%d): %s",
 					 data->user->username, data->user->uid,
-- 
2.43.0


From 564e8f051d8ac13f938680a0cbbcfa7169d81e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:12 +0000
Subject: [PATCH 122/147] fix: Survive failing writes in the daemon

---
 daemon/backend.c | 12 +++++++++++-
 daemon/backend.h |  1 +
 daemon/main.c    | 11 ++++++++++-
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/daemon/backend.c b/daemon/backend.c
index d1fa6de..6b2ff10 100644
--- a/daemon/backend.c
+++ b/daemon/backend.c
@@ -75,9 +75,18 @@ static void charset_error_not_called(struct irc_transport *transport, const char
 	g_assert_not_reached();
 }
 
+static void daemon_backend_log_error(struct irc_transport *transport, const struct irc_line *line, const GError *error)
+{
+	struct daemon_backend *backend = transport->userdata;
+
+	listener_log(LOG_WARNING, backend->listener, "Error sending line '%s' to backend: %s",
+				 (line != NULL)?line->args[0]:"",
+				 (error != NULL)?error->message:"unknown");
+}
+
 static const struct irc_transport_callbacks daemon_backend_callbacks = {
 	.hangup = irc_transport_disconnect,
-	.log = NULL,
+	.log = daemon_backend_log_error,
 	.disconnect = on_daemon_backend_disconnect,
 	.recv = daemon_backend_recv,
 	.charset_error = charset_error_not_called,
@@ -122,6 +131,7 @@ struct daemon_backend *daemon_backend_open(const char *socketpath,
 
 	backend->userdata = userdata;
 	backend->callbacks = callbacks;
+	backend->listener = listener;
 
 	return backend;
 }
diff --git a/daemon/backend.h b/daemon/backend.h
index 188059e..138a851 100644
--- a/daemon/backend.h
+++ b/daemon/backend.h
@@ -30,6 +30,7 @@ struct daemon_backend {
 	void (*pass_check_cb) (struct daemon_backend *backend, gboolean accepted);
 	gpointer pass_check_data;
 	gpointer userdata;
+	struct irc_listener *listener;
 	const struct daemon_backend_callbacks *callbacks;
 };
 
diff --git a/daemon/main.c b/daemon/main.c
index 655caf9..593fb48 100644
--- a/daemon/main.c
+++ b/daemon/main.c
@@ -190,6 +190,15 @@ static void on_daemon_client_disconnect(struct irc_transport *transport)
 	daemon_client_kill(cd);
 }
 
+static void daemon_client_log_error(struct irc_transport *transport, const struct irc_line *line, const GError *error)
+{
+	struct daemon_client *dc = transport->userdata;
+
+	listener_log(LOG_WARNING, dc->listener, "Error sending line '%s' to client %s: %s",
+				 (line != NULL)?line->args[0]:"", dc->description,
+				 (error != NULL)?error->message:"unknown");
+}
+
 static gboolean daemon_client_error(struct irc_transport *transport, const char *message)
 {
 	struct daemon_client *dc = transport->userdata;
@@ -199,7 +208,7 @@ static gboolean daemon_client_error(struct irc_transport *transport, const char
 
 static const struct irc_transport_callbacks daemon_client_callbacks = {
 	.hangup = irc_transport_disconnect,
-	.log = NULL,
+	.log = daemon_client_log_error,
 	.disconnect = on_daemon_client_disconnect,
 	.recv = daemon_client_recv,
 	.charset_error = charset_error_not_called,
-- 
2.43.0


From 9e6b8c27c480be1ba5b683afd6cfa6ae07b0e50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:13 +0000
Subject: [PATCH 123/147] fix: Survive unexpected and incomplete answers from a
 proxy in the daemon

---
 daemon/backend.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/daemon/backend.c b/daemon/backend.c
index 6b2ff10..d179acf 100644
--- a/daemon/backend.c
+++ b/daemon/backend.c
@@ -41,23 +41,24 @@ static gboolean daemon_backend_recv(struct irc_transport *transport, const struc
 		gboolean ok;
 		if (irc_line_respcode(line) == ERR_PASSWDMISMATCH) {
 			ok = FALSE;
-		} else if (!strcmp(line->args[0], "NOTICE") &&
+		} else if (line->argc > 2 &&
+				   !strcmp(line->args[0], "NOTICE") &&
 				   !strcmp(line->args[1], "AUTH") &&
 				   !strcmp(line->args[2], "PASS OK")) {
 			ok = TRUE;
 		} else {
 			char *msg = g_strdup_printf("Unexpected response %s", line->args[0]);
-			if (!backend->callbacks->error(backend, msg))
-				return FALSE;
+			backend->callbacks->error(backend, msg);
 			g_free(msg);
-			ok = FALSE;
+			return FALSE;
 		}
+		backend->authenticated = ok;
 		if (backend->pass_check_cb != NULL) {
 			backend->pass_check_cb(backend, ok);
 			backend->pass_check_cb = NULL;
 		}
-		backend->authenticated = ok;
-		return TRUE;
+		/* The connection is not there anymore if the password was refused */
+		return ok;
 	} else {
 		return backend->callbacks->recv(backend, line);
 	}
-- 
2.43.0


From 61126e1f44a1ecb107d29f706827e4420de0e56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:14 +0000
Subject: [PATCH 124/147] fix: Answer requests of SOCKS clients to the daemon
 with the whole host name and nothing else

---
 daemon/main.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/daemon/main.c b/daemon/main.c
index 593fb48..aa6813d 100644
--- a/daemon/main.c
+++ b/daemon/main.c
@@ -329,6 +329,7 @@ static gboolean daemon_socks_connect_fqdn (struct pending_client *cl, const char
 	struct daemon_client *cd = cl->private_data;
 	char portstr[20];
 	char data[0x200];
+	guint8 len;
 
 	/* Only called after authentication */
 
@@ -341,12 +342,12 @@ static gboolean daemon_socks_connect_fqdn (struct pending_client *cl, const char
 	snprintf(portstr, sizeof(portstr), "%d", port);
 	transport_send_args(cd->backend->transport, NULL, "CONNECT", hostname, portstr, NULL);
 
-	g_assert(strlen(hostname) < 0x100);
+	/* The address in the reply, including its length, is at most 255 bytes */
+	len = MIN(strlen(hostname), 0xfe);
+	data[0] = len;
+	memcpy(data+1, hostname, len);
 
-	data[0] = strlen(hostname);
-	strncpy(data+1, hostname, data[0]);
-
-	listener_socks_reply(cl, REP_OK, ATYP_FQDN, strlen(hostname)+2, data, port);
+	listener_socks_reply(cl, REP_OK, ATYP_FQDN, len+1, data, port);
 	return FALSE;
 }
 
-- 
2.43.0


From b00be78770f395a7c5f01c6f8610f0897cbd4ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:17 +0000
Subject: [PATCH 125/147] fix: Survive SOCKS clients of the daemon that leave
 or are refused while logging in

---
 daemon/client.c   |  7 +++++++
 daemon/main.c     | 27 +++++++++++++++++++++++++--
 libirc/listener.c |  3 +++
 libirc/listener.h |  2 ++
 4 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/daemon/client.c b/daemon/client.c
index b4b04cc..0e561d9 100644
--- a/daemon/client.c
+++ b/daemon/client.c
@@ -21,6 +21,7 @@
 #include "config.h"
 #endif
 #include <pwd.h>
+#include <sys/socket.h>
 #include "internals.h"
 #include "daemon/daemon.h"
 #include "daemon/client.h"
@@ -38,6 +39,12 @@ void daemon_client_kill(struct daemon_client *dc)
 
 	dc->freed = TRUE;
 
+	if (dc->pending_client != NULL) {
+		/* Still logging in. The listener notices that it is gone. */
+		dc->pending_client->private_data = NULL;
+		shutdown(g_io_channel_unix_get_fd(dc->pending_client->connection), SHUT_RDWR);
+	}
+
 	if (dc->backend != NULL) {
 		daemon_backend_kill(dc->backend);
 	}
diff --git a/daemon/main.c b/daemon/main.c
index aa6813d..946019b 100644
--- a/daemon/main.c
+++ b/daemon/main.c
@@ -307,7 +307,8 @@ static void daemon_backend_pass_checked(struct daemon_backend *backend, gboolean
 {
 	struct daemon_client *cd = backend->userdata;
 
-	cd->socks_accept_fn(cd->pending_client, accepted);
+	if (!cd->socks_accept_fn(cd->pending_client, accepted))
+		daemon_client_kill(cd);
 }
 
 
@@ -315,7 +316,11 @@ static gboolean daemon_socks_auth_simple(struct pending_client *cl, const char *
 										 gboolean (*on_finished) (struct pending_client *, gboolean))
 {
 	struct daemon_client *cd = cl->private_data;
-	
+
+	/* Gone, or already waiting for an answer */
+	if (cd == NULL || cd->backend != NULL)
+		return FALSE;
+
 	if (!daemon_client_connect_backend(cd, cl, username))
 		return FALSE;
 
@@ -331,6 +336,9 @@ static gboolean daemon_socks_connect_fqdn (struct pending_client *cl, const char
 	char data[0x200];
 	guint8 len;
 
+	if (cd == NULL)
+		return FALSE;
+
 	/* Only called after authentication */
 
 	cd->description = g_io_channel_ip_get_description(cl->connection);
@@ -422,7 +430,22 @@ static void daemon_new_client(struct pending_client *pc)
 	cd->inetd = inetd;
 }
 
+static void daemon_pending_client_gone(struct pending_client *pc)
+{
+	struct daemon_client *cd = pc->private_data;
+
+	if (cd == NULL)
+		return;
+
+	cd->pending_client = NULL;
+
+	/* Nobody is there to wait for the backend */
+	if (cd->client_transport == NULL)
+		daemon_client_kill(cd);
+}
+
 struct irc_listener_ops daemon_ops = {
+	.pending_client_gone = daemon_pending_client_gone,
 	.new_client = daemon_new_client,
 	.socks_auth_simple = daemon_socks_auth_simple,
 	.socks_connect_fqdn = daemon_socks_connect_fqdn,
diff --git a/libirc/listener.c b/libirc/listener.c
index 63faadb..9f32232 100644
--- a/libirc/listener.c
+++ b/libirc/listener.c
@@ -59,6 +59,9 @@ static gboolean kill_pending_client(struct pending_client *pc)
 
 	pc->listener->pending = g_list_remove(pc->listener->pending, pc);
 
+	if (pc->listener->ops->pending_client_gone)
+		pc->listener->ops->pending_client_gone(pc);
+
 	g_source_remove(pc->watch_id);
 
 #ifdef HAVE_GSSAPI
diff --git a/libirc/listener.h b/libirc/listener.h
index cf50a16..b73db8f 100644
--- a/libirc/listener.h
+++ b/libirc/listener.h
@@ -27,6 +27,8 @@ struct pending_client;
 struct irc_listener_ops {
 	/* Signal a new client has connected. */
 	void (*new_client) (struct pending_client *pc);
+	/* A pending client is about to be freed */
+	void (*pending_client_gone) (struct pending_client *pc);
 	/* Forward line from unaccepted pending client */
 	gboolean (*handle_client_line) (struct pending_client *pc, const struct irc_line *l);
 	/* Check authentication + authorization of a socks client by password */
-- 
2.43.0


From 8a460780593d93a6ae0805f5adb9b1f0bcb029ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:18 +0000
Subject: [PATCH 126/147] fix: Close connections to proxies in the daemon when
 they are not used anymore

---
 daemon/backend.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/daemon/backend.c b/daemon/backend.c
index d179acf..4c3860d 100644
--- a/daemon/backend.c
+++ b/daemon/backend.c
@@ -118,6 +118,7 @@ struct daemon_backend *daemon_backend_open(const char *socketpath,
 	backend = g_new0(struct daemon_backend, 1);
 	ch = g_io_channel_unix_new(sock);
 
+	g_io_channel_set_close_on_unref(ch, TRUE);
 	g_io_channel_set_encoding(ch, NULL, NULL);
 	g_io_channel_set_flags(ch, G_IO_FLAG_NONBLOCK, NULL);
 
-- 
2.43.0


From 27f0e3fc94ce51e9bbc3d5346f155c9999a2dbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:18 +0000
Subject: [PATCH 127/147] fix: Do not use a user that is gone when its proxy
 ends in the daemon

---
 daemon/user.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/daemon/user.c b/daemon/user.c
index 03f3e6d..02beda4 100644
--- a/daemon/user.c
+++ b/daemon/user.c
@@ -37,10 +37,20 @@ gboolean daemon_user_running(struct daemon_user *user)
 	return (user->pid != -1);
 }
 
+static void daemon_user_reap(GPid pid, gint status, gpointer data)
+{
+	g_spawn_close_pid(pid);
+}
+
 void daemon_user_free(struct daemon_user *user)
 {
 	if (user == NULL)
 		return;
+	if (user->child_watch != -1) {
+		/* The process may well outlive this */
+		g_source_remove(user->child_watch);
+		g_child_watch_add(user->pid, daemon_user_reap, NULL);
+	}
 	g_free(user->pidpath);
 	g_free(user->socketpath);
 	g_free(user->configdir);
-- 
2.43.0


From a3cc1ca469d6a883dbdb7c54b0b547613f97c1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:19 +0000
Subject: [PATCH 128/147] fix: Do not start proxies for users that do not exist
 in the daemon

---
 daemon/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/main.c b/daemon/main.c
index 946019b..d444b90 100644
--- a/daemon/main.c
+++ b/daemon/main.c
@@ -282,7 +282,7 @@ static gboolean daemon_client_connect_backend(struct daemon_client *cd, struct p
 {
 	daemon_user_free(cd->user);
 	cd->user = get_daemon_user(cd->config, username);
-	if (cd->user == NULL) {
+	if (cd->user == NULL || !daemon_user_exists(cd->user)) {
 		listener_log(LOG_INFO, cd->listener, "Unable to find user %s", username);
 		irc_sendf(cl->connection, cl->listener->iconv, NULL, "ERROR :Unknown user %s", username);
 		return FALSE;
-- 
2.43.0


From 1b11db25c4384e9cfb0b77ed4aef1125272d6133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:20 +0000
Subject: [PATCH 129/147] fix: Survive a CONNECT without a port in the daemon

---
 daemon/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/main.c b/daemon/main.c
index d444b90..82e61be 100644
--- a/daemon/main.c
+++ b/daemon/main.c
@@ -384,7 +384,7 @@ static gboolean handle_client_line(struct pending_client *pc, const struct irc_l
 		cd->login_details->password = g_strdup(l->args[1]);
 	} else if (!base_strcmp(l->args[0], "CONNECT")) {
 		cd->servername = g_strdup(l->args[1]);
-		cd->servicename = g_strdup(l->args[2]);
+		cd->servicename = (l->argc > 2)?g_strdup(l->args[2]):NULL;
 	} else if (!base_strcmp(l->args[0], "USER") && l->argc > 4) {
 		cd->login_details->username = g_strdup(l->args[1]);
 		cd->login_details->mode = g_strdup(l->args[2]);
-- 
2.43.0


From ea8809ee26f36f633847518fba98fdc4887557df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:21 +0000
Subject: [PATCH 130/147] fix: Do not hang in the daemon when ended by a signal

---
 daemon/main.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/daemon/main.c b/daemon/main.c
index 82e61be..210b1fa 100644
--- a/daemon/main.c
+++ b/daemon/main.c
@@ -24,6 +24,7 @@
 #include "irc.h"
 #include <stdio.h>
 #include <glib/gstdio.h>
+#include <glib-unix.h>
 #define BACKTRACE_STACK_SIZE 64
 
 #ifdef HAVE_EXECINFO_H
@@ -158,11 +159,14 @@ void signal_crash(int sig)
 	abort();
 }
 
-void signal_quit(int sig)
+/* Called from the main loop, which may not be touched from a signal handler */
+static gboolean signal_quit(gpointer sig)
 {
-	listener_log(LOG_NOTICE, daemon_listener, "Received signal %d, exiting...", sig);
+	listener_log(LOG_NOTICE, daemon_listener, "Received signal %d, exiting...", GPOINTER_TO_INT(sig));
 
 	g_main_loop_quit(main_loop);
+
+	return TRUE;
 }
 
 
@@ -482,8 +486,8 @@ int main(int argc, char **argv)
 	GError *error = NULL;
 	daemon_listener = g_new0(struct irc_listener, 1);
 
-	signal(SIGINT, signal_quit);
-	signal(SIGTERM, signal_quit);
+	g_unix_signal_add(SIGINT, signal_quit, GINT_TO_POINTER(SIGINT));
+	g_unix_signal_add(SIGTERM, signal_quit, GINT_TO_POINTER(SIGTERM));
 #ifdef SIGPIPE
 	signal(SIGPIPE, SIG_IGN);
 #endif
-- 
2.43.0


From 3120dccc90a1d68ddfaf7edba162f73f97ff57a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:23 +0000
Subject: [PATCH 131/147] fix: Handle signals from the main loop rather than in
 the handler

---
 src/main.c | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/src/main.c b/src/main.c
index 113da0e..54352f4 100644
--- a/src/main.c
+++ b/src/main.c
@@ -22,6 +22,7 @@
 #endif
 #include "internals.h"
 #include <glib/gstdio.h>
+#include <glib-unix.h>
 
 #define BACKTRACE_STACK_SIZE 64
 
@@ -52,7 +53,7 @@ void register_hup_handler(hup_handler_fn fn, void *userdata)
 	hup_handlers = g_list_append(hup_handlers, hh);
 }
 
-static void signal_hup(int sig)
+static gboolean signal_hup(gpointer data)
 {
 	GList *gl;
 	char *logfile;
@@ -63,6 +64,8 @@ static void signal_hup(int sig)
 
 		hh->fn(hh->userdata);
 	}
+
+	return TRUE;
 }
 
 char *pid_file(struct global *global)
@@ -131,21 +134,15 @@ static void clean_exit()
 	g_main_loop_unref(main_loop);
 }
 
-static void signal_quit(int sig)
+static gboolean signal_quit(gpointer data)
 {
-	static int state = 0;
-	log_global(LOG_WARNING, "Received signal %d, quitting...", sig);
-	if (state == 1) {
-		signal(SIGINT, SIG_IGN);
-		exit(0);
-	}
-
-	state = 1;
+	log_global(LOG_WARNING, "Received signal %d, quitting...",
+			   GPOINTER_TO_INT(data));
 
 	exit(0);
 }
 
-static void signal_save(int sig)
+static gboolean signal_save(gpointer data)
 {
 	log_global(LOG_INFO, "Received USR1 signal, saving configuration...");
 
@@ -153,7 +150,7 @@ static void signal_save(int sig)
 		if (g_mkdir(my_global->config->config_dir, 0700) != 0) {
 			log_global(LOG_ERROR, "Can't create config directory '%s': %s",
 					   my_global->config->config_dir, strerror(errno));
-			return;
+			return TRUE;
 		}
 	}
 
@@ -161,6 +158,8 @@ static void signal_save(int sig)
 	global_update_config(my_global);
 	save_configuration(my_global->config, my_global->config->config_dir);
 	nickserv_save(my_global, my_global->config->config_dir);
+
+	return TRUE;
 }
 
 int main(int argc, char **argv)
@@ -206,20 +205,12 @@ int main(int argc, char **argv)
 	};
 	GError *error = NULL;
 
-	signal(SIGINT, signal_quit);
-	signal(SIGTERM, signal_quit);
 #ifdef SIGPIPE
 	signal(SIGPIPE, SIG_IGN);
 #endif
-#ifdef SIGHUP
-	signal(SIGHUP, signal_hup);
-#endif
 #ifdef SIGSEGV
 	signal(SIGSEGV, signal_crash);
 #endif
-#ifdef SIGUSR1
-	signal(SIGUSR1, signal_save);
-#endif
 
 	main_loop = g_main_loop_new(NULL, FALSE);
 
@@ -367,6 +358,13 @@ int main(int argc, char **argv)
 #endif
 	}
 
+	/* Handled from the main loop: what they do is not safe in the middle
+	 * of something else */
+	g_unix_signal_add(SIGINT, signal_quit, GINT_TO_POINTER(SIGINT));
+	g_unix_signal_add(SIGTERM, signal_quit, GINT_TO_POINTER(SIGTERM));
+	g_unix_signal_add(SIGHUP, signal_hup, NULL);
+	g_unix_signal_add(SIGUSR1, signal_save, NULL);
+
 	log_global(LOG_INFO, "CtrlProxy %s (pid %d) starting", VERSION, getpid());
 
 	write_pidfile(pidfile);
-- 
2.43.0


From e6e80607ae54163d2ed785785419f1c25b1c43f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:23 +0000
Subject: [PATCH 132/147] fix: Do not crash when the configuration cannot be
 loaded

---
 src/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 54352f4..53e4d88 100644
--- a/src/main.c
+++ b/src/main.c
@@ -302,7 +302,8 @@ int main(int argc, char **argv)
 		g_free(rcfile);
 	} else {
 		my_global = load_global(config_dir, from_sourcedir);
-		my_global->restricted = restricted;
+		if (my_global != NULL)
+			my_global->restricted = restricted;
 	}
 	g_free(config_dir);
 	g_free(tmp);
-- 
2.43.0


From 57a0df25785372b828ce0864747c6d1e88eae01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:24 +0000
Subject: [PATCH 133/147] fix: Reopen the log file that is in use on SIGHUP

---
 src/log.c  | 12 ++++++++++--
 src/main.c |  4 +---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/log.c b/src/log.c
index d67fc89..f5844fc 100644
--- a/src/log.c
+++ b/src/log.c
@@ -128,7 +128,7 @@ static void log_handler(const gchar *log_domain, GLogLevelFlags flags, const gch
 static void fini_log(void)
 {
 	log_global(LOG_INFO, "Closing log file");
-	if (flog != stderr) {
+	if (flog != NULL && flog != stderr) {
 		fclose(flog);
 	}
 	flog = NULL;
@@ -136,6 +136,8 @@ static void fini_log(void)
 
 gboolean init_log(const char *lf)
 {
+	static gboolean registered = FALSE;
+
 	g_log_set_handler ("GLib", G_LOG_LEVEL_MASK | G_LOG_FLAG_FATAL | G_LOG_FLAG_RECURSION, log_handler, NULL);
 
 	if (!lf) {
@@ -143,13 +145,19 @@ gboolean init_log(const char *lf)
 		return TRUE;
 	}
 
+	/* Reopening */
+	if (flog != NULL && flog != stderr)
+		fclose(flog);
+
 	flog = fopen(lf, "a+");
 	if (!flog) {
 		perror("Opening log file");
 		return FALSE;
 	}
 
-	atexit(fini_log);
+	if (!registered)
+		atexit(fini_log);
+	registered = TRUE;
 
 	log_global(LOG_INFO, "Opening log file");
 	return TRUE;
diff --git a/src/main.c b/src/main.c
index 53e4d88..4a64520 100644
--- a/src/main.c
+++ b/src/main.c
@@ -36,6 +36,7 @@
 
 /* globals */
 static GMainLoop *main_loop;
+static char *logfile = NULL;
 extern char my_hostname[];
 extern struct global *my_global;
 extern help_t *help;
@@ -56,8 +57,6 @@ void register_hup_handler(hup_handler_fn fn, void *userdata)
 static gboolean signal_hup(gpointer data)
 {
 	GList *gl;
-	char *logfile;
-	logfile = g_build_filename(my_global->config->config_dir, "log", NULL);
 	init_log(logfile);
 	for (gl = hup_handlers; gl; gl = gl->next) {
 		struct hup_handler *hh = gl->data;
@@ -165,7 +164,6 @@ static gboolean signal_save(gpointer data)
 int main(int argc, char **argv)
 {
 	int isdaemon = 0;
-	char *logfile = NULL;
 	extern enum log_level current_log_level;
 	extern gboolean no_log_timestamp;
 	char *config_dir = NULL;
-- 
2.43.0


From c0cacd195189ef4d660677d45440521c818bdcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:25 +0000
Subject: [PATCH 134/147] fix: Save nicks and joined channels on exit with
 autosave

---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index 4a64520..6593894 100644
--- a/src/main.c
+++ b/src/main.c
@@ -122,6 +122,7 @@ static void clean_exit()
 
 	config_save_notify(my_global, path);
 	if (my_global->config->autosave) {
+		global_update_config(my_global);
 		save_configuration(my_global->config, path);
 		nickserv_save(my_global, path);
 	}
-- 
2.43.0


From a17738619a7fc700886a602fd77b2090a6de3714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:26 +0000
Subject: [PATCH 135/147] fix: Do not exit again from within the exit handler

---
 src/main.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index 6593894..9869266 100644
--- a/src/main.c
+++ b/src/main.c
@@ -37,6 +37,7 @@
 /* globals */
 static GMainLoop *main_loop;
 static char *logfile = NULL;
+static struct irc_client *stdio_client = NULL;
 extern char my_hostname[];
 extern struct global *my_global;
 extern help_t *help;
@@ -106,6 +107,11 @@ static void signal_crash(int sig)
 static void clean_exit()
 {
 	char *path;
+
+	/* Exiting already */
+	if (stdio_client != NULL)
+		stdio_client->exit_on_close = FALSE;
+
 	kill_pending_clients("Server exiting");
 
 	g_main_loop_quit(main_loop);
@@ -387,7 +393,6 @@ int main(int argc, char **argv)
 	if (inetd_client) {
 		GIOChannel *io = g_io_channel_unix_new(0);
 		struct irc_network *n;
-		struct irc_client *client;
 
 		if (!strcmp(inetd_client, "")) {
 			n = NULL;
@@ -401,8 +406,9 @@ int main(int argc, char **argv)
 			}
 		}
 
-		client = client_init_iochannel(n, io, "Standard I/O");
-		client->exit_on_close = TRUE;
+		stdio_client = client_init_iochannel(n, io, "Standard I/O");
+		if (stdio_client != NULL)
+			stdio_client->exit_on_close = TRUE;
 	}
 
 	g_main_loop_run(main_loop);
-- 
2.43.0


From 648407ff6d543e3065ea7f97f62c527752831d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:03 +0000
Subject: [PATCH 136/147] fix: Use the address, network and absence of a
 password given to --init

---
 src/settings.c | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 0457b7c..d136d87 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -1806,7 +1806,8 @@ gboolean create_configuration(const char *config_dir, gboolean from_source)
 	struct global *global;
 	char port[250];
 	struct listener_config *l;
-	char *pass;
+	char *pass, *p;
+	GList *gl;
 
 	if (g_file_test(config_dir, G_FILE_TEST_IS_DIR)) {
 		fprintf(stderr, "%s already exists\n", config_dir);
@@ -1841,10 +1842,34 @@ gboolean create_configuration(const char *config_dir, gboolean from_source)
 
 	l = g_new0(struct listener_config, 1);
 	pass = getpass("Please specify a password for the administration interface: ");
-	l->port = port;
+	p = strrchr(port, ':');
+	if (p != NULL) {
+		if (p != port)
+			l->address = g_strndup(port, p-port);
+		l->port = g_strdup(p+1);
+	} else {
+		l->port = g_strdup(port);
+	}
 	l->is_default = TRUE;
-	if (!strcmp(pass, "")) {
+	for (gl = global->config->listeners; gl; gl = gl->next) {
+		struct listener_config *old = gl->data;
+
+		/* Takes the place of the one in the default configuration */
+		if (old->is_default) {
+			g_free(l->network);
+			l->network = g_strdup(old->network);
+		}
+	}
+	if (pass == NULL || !strcmp(pass, "")) {
 		fprintf(stderr, "Warning: no password specified. Authentication disabled!\n");
+		g_free(global->config->password);
+		global->config->password = NULL;
+		for (gl = global->config->listeners; gl; gl = gl->next) {
+			struct listener_config *old = gl->data;
+
+			g_free(old->password);
+			old->password = NULL;
+		}
 	} else {
 		l->password = g_strdup(pass);
 	}
-- 
2.43.0


From 504d6274773429690b6401e7e11f8cf4e9bcc48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:04 +0000
Subject: [PATCH 137/147] fix: Do not use sockets with a name too long, cut off

---
 src/admin.c    | 6 +++++-
 src/listener.c | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index 7fd0eac..e0ea9e2 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1945,7 +1945,11 @@ gboolean start_admin_socket(struct global *global)
 	}
 
 	un.sun_family = AF_UNIX;
-	g_strlcpy(un.sun_path, global->config->admin_socket, sizeof(un.sun_path));
+	if (g_strlcpy(un.sun_path, global->config->admin_socket, sizeof(un.sun_path)) >= sizeof(un.sun_path)) {
+		log_global(LOG_ERROR, "unable to bind to %s: name too long", global->config->admin_socket);
+		close(sock);
+		return FALSE;
+	}
 	unlink(un.sun_path);
 
 	if (bind(sock, (struct sockaddr *)&un, sizeof(un)) < 0) {
diff --git a/src/listener.c b/src/listener.c
index 89213f3..319359d 100644
--- a/src/listener.c
+++ b/src/listener.c
@@ -398,7 +398,12 @@ gboolean start_unix_domain_socket_listener(struct global *global)
 	}
 
 	un.sun_family = AF_UNIX;
-	strncpy(un.sun_path, global->config->network_socket, sizeof(un.sun_path));
+	if (g_strlcpy(un.sun_path, global->config->network_socket, sizeof(un.sun_path)) >= sizeof(un.sun_path)) {
+		log_global(LOG_ERROR, "unable to bind to %s: name too long", global->config->network_socket);
+		close(sock);
+		g_free(l);
+		return FALSE;
+	}
 	unlink(un.sun_path);
 
 	if (bind(sock, (struct sockaddr *)&un, sizeof(un)) < 0) {
-- 
2.43.0


From f947ea6496852686fbf06df2cbfcb8e5bd69bac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:05 +0000
Subject: [PATCH 138/147] fix: Survive a configuration without global section

---
 src/settings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/settings.c b/src/settings.c
index d136d87..c707e06 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -1703,7 +1703,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 
 	/* Check for unknown parameters */
 	keys = g_key_file_get_keys(kf, "global", NULL, NULL);
-	for (i = 0; keys[i] != NULL; i++) {
+	for (i = 0; keys != NULL && keys[i] != NULL; i++) {
 		if (!config_known_key(keys[i])) {
 			log_global(LOG_WARNING, "Unknown setting `%s' in configuration file", keys[i]);
 		}
-- 
2.43.0


From f3f9b8f41eadc89d207cb9f62468f4f23a01eeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:31 +0000
Subject: [PATCH 139/147] fix: Close the socket when an encrypted connection
 cannot be made

---
 libirc/connection.c | 3 +++
 libirc/gnutls.c     | 3 +++
 libirc/listener.c   | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/libirc/connection.c b/libirc/connection.c
index bac4149..d9e91f1 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -521,6 +521,8 @@ static gboolean connect_current_tcp_server(struct irc_network *s)
 	cs = s->connection.data.tcp.current_server;
 	if (cs->ssl) {
 #ifdef HAVE_GNUTLS
+		GIOChannel *plain = ioc;
+
 		g_io_channel_set_close_on_unref(ioc, TRUE);
 		g_io_channel_set_flags(ioc, G_IO_FLAG_NONBLOCK, NULL);
 
@@ -528,6 +530,7 @@ static gboolean connect_current_tcp_server(struct irc_network *s)
 								 s->connection.data.tcp.current_server->host,
 								 s->ssl_credentials
 								 );
+		g_io_channel_unref(plain);
 		if (!ioc) {
 			network_report_disconnect(s, "Couldn't connect via server %s:%s", cs->host, cs->port);
 			free_tcp_names(s);
diff --git a/libirc/gnutls.c b/libirc/gnutls.c
index c58c907..344eb54 100644
--- a/libirc/gnutls.c
+++ b/libirc/gnutls.c
@@ -444,6 +444,9 @@ ssl_wrap_iochannel (GIOChannel *sock, SSLType type,
 	gchan = (GIOChannel *) chan;
 	gchan->funcs = (GIOFuncs *) &gnutls_channel_funcs;
 	g_io_channel_init (gchan);
+	/* The socket is closed along with the new channel */
+	g_io_channel_set_close_on_unref (gchan, g_io_channel_get_close_on_unref (sock));
+	g_io_channel_set_close_on_unref (sock, FALSE);
 	gchan->is_readable = gchan->is_writeable = TRUE;
 
 	return gchan;
diff --git a/libirc/listener.c b/libirc/listener.c
index 9f32232..90e40e7 100644
--- a/libirc/listener.c
+++ b/libirc/listener.c
@@ -336,8 +336,11 @@ struct pending_client *listener_new_pending_client(struct irc_listener *listener
 
 	if (listener->ssl) {
 #ifdef HAVE_GNUTLS
+		GIOChannel *plain = c;
+
 		c = ssl_wrap_iochannel(c, SSL_TYPE_SERVER,
 							 NULL, listener->ssl_credentials);
+		g_io_channel_unref(plain);
 		g_assert(c != NULL);
 #else
 		listener_log(LOG_WARNING, listener, "SSL support not available, not listening for SSL connection");
-- 
2.43.0


From d3fe6d41130759b2777530aedb2ff9257a500e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:32 +0000
Subject: [PATCH 140/147] fix: Do not crash when there is no usable certificate
 for a listener

---
 libirc/gnutls.c |  5 +++++
 src/listener.c  | 13 +++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/libirc/gnutls.c b/libirc/gnutls.c
index 344eb54..f173115 100644
--- a/libirc/gnutls.c
+++ b/libirc/gnutls.c
@@ -548,6 +548,11 @@ ssl_get_server_credentials (const char *cert_file, const char *key_file)
 {
 	GNUTLSCred *cred;
 
+	if (cert_file == NULL || key_file == NULL) {
+		g_warning ("Need both an SSL certificate and a key file.");
+		return NULL;
+	}
+
 	if (!gnutls_inited)
 		_gnutls_init ();
 	if (!dh_params) {
diff --git a/src/listener.c b/src/listener.c
index 319359d..8303974 100644
--- a/src/listener.c
+++ b/src/listener.c
@@ -308,12 +308,19 @@ static struct irc_listener_ops default_listener_ops = {
 
 struct irc_listener *listener_init(struct global *global, struct listener_config *cfg)
 {
-	struct irc_listener *l = g_new0(struct irc_listener, 1);
+	struct irc_listener *l;
+
+	if (cfg->ssl && cfg->ssl_credentials == NULL) {
+		log_global(LOG_ERROR, "Unable to listen on %s:%s: no usable SSL certificate",
+				   cfg->address?cfg->address:"*", cfg->port);
+		return NULL;
+	}
+
+	l = g_new0(struct irc_listener, 1);
 
 	l->config = cfg;
 	l->ssl = cfg->ssl;
 	l->ssl_credentials = cfg->ssl_credentials;
-	g_assert(!l->ssl || l->ssl_credentials != NULL);
 	l->global = global;
 	l->ops = &default_listener_ops;
 	l->iconv = (GIConv)-1;
@@ -367,6 +374,8 @@ gboolean init_listeners(struct global *global)
 
 		if (l != NULL) {
 			ret &= listener_start_tcp(l, cfg->address, cfg->port);
+		} else {
+			ret = FALSE;
 		}
 	}
 	return ret;
-- 
2.43.0


From b9d1ecbbc7e221ad82a87de449d35a8b77083722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:34 +0000
Subject: [PATCH 141/147] fix: Handle what was decrypted already, and do not
 spin during the handshake

---
 libirc/gnutls.c | 108 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 105 insertions(+), 3 deletions(-)

diff --git a/libirc/gnutls.c b/libirc/gnutls.c
index f173115..ec6b815 100644
--- a/libirc/gnutls.c
+++ b/libirc/gnutls.c
@@ -41,6 +41,7 @@ typedef struct {
 	GNUTLSCred *cred;
 	char *hostname;
 	gboolean established;
+	gboolean handshaking;
 	SSLType type;
 } GNUTLSChannel;
 
@@ -142,6 +143,9 @@ do_handshake (GNUTLSChannel *chan, GError **err)
 again:
 	result = gnutls_handshake (chan->session);
 
+	chan->handshaking = (result == GNUTLS_E_AGAIN ||
+			     result == GNUTLS_E_INTERRUPTED);
+
 	if (result == GNUTLS_E_AGAIN ||
 	    result == GNUTLS_E_INTERRUPTED) {
 		if (GNUTLS_CHANNEL_NONBLOCKING (chan)) {
@@ -308,14 +312,112 @@ gnutls_close (GIOChannel  *channel,
 	return chan->real_sock->funcs->io_close (channel, err);
 }
 
+typedef struct {
+	GSource source;
+	GPollFD pollfd;
+	GNUTLSChannel *chan;
+	GIOCondition condition;
+} GNUTLSWatch;
+
+/* What can be read without the socket being readable */
+static GIOCondition
+gnutls_watch_buffered (GNUTLSWatch *watch)
+{
+	GIOCondition condition;
+
+	/* Nothing can be sent or read until the other side has answered */
+	if (watch->chan->handshaking)
+		return 0;
+
+	condition = g_io_channel_get_buffer_condition (&watch->chan->channel);
+	if (watch->chan->established &&
+	    gnutls_record_check_pending (watch->chan->session) > 0)
+		condition |= G_IO_IN;
+
+	return condition & watch->condition;
+}
+
+static gboolean
+gnutls_watch_prepare (GSource *source, gint *timeout)
+{
+	GNUTLSWatch *watch = (GNUTLSWatch *) source;
+
+	*timeout = -1;
+
+	if (watch->chan->handshaking)
+		watch->pollfd.events = G_IO_HUP | G_IO_ERR |
+			(gnutls_record_get_direction (watch->chan->session) ?
+			 G_IO_OUT : G_IO_IN);
+	else
+		watch->pollfd.events = watch->condition;
+
+	return gnutls_watch_buffered (watch) != 0;
+}
+
+static GIOCondition
+gnutls_watch_ready (GNUTLSWatch *watch)
+{
+	GIOCondition condition = watch->pollfd.revents;
+
+	if (watch->chan->handshaking && (condition & (G_IO_IN | G_IO_OUT)))
+		condition |= G_IO_IN | G_IO_OUT;
+
+	return (condition & watch->condition) | gnutls_watch_buffered (watch);
+}
+
+static gboolean
+gnutls_watch_check (GSource *source)
+{
+	return gnutls_watch_ready ((GNUTLSWatch *) source) != 0;
+}
+
+static gboolean
+gnutls_watch_dispatch (GSource *source, GSourceFunc callback, gpointer data)
+{
+	GNUTLSWatch *watch = (GNUTLSWatch *) source;
+	GIOFunc func = (GIOFunc) callback;
+
+	if (func == NULL) {
+		g_warning ("GIOChannel watch dispatched without callback");
+		return FALSE;
+	}
+
+	return func (&watch->chan->channel, gnutls_watch_ready (watch), data);
+}
+
+static void
+gnutls_watch_finalize (GSource *source)
+{
+	GNUTLSWatch *watch = (GNUTLSWatch *) source;
+
+	g_io_channel_unref (&watch->chan->channel);
+}
+
+static GSourceFuncs gnutls_watch_funcs = {
+	gnutls_watch_prepare,
+	gnutls_watch_check,
+	gnutls_watch_dispatch,
+	gnutls_watch_finalize
+};
+
 static GSource *
 gnutls_create_watch (GIOChannel   *channel,
 			  GIOCondition  condition)
 {
 	GNUTLSChannel *chan = (GNUTLSChannel *) channel;
-
-	return chan->real_sock->funcs->io_create_watch (channel,
-							condition);
+	GNUTLSWatch *watch;
+	GSource *source;
+
+	source = g_source_new (&gnutls_watch_funcs, sizeof (GNUTLSWatch));
+	watch = (GNUTLSWatch *) source;
+	g_io_channel_ref (channel);
+	watch->chan = chan;
+	watch->condition = condition;
+	watch->pollfd.fd = chan->fd;
+	watch->pollfd.events = condition;
+	g_source_add_poll (source, &watch->pollfd);
+
+	return source;
 }
 
 static void
-- 
2.43.0


From 38a4f09e5b6e2019fcd1eeedc1b884e6f6acbef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:02 +0000
Subject: [PATCH 142/147] fix: Do not send anything twice when new keys are
 asked for

---
 libirc/gnutls.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/libirc/gnutls.c b/libirc/gnutls.c
index ec6b815..900773b 100644
--- a/libirc/gnutls.c
+++ b/libirc/gnutls.c
@@ -42,6 +42,8 @@ typedef struct {
 	char *hostname;
 	gboolean established;
 	gboolean handshaking;
+	/* Number of bytes taken by GNUTLS but not sent yet */
+	gsize unsent;
 	SSLType type;
 } GNUTLSChannel;
 
@@ -254,7 +256,18 @@ again:
 		chan->established = TRUE;
 	}
 
-	result = gnutls_record_send (chan->session, buf, count);
+	if (chan->unsent > 0) {
+		/* It does not matter what else is to be written by now, or
+		 * that this might have been tried more than once */
+		result = gnutls_record_send (chan->session, NULL, 0);
+		/* The latter when it has been sent along with new keys */
+		if (result >= 0 || result == GNUTLS_E_INVALID_REQUEST)
+			result = chan->unsent;
+	} else {
+		result = gnutls_record_send (chan->session, buf, count);
+	}
+
+	chan->unsent = 0;
 
 	/* This can't actually happen in response to a write, but... */
 
@@ -265,6 +278,8 @@ again:
 
 	if ((result == GNUTLS_E_INTERRUPTED) ||
 	    (result == GNUTLS_E_AGAIN)) {
+		chan->unsent = MIN (count,
+				    gnutls_record_get_max_size (chan->session));
 		if (GNUTLS_CHANNEL_NONBLOCKING (chan)) {
 			return G_IO_STATUS_AGAIN;
 		} else {
@@ -329,7 +344,9 @@ gnutls_watch_buffered (GNUTLSWatch *watch)
 	if (watch->chan->handshaking)
 		return 0;
 
-	condition = g_io_channel_get_buffer_condition (&watch->chan->channel);
+	/* There always is space in the buffer, but it is of no use when the
+	 * other side does not read. */
+	condition = g_io_channel_get_buffer_condition (&watch->chan->channel) & G_IO_IN;
 	if (watch->chan->established &&
 	    gnutls_record_check_pending (watch->chan->session) > 0)
 		condition |= G_IO_IN;
-- 
2.43.0


From 4b214b8859ecd1f50904d437d54d57d05f78826e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:24 +0000
Subject: [PATCH 143/147] fix: do not show clients the unknown parts of a
 nick's hostmask

A nick learned from NAMES that was renamed by a line without ident and host
left as "nick!(null)@(null)" when the connection was lost.
---
 libirc/client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libirc/client.c b/libirc/client.c
index cf86c05..272653c 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -963,7 +963,7 @@ gboolean client_send_nick_quit(struct irc_client *c, struct network_nick *gn,
 			       const char *reason)
 {
 	gboolean ret;
-	if (gn->hostmask == NULL) {
+	if (gn->hostmask == NULL || gn->username == NULL || gn->hostname == NULL) {
 		/* Make up a fake hostmask. The user hasn't seen the original hostmask
 		 * of this nick anyway, otherwise we would've known it already.
 		 */
-- 
2.43.0


From b6bb6d33bb8f5cd65eefd204a538bfe7cb379b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:40 +0000
Subject: [PATCH 144/147] fix: send replies that name a command to who gave it

An error like 421, 461 or 263 says which command it is about, but went to
whoever had the oldest command pending that may fail that way, or to everybody.
---
 libirc/redirect.c | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/libirc/redirect.c b/libirc/redirect.c
index 24d980c..67af45a 100644
--- a/libirc/redirect.c
+++ b/libirc/redirect.c
@@ -581,20 +581,48 @@ static void query_stack_drop_silent(struct query_stack *stack, GList *until)
 	}
 }
 
+/**
+ * Find the request that a response that names a command is a reply to.
+ *
+ * @return Entry of the oldest request with that command, or NULL if the
+ *         response does not name one or there is no such request.
+ */
+static GList *find_named_command(struct query_stack *stack, int n,
+								 const struct irc_line *l)
+{
+	GList *gl;
+
+	if ((n != ERR_UNKNOWNCOMMAND && n != ERR_NEEDMOREPARAMS &&
+		 n != RPL_TRYAGAIN) || l->argc < 3)
+		return NULL;
+
+	for (gl = stack->entries; gl; gl = gl->next) {
+		struct query_stack_entry *s = gl->data;
+		if (s->query->name != NULL &&
+			!base_strcmp(s->query->name, l->args[2]))
+			return gl;
+	}
+
+	return NULL;
+}
+
 void *query_stack_match_response(struct query_stack *stack, const struct irc_line *l)
 {
 	int n;
 	void *ret = NULL;
-	GList *gl;
+	GList *gl, *named;
 
 	g_assert(l->args[0]);
 
 	n = irc_line_respcode(l);
 
+	named = find_named_command(stack, n, l);
+
 	/* Find a request that this response is a reply to */
-	for (gl = stack->entries; gl; gl = gl->next) {
+	for (gl = named?named:stack->entries; gl; gl = gl->next) {
 		struct query_stack_entry *s = gl->data;
-		if (is_reply(s->query->replies, n) ||
+		if (gl == named ||
+			is_reply(s->query->replies, n) ||
 			is_reply(s->query->errors, n) ||
 			is_reply(s->query->end_replies, n)) {
 			
-- 
2.43.0


From b0179fd7de4ba3f94749bad8f8cb7dcad104762f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:33 +0000
Subject: [PATCH 145/147] fix: ignore the case of names on the administration
 network

---
 src/admin.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index e0ea9e2..35d60ae 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -941,8 +941,8 @@ static gboolean admin_to_server (struct irc_network *n, struct irc_client *c, co
 		/* FIXME: Do something here ? */
 		return TRUE;
 	} else if (!base_strcmp(l->args[0], "WHO")) {
-		if (!strcmp(l->args[1], ADMIN_CHANNEL) ||
-			!strcmp(l->args[1], "ctrlproxy")) {
+		if (!irccmp(n->external_state->info, l->args[1], ADMIN_CHANNEL) ||
+			!irccmp(n->external_state->info, l->args[1], "ctrlproxy")) {
 			virtual_network_recv_response(n, RPL_WHOREPLY, ADMIN_CHANNEL,
 									  "ctrlproxy",
 									  get_my_hostname(),
@@ -970,12 +970,12 @@ static gboolean admin_to_server (struct irc_network *n, struct irc_client *c, co
 
 		return TRUE;
 	} else if (!base_strcmp(l->args[0], "JOIN")) {
-		if (strcmp(l->args[1], ADMIN_CHANNEL) != 0) {
+		if (irccmp(n->external_state->info, l->args[1], ADMIN_CHANNEL) != 0) {
 			virtual_network_recv_response(n, ERR_NOSUCHCHANNEL, l->args[1], "No such channel", NULL);
 		}
 		return TRUE;
 	} else if (!base_strcmp(l->args[0], "PART")) {
-		if (strcmp(l->args[1], ADMIN_CHANNEL) != 0) {
+		if (irccmp(n->external_state->info, l->args[1], ADMIN_CHANNEL) != 0) {
 			virtual_network_recv_response(n, ERR_NOTONCHANNEL, l->args[1], "You're not on that channel", NULL);
 		} else {
 			virtual_network_recv_args(n, n->external_state->me.hostmask, "PART", l->args[1], NULL);
-- 
2.43.0


From 27cbad1235d2a6b1cd2fd3638aa5d1f1cf832045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:35 +0000
Subject: [PATCH 146/147] fix: show errors and warnings on the administration
 channel, not what matters less

---
 src/admin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/admin.c b/src/admin.c
index 35d60ae..1c07cbe 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1023,7 +1023,7 @@ void admin_log(enum log_level level, const struct irc_network *n, const struct i
 		return;
 	}
 
-	if (level < LOG_INFO) {
+	if (level > LOG_INFO) {
 		return;
 	}
 
-- 
2.43.0


From 598ecc95d23ac155c815bd80dc5d0be93f73438a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:44 +0000
Subject: [PATCH 147/147] fix: give the backlog of a nick or channel whatever
 the case of its name

---
 src/client.c | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/client.c b/src/client.c
index ae9ff98..c5602de 100644
--- a/src/client.c
+++ b/src/client.c
@@ -531,9 +531,31 @@ gboolean client_send_history_line(struct irc_client *c, struct irc_line *l,
 
 struct history_data {
 	struct irc_client *client;
+	const char *object;
 	gboolean dataonly;
 };
 
+/**
+ * Check whether a line was sent to a specific nick or channel.
+ */
+static gboolean is_sent_to(const struct irc_network_info *info,
+						   const struct irc_line *l, const char *object)
+{
+	char **targets;
+	gboolean ret = FALSE;
+	int i;
+
+	if (l->argc < 2)
+		return FALSE;
+
+	targets = g_strsplit(l->args[1], ",", 0);
+	for (i = 0; targets[i] != NULL && !ret; i++)
+		ret = (irccmp(info, targets[i], object) == 0);
+	g_strfreev(targets);
+
+	return ret;
+}
+
 static gboolean send_history_line(struct irc_line *l, time_t t, void *userdata)
 {
 	struct history_data *data = userdata;
@@ -544,6 +566,10 @@ static gboolean send_history_line(struct irc_line *l, time_t t, void *userdata)
 	if (data->dataonly && !is_message(l))
 		return TRUE;
 
+	if (data->object != NULL &&
+		!is_sent_to(data->client->network->info, l, data->object))
+		return TRUE;
+
 	return client_send_history_line(data->client, l, t);
 }
 
@@ -561,14 +587,11 @@ gboolean client_send_history(struct irc_client *c, const char *object,
 	struct history_data data;
 
 	data.client = c;
+	data.object = object;
 	data.dataonly = dataonly;
 
-	if (object != NULL)
-		return linestack_traverse_object(c->network->linestack, object, from,
-										 NULL, send_history_line, &data);
-	else
-		return linestack_traverse(c->network->linestack, from, NULL,
-								  send_history_line, &data);
+	return linestack_traverse(c->network->linestack, from, NULL,
+							  send_history_line, &data);
 }
 
 /**
-- 
2.43.0

