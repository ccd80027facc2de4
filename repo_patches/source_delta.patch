From e3fb138b76336bb8a9d25bd7e289d5ffe09fbd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:52 +0000
Subject: [PATCH 001/138] fix: count the origin when checking whether an
 argument still fits on a line

---
 libirc/line.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libirc/line.c b/libirc/line.c
index de65fa8..421a8c5 100644
--- a/libirc/line.c
+++ b/libirc/line.c
@@ -423,6 +423,9 @@ static int line_len(const struct irc_line *l)
 	len = 4; /* \r\n for end of line, possibly colon before last argument and
 				colon at start of the line */
 
+	if (l->origin != NULL)
+		len += strlen(l->origin) + 1; /* space after the origin */
+
 	for (i = 0; i < l->argc; i++)
 		len += strlen(l->args[i]) + 1;
 
-- 
2.43.0


From 985fcdf5b2e2c83bf1c694fb79e1902722a1ab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:52 +0000
Subject: [PATCH 002/138] fix: keep the text of time-stamped single-word
 messages, ignore messages without text

---
 libirc/line.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libirc/line.c b/libirc/line.c
index 421a8c5..198e5fb 100644
--- a/libirc/line.c
+++ b/libirc/line.c
@@ -459,6 +459,9 @@ gboolean line_prefix_time(struct irc_line *l, time_t t)
 	char *tmp;
 	gboolean action = FALSE;
 
+	if (l->argc < 3)
+		return FALSE;
+
 	if (l->args[2][0] == '\001') { /* CTCP */
 		/* Let's not touch any CTCP requests but actions */
 		if (strncmp(l->args[2]+1, "ACTION", strlen("ACTION")) != 0) {
@@ -478,6 +481,8 @@ gboolean line_prefix_time(struct irc_line *l, time_t t)
 	}
 	g_free(l->args[2]);
 	l->args[2] = tmp;
+	/* The text contains a space now, even if it didn't before */
+	l->has_endcolon = WITH_COLON;
 
 	return TRUE;
 }
-- 
2.43.0


From a2a82ded282ad94b5a6a236ac9189b102547e854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:05 +0000
Subject: [PATCH 003/138] fix: never let the origin of a message contain a line
 terminator

---
 libirc/line.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libirc/line.c b/libirc/line.c
index 198e5fb..e04ef5f 100644
--- a/libirc/line.c
+++ b/libirc/line.c
@@ -98,6 +98,9 @@ struct irc_line * irc_parse_line(const char *d)
 	l = g_new0(struct irc_line, 1);
 	g_assert(l);
 	l->has_endcolon = WITHOUT_COLON;
+	/* The line ends at the first terminator, also when that is part of what
+	 * looks like the origin */
+	data[strcspn(data, "\r\n")] = '\0';
 	p = data;
 
 	if (p[0] == ':') {
-- 
2.43.0


From 372c4439235699292f708193863c963d6d3c5cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:16 +0000
Subject: [PATCH 004/138] fix: only look at the first n characters in
 length-limited name comparisons

---
 libirc/util.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libirc/util.c b/libirc/util.c
index b139315..c95f35d 100644
--- a/libirc/util.c
+++ b/libirc/util.c
@@ -64,6 +64,10 @@ static inline int str_cmphelper(const char *a, const char *b, size_t len, char s
 			break;
 	}
 
+	/* All characters that had to be compared match */
+	if (i == len)
+		return 0;
+
 	return a[i]-b[i];
 }
 
-- 
2.43.0


From 865978e6c0e0480e7b55880f1805302a8cbd6bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:16 +0000
Subject: [PATCH 005/138] fix: the empty string is not a channel name

---
 libirc/isupport.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libirc/isupport.c b/libirc/isupport.c
index b4656a8..40175b3 100644
--- a/libirc/isupport.c
+++ b/libirc/isupport.c
@@ -648,7 +648,7 @@ gboolean is_channelname(const char *name, const struct irc_network_info *n)
 
 	g_assert(name != NULL);
 
-	if (strchr(n->chantypes, name[0]))
+	if (name[0] != '\0' && strchr(n->chantypes, name[0]))
 		return TRUE;
 
 	return FALSE;
-- 
2.43.0


From 98bbd55dde836e88ce436c074777b4042b7ac0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:16 +0000
Subject: [PATCH 006/138] fix: survive feature announcements without a value
 and incomplete CHANMODES

---
 libirc/isupport.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/libirc/isupport.c b/libirc/isupport.c
index 40175b3..bebe262 100644
--- a/libirc/isupport.c
+++ b/libirc/isupport.c
@@ -380,6 +380,27 @@ static void check_chanmodes_inconsistency(struct irc_network_info *info)
 }
 
 
+/**
+ * Check whether a 005 parameter is meaningless without a value.
+ */
+static gboolean requires_value(const char *key)
+{
+	static const char *keys[] = {
+		"CASEMAPPING", "NICKLEN", "MAXNICKLEN", "USERLEN", "HOSTLEN",
+		"CHANNELLEN", "MAXCHANNELLEN", "AWAYLEN", "KICKLEN", "TOPICLEN",
+		"WATCH", "MAXPARA", "MAXCHANNELS", "MAXTARGETS", "MAXBANS", "MODES",
+		"KEYLEN", "CHANTYPES", "CHANMODES", "ELIST", "PREFIX", NULL
+	};
+	int i;
+
+	for (i = 0; keys[i] != NULL; i++) {
+		if (!base_strcmp(key, keys[i]))
+			return TRUE;
+	}
+
+	return FALSE;
+}
+
 void network_info_parse(struct irc_network_info *info, const char *parameter)
 {
 	char *sep;
@@ -395,7 +416,10 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 		val = g_strdup(sep+1);
 	}
 
-	if (!base_strcmp(key, "CASEMAPPING")) {
+	if (val == NULL && requires_value(key)) {
+		network_info_log(LOG_WARNING, info,
+						 "005 parameter `%s' without a value", key);
+	} else if (!base_strcmp(key, "CASEMAPPING")) {
 		if (!base_strcmp(val, "rfc1459")) {
 			info->casemapping = CASEMAP_RFC1459;
 		} else if (!base_strcmp(val, "strict-rfc1459")) {
@@ -503,6 +527,8 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 		info->chanmodes = g_strsplit(val, ",", 4);
 		if (g_strv_length(info->chanmodes) != 4) {
 			network_info_log(LOG_WARNING, info, "Expected 4-tuple for CHANMODES, received tuple was of size %d", g_strv_length(info->chanmodes));
+			g_strfreev(info->chanmodes);
+			info->chanmodes = NULL;
 		} else {
 			info->chanmodes_a = info->chanmodes[0];
 			info->chanmodes_b = info->chanmodes[1];
-- 
2.43.0


From 919c0d145064f2e4f9ef46c51d512f58494fa3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 007/138] fix: ignore EXTBAN announcements that lack the list
 of bans

---
 libirc/isupport.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libirc/isupport.c b/libirc/isupport.c
index bebe262..b6b01a5 100644
--- a/libirc/isupport.c
+++ b/libirc/isupport.c
@@ -580,13 +580,18 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 		else
 			info->deaf_mode = val[0];
 	} else if (!base_strcmp(key, "EXTBAN")) {
-		g_free(info->extban_prefix);
-		g_free(info->extban_supported);
-		if (val == NULL) {
+		if (val != NULL && strchr(val, ',') == NULL) {
+			network_info_log(LOG_WARNING, info,
+							 "Malformed EXTBAN data `%s'", val);
+		} else if (val == NULL) {
+			g_free(info->extban_prefix);
+			g_free(info->extban_supported);
 			info->extban_prefix = g_strdup("~");
 			info->extban_supported = g_strdup("cqr");
 		} else {
 			char **parts = g_strsplit(val, ",", 2);
+			g_free(info->extban_prefix);
+			g_free(info->extban_supported);
 			info->extban_prefix = parts[0];
 			info->extban_supported = parts[1];
 			g_free(parts);
-- 
2.43.0


From 13b6f73baf61fcc3631cc2345f410cc9f5e4f185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:40 +0000
Subject: [PATCH 008/138] fix: keep the nick of users whose origin is not a
 full hostmask

---
 libirc/state.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index e5088be..eef110a 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -124,22 +124,22 @@ gboolean network_nick_set_hostmask(struct network_nick *n, const char *hm)
 	if (n->hostmask && !strcmp(n->hostmask, hm))
 		return TRUE;
 
-	g_free(n->hostmask);
-	g_free(n->nick); n->nick = NULL;
-	g_free(n->username); n->username = NULL;
-	g_free(n->hostname); n->hostname = NULL;
-	n->hostmask = g_strdup(hm);
-
+	/* Keep what we know if this isn't a full hostmask */
 	t = strchr(hm, '!');
 	if (!t)
 		return FALSE;
-	n->nick = g_strndup(hm, t-hm);
 
 	u = strchr(t, '@');
 	if (!u)
 		return FALSE;
-	n->username = g_strndup(t+1, u-t-1);
 
+	g_free(n->hostmask);
+	n->hostmask = g_strdup(hm);
+	g_free(n->nick);
+	n->nick = g_strndup(hm, t-hm);
+	g_free(n->username);
+	n->username = g_strndup(t+1, u-t-1);
+	g_free(n->hostname);
 	n->hostname = g_strdup(u+1);
 
 	return TRUE;
-- 
2.43.0


From 6e3869b0ba3d6830b269887ba6b835a7a34e4e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:40 +0000
Subject: [PATCH 009/138] fix: handle multiple status prefixes in names lists
 and invalid nicks from the server

---
 libirc/state.c | 53 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index eef110a..6f8a0de 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -380,7 +380,7 @@ struct network_nick *find_network_nick(struct irc_network_state *n,
  *
  * @param n Network state to search
  * @param name Name of the nick to search for
- * @return network_nick structure, or NULL if out of memory.
+ * @return network_nick structure, or NULL if name is not a valid nick.
  */
 struct network_nick *find_add_network_nick(struct irc_network_state *n,
 										   const char *name)
@@ -390,6 +390,12 @@ struct network_nick *find_add_network_nick(struct irc_network_state *n,
 	g_assert(name != NULL);
 	g_assert(n != NULL);
 
+	/* The name comes from the server */
+	if (name[0] == '\0' || is_prefix(name[0], n->info)) {
+		network_state_log(LOG_WARNING, n, "Invalid nick '%s'", name);
+		return NULL;
+	}
+
 	nd = find_network_nick(n, name);
 	if (nd != NULL)
 		return nd;
@@ -397,7 +403,6 @@ struct network_nick *find_add_network_nick(struct irc_network_state *n,
 	/* create one, if it doesn't exist */
 	nd = g_new0(struct network_nick,1);
 	g_assert(nd != NULL);
-	g_assert(!is_prefix(name[0], n->info));
 	nd->nick = g_strdup(name);
 	nd->hops = -1;
 
@@ -410,39 +415,47 @@ struct network_nick *find_add_network_nick(struct irc_network_state *n,
  *
  * @param n Channel state to search
  * @param name Name of the nick to search for
- * @return channel_nick structure, or NULL if out of memory.
+ * @return channel_nick structure, or NULL if name is not a valid nick.
  */
 struct channel_nick *find_add_channel_nick(struct irc_channel_state *c,
 										   const char *name)
 {
 	struct channel_nick *n;
+	struct network_nick *nn;
 	const char *realname = name;
-	char prefix = 0;
 
 	g_assert(c);
 	g_assert(name);
-	g_assert(strlen(name) > 0);
 	g_assert(c->network);
 
-	if (is_prefix(realname[0], c->network->info)) {
-		prefix = realname[0];
+	/* There can be more than one prefix (NAMESX) */
+	while (is_prefix(realname[0], c->network->info))
 		realname++;
+
+	if (realname[0] == '\0') {
+		network_state_log(LOG_WARNING, c->network, "Invalid nick '%s' on %s",
+						  name, c->name);
+		return NULL;
 	}
 
 	n = find_channel_nick(c, realname);
 	if (n != NULL)
 		return n;
 
+	nn = find_add_network_nick(c->network, realname);
+	if (nn == NULL)
+		return NULL;
+
 	n = g_new0(struct channel_nick,1);
 	g_assert(n != NULL);
 
 	n->channel = c;
-	n->global_nick = find_add_network_nick(c->network, realname);
-	if (prefix != 0) {
-		char mode = get_mode_by_prefix(prefix, c->network->info);
+	n->global_nick = nn;
+	for (; name < realname; name++) {
+		char mode = get_mode_by_prefix(*name, c->network->info);
 		if (mode)
 			modes_set_mode(n->modes, mode);
-    }
+	}
 	c->nicks = g_list_append(c->nicks, n);
 	n->global_nick->channel_nicks = g_list_append(n->global_nick->channel_nicks, n);
 	return n;
@@ -470,10 +483,17 @@ static void handle_join(struct irc_network_state *s, const struct irc_line *l)
 	}
 
 	for (i = 0; channels[i]; i++) {
+		if (channels[i][0] == '\0' || nick[0] == '\0' || is_prefix(nick[0], s->info)) {
+			network_state_log(LOG_WARNING, s, "Ignoring invalid JOIN of '%s' to '%s'",
+							  nick, channels[i]);
+			continue;
+		}
+
 		/* Someone is joining a channel the user is on */
 		c = find_add_channel(s, channels[i]);
 		g_assert(s->channels != NULL);
 		ni = find_add_channel_nick(c, nick);
+		g_assert(ni != NULL);
 		network_nick_set_hostmask(ni->global_nick, l->origin);
 
 		/* The user is joining a channel */
@@ -826,7 +846,9 @@ static void handle_whoreply(struct irc_network_state *s, const struct irc_line *
 	char *fullname;
 
 	nn = find_add_network_nick(s, l->args[6]);
-	g_assert(nn != NULL);
+	if (nn == NULL)
+		return;
+
 	network_nick_set_data(nn, l->args[6], l->args[3], l->args[4]);
 
 	fullname = NULL;
@@ -1025,6 +1047,9 @@ static void handle_mode(struct irc_network_state *s, const struct irc_line *l)
 	} else {
 		struct network_nick *nn = find_add_network_nick(s, l->args[1]);
 
+		if (nn == NULL)
+			return;
+
 		for(i = 0; l->args[2][i]; i++) {
 			switch(l->args[2][i]) {
 				case '+': t = TRUE;break;
@@ -1154,6 +1179,10 @@ static void handle_302(struct irc_network_state *s, const struct irc_line *l)
 			struct network_nick *nn;
 			/* FIXME: Strip *'s from the end of tmp302[0]*/
 			nn = find_add_network_nick(s, tmp302[0]);
+			if (nn == NULL) {
+				g_strfreev(tmp302);
+				continue;
+			}
 			hm = g_strdup_printf("%s!%s", tmp302[0], tmp302[1]+1);
 			network_nick_set_hostmask(nn, hm);
 			g_free(hm);
-- 
2.43.0


From 608d85735d50ac3b166777bdca2ac44a906e5759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:40 +0000
Subject: [PATCH 010/138] fix: recognise IRC operators in USERHOST replies,
 don't modify the reply

---
 libirc/state.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index 6f8a0de..ba7585b 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1164,7 +1164,7 @@ static void handle_329(struct irc_network_state *s, const struct irc_line *l)
 static void handle_302(struct irc_network_state *s, const struct irc_line *l)
 {
 	int i;
-	gchar **users = g_strsplit(g_strstrip(l->args[2]), " ", 0);
+	gchar **users = g_strsplit(l->args[2], " ", 0);
 	if (users == NULL) {
 		network_state_log(LOG_ERROR, s, "Unable to split user list (%s)",
 						  l->args[2]);
@@ -1177,7 +1177,15 @@ static void handle_302(struct irc_network_state *s, const struct irc_line *l)
 		if (g_strv_length(tmp302) > 1) {
 			char *hm;
 			struct network_nick *nn;
-			/* FIXME: Strip *'s from the end of tmp302[0]*/
+			size_t nicklen = strlen(tmp302[0]);
+			/* IRC operators are marked with an asterisk */
+			if (nicklen > 0 && tmp302[0][nicklen-1] == '*')
+				tmp302[0][nicklen-1] = '\0';
+			/* The host is preceded by the away status */
+			if (tmp302[1][0] != '+' && tmp302[1][0] != '-') {
+				g_strfreev(tmp302);
+				continue;
+			}
 			nn = find_add_network_nick(s, tmp302[0]);
 			if (nn == NULL) {
 				g_strfreev(tmp302);
-- 
2.43.0


From a1d54ec0077d7db18965b21cc9d931098b32a333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:40 +0000
Subject: [PATCH 011/138] fix: take the user modes from the right argument of
 the user mode reply

---
 libirc/state.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index ba7585b..b19b10c 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1124,9 +1124,9 @@ static void handle_nick(struct irc_network_state *s, const struct irc_line *l)
 
 static void handle_umodeis(struct irc_network_state *s, const struct irc_line *l)
 {
-	if (!string2mode(l->args[1], s->me.modes)) {
+	if (!string2mode(l->args[2], s->me.modes)) {
 		network_state_log(LOG_WARNING, s,
-						  "Invalid MODE change %s for user", l->args[1]);
+						  "Invalid MODE change %s for user", l->args[2]);
 	}
 }
 
@@ -1219,7 +1219,7 @@ static struct irc_command {
 	{ "001", 1, handle_001 },
 	{ "004", 5, handle_004 },
 	{ "005", 3, handle_005 },
-	{ "221", 1, handle_umodeis },
+	{ "221", 2, handle_umodeis },
 	{ "302", 2, handle_302 },
 	{ "324", 3, handle_324 },
 	{ "329", 3, handle_329 },
-- 
2.43.0


From 97619a375b69c399831622bbc5da622aafa68b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:40 +0000
Subject: [PATCH 012/138] fix: take the channel from the right argument of the
 no topic reply

---
 libirc/state.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index b19b10c..d340bd5 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -673,7 +673,7 @@ static void handle_333(struct irc_network_state *s, const struct irc_line *l)
 
 static void handle_no_topic(struct irc_network_state *s, const struct irc_line *l)
 {
-	struct irc_channel_state *c = find_channel(s, l->args[1]);
+	struct irc_channel_state *c = find_channel(s, l->args[2]);
 
 	if (c == NULL) {
 		network_state_log(LOG_WARNING, s,
@@ -1225,7 +1225,7 @@ static struct irc_command {
 	{ "329", 3, handle_329 },
 	{ "332", 3, handle_332 },
 	{ "333", 3, handle_333 },
-	{ "331", 1, handle_no_topic },
+	{ "331", 2, handle_no_topic },
 	{ "353", 4, handle_namreply },
 	{ "366", 2, handle_end_names },
 	{ "367", 2, handle_banlist_entry },
-- 
2.43.0


From 79cd3879d38eb902fe525a035a1fb22a032ee42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:40 +0000
Subject: [PATCH 013/138] fix: survive server messages with missing arguments
 or origin, and topics of unknown channels

---
 libirc/state.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index d340bd5..631411f 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -631,6 +631,12 @@ static void handle_topic(struct irc_network_state *s, const struct irc_line *l)
 
 	CHECK_ORIGIN(s, l, "TOPIC");
 
+	if (c == NULL) {
+		network_state_log(LOG_WARNING, s,
+					"Can't change topic of unknown channel '%s'!", l->args[1]);
+		return;
+	}
+
 	if (c->topic != NULL) {
 		g_free(c->topic);
 	}
@@ -668,6 +674,7 @@ static void handle_333(struct irc_network_state *s, const struct irc_line *l)
 	}
 
 	c->topic_set_time = strtol(l->args[4], NULL, 0);
+	g_free(c->topic_set_by);
 	c->topic_set_by = g_strdup(l->args[3]);
 }
 
@@ -1022,9 +1029,13 @@ static void handle_mode(struct irc_network_state *s, const struct irc_line *l)
 			return;
 		}
 
-		by_name = line_get_nick(l);
-		by = find_network_nick(s, by_name);
-		g_free(by_name);
+		if (l->origin != NULL) {
+			by_name = line_get_nick(l);
+			by = find_network_nick(s, by_name);
+			g_free(by_name);
+		} else {
+			by = NULL;
+		}
 
 		for(i = 0; l->args[2][i]; i++) {
 			switch(l->args[2][i]) {
@@ -1224,15 +1235,15 @@ static struct irc_command {
 	{ "324", 3, handle_324 },
 	{ "329", 3, handle_329 },
 	{ "332", 3, handle_332 },
-	{ "333", 3, handle_333 },
+	{ "333", 4, handle_333 },
 	{ "331", 2, handle_no_topic },
 	{ "353", 4, handle_namreply },
 	{ "366", 2, handle_end_names },
-	{ "367", 2, handle_banlist_entry },
+	{ "367", 3, handle_banlist_entry },
 	{ "368", 2, handle_end_banlist },
-	{ "346", 2, handle_invitelist_entry },
+	{ "346", 3, handle_invitelist_entry },
 	{ "347", 2, handle_end_invitelist },
-	{ "348", 2, handle_exceptlist_entry },
+	{ "348", 3, handle_exceptlist_entry },
 	{ "349", 2, handle_end_exceptlist },
 	{ "352", 8, handle_whoreply },
 	{ "315", 1, handle_end_who },
-- 
2.43.0


From e83981cb4b9433b37019c5fa5794198dc44e7327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:40 +0000
Subject: [PATCH 014/138] fix: skip the argument of a channel setting that is
 removed

---
 libirc/state.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libirc/state.c b/libirc/state.c
index 631411f..809906a 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -976,7 +976,8 @@ static int channel_state_change_mode(struct irc_network_state *s, struct network
 			g_free(channel_mode_option(c, mode));
 			channel_mode_option(c, mode) = NULL;
 
-			return 0;
+			/* Only settings of this type have an argument when unset */
+			return (cmt == CHANMODE_SETTING)?1:0;
 		}
 	} else if (is_prefix_mode(info, mode)) {
 		struct channel_nick *n;
-- 
2.43.0


From 23cb1986e7b7a92ed473d2fbe294a23ad8d4cfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:40 +0000
Subject: [PATCH 015/138] fix: remember the channel key and limit from the
 channel mode reply

---
 libirc/state.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/libirc/state.c b/libirc/state.c
index 809906a..1dccad2 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1145,6 +1145,7 @@ static void handle_umodeis(struct irc_network_state *s, const struct irc_line *l
 static void handle_324(struct irc_network_state *s, const struct irc_line *l)
 {
 	struct irc_channel_state *ch = find_channel(s, l->args[2]);
+	int i, arg = 4;
 
 	if (ch == NULL) {
 		network_state_log(LOG_WARNING, s,
@@ -1157,6 +1158,22 @@ static void handle_324(struct irc_network_state *s, const struct irc_line *l)
 						  "Invalid MODE change %s for channel %s", l->args[3], l->args[2]);
 	}
 
+	for (i = 0; i < MAXMODES; i++) {
+		g_free(ch->chanmode_option[i]);
+		ch->chanmode_option[i] = NULL;
+	}
+
+	for (i = 0; l->args[3][i]; i++) {
+		enum chanmode_type cmt = network_chanmode_type(l->args[3][i], s->info);
+
+		if ((cmt == CHANMODE_SETTING || cmt == CHANMODE_OPT_SETTING) &&
+			l->args[arg] != NULL) {
+			g_free(channel_mode_option(ch, l->args[3][i]));
+			channel_mode_option(ch, l->args[3][i]) = g_strdup(l->args[arg]);
+			arg++;
+		}
+	}
+
 	ch->mode_received = TRUE;
 }
 
-- 
2.43.0


From 7fd9af8f0ba4495186dac8c2603a79a3fe6d6e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:40 +0000
Subject: [PATCH 016/138] fix: keep the records of users consistent when they
 change nick

---
 libirc/state.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index 1dccad2..ebe2048 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1120,17 +1120,35 @@ static void handle_privmsg(struct irc_network_state *s, const struct irc_line *l
 
 static void handle_nick(struct irc_network_state *s, const struct irc_line *l)
 {
-	struct network_nick *nn;
+	struct network_nick *nn, *other;
 	char *nick;
 
 	CHECK_ORIGIN(s, l, "NICK");
 
+	if (l->args[1][0] == '\0' || is_prefix(l->args[1][0], s->info)) {
+		network_state_log(LOG_WARNING, s, "Ignoring change to invalid nick '%s'",
+						  l->args[1]);
+		return;
+	}
+
 	nick = line_get_nick(l);
 	nn = find_add_network_nick(s, nick);
 	g_free(nick);
 
-	if (nn != NULL) {
-		network_nick_set_nick(nn, l->args[1]);
+	if (nn == NULL)
+		return;
+
+	/* Somebody we can no longer see may have had this nick earlier */
+	other = find_network_nick(s, l->args[1]);
+	if (other != NULL && other != nn && other != &s->me)
+		free_network_nick(s, other);
+
+	/* The origin may tell us something about the user we didn't know yet */
+	network_nick_set_hostmask(nn, l->origin);
+	network_nick_set_nick(nn, l->args[1]);
+	if (nn->username == NULL || nn->hostname == NULL) {
+		g_free(nn->hostmask);
+		nn->hostmask = NULL;
 	}
 }
 
-- 
2.43.0


From f8e9b26bdc64b65d5412d5dcf370d06a81832049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:53 +0000
Subject: [PATCH 017/138] fix: update our own hostmask when the server assigns
 a different nick

---
 libirc/state.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index ebe2048..99aff60 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1087,8 +1087,7 @@ static void handle_mode(struct irc_network_state *s, const struct irc_line *l)
 
 static void handle_001(struct irc_network_state *s, const struct irc_line *l)
 {
-	g_free(s->me.nick);
-	s->me.nick = g_strdup(l->args[1]);
+	network_nick_set_nick(&s->me, l->args[1]);
 }
 
 static void handle_004(struct irc_network_state *s, const struct irc_line *l)
-- 
2.43.0


From 8fea97d610ec59729b5e84f4f1327edcb9c8bcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 018/138] fix: release the connection when freeing a transport
 that still has unsent messages

---
 libirc/transport_ioc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 76baedd..85a0efd 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -41,6 +41,8 @@ struct irc_transport_data_iochannel {
 static gboolean handle_transport_receive(GIOChannel *c, GIOCondition cond,
 									  void *_transport);
 
+static void really_disconnect(struct irc_transport_data_iochannel *backend_data);
+
 static void free_pending_line(void *_line, void *userdata)
 {
 	free_line((struct irc_line *)_line);
@@ -52,6 +54,10 @@ static void irc_transport_iochannel_free_data(void *data)
 
 	g_assert(backend_data->pending_disconnect);
 
+	/* Drop what could not be sent yet */
+	if (backend_data->incoming != NULL)
+		really_disconnect(backend_data);
+
 	if (backend_data->outgoing_iconv != (GIConv)-1)
 		g_iconv_close(backend_data->outgoing_iconv);
 	if (backend_data->incoming_iconv != (GIConv)-1)
-- 
2.43.0


From 644f0968a1b1d23ab5e3a4741d8abe01dd92e1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 019/138] fix: do not receive anything from connections that
 have been disconnected

---
 libirc/transport_ioc.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 85a0efd..9f5abe4 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -137,7 +137,8 @@ static void really_disconnect(struct irc_transport_data_iochannel *backend_data)
 {
 	g_io_channel_unref(backend_data->incoming);
 
-	g_source_remove(backend_data->incoming_id);
+	if (backend_data->incoming_id)
+		g_source_remove(backend_data->incoming_id);
 	if (backend_data->outgoing_id)
 		g_source_remove(backend_data->outgoing_id);
 
@@ -150,6 +151,12 @@ static void irc_transport_iochannel_disconnect(void *data)
 
 	backend_data->pending_disconnect = TRUE;
 
+	/* Nothing is received any more, only the queue is sent */
+	if (backend_data->incoming_id) {
+		g_source_remove(backend_data->incoming_id);
+		backend_data->incoming_id = 0;
+	}
+
 	if (backend_data->outgoing_id == 0)
 		really_disconnect(backend_data);
 }
@@ -283,6 +290,9 @@ static gboolean handle_transport_receive(GIOChannel *c, GIOCondition cond,
 
 			if (!ret)
 				return FALSE;
+
+			if (backend_data->pending_disconnect)
+				return FALSE;
 		}
 
 		ret &= handle_recv_status(transport, status, error);
-- 
2.43.0


From 722fee51ddb8bb50ec3e89d98aa51dc790d0faca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 020/138] fix: wait until the connection accepts data again
 before sending the queue

---
 libirc/transport_ioc.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 9f5abe4..6c1eafe 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -187,7 +187,7 @@ static gboolean irc_transport_iochannel_send_line(struct irc_transport *transpor
 		backend_data->outgoing_id = g_io_add_watch(backend_data->incoming, G_IO_OUT,
 										transport_send_queue, transport);
 		g_queue_push_tail(backend_data->pending_lines, linedup(l));
-		break;
+		return TRUE;
 	case G_IO_STATUS_EOF:
 		transport->callbacks->hangup(transport);
 		return FALSE;
@@ -354,7 +354,6 @@ struct irc_transport *irc_transport_new_iochannel(GIOChannel *iochannel)
 static gboolean transport_send_queue(GIOChannel *ioc, GIOCondition cond,
 									  void *_transport)
 {
-	gboolean ret = FALSE;
 	struct irc_transport *transport = _transport;
 	struct irc_transport_data_iochannel *backend_data = (struct irc_transport_data_iochannel *)transport->backend_data;
 	GIOStatus status;
@@ -363,7 +362,7 @@ static gboolean transport_send_queue(GIOChannel *ioc, GIOCondition cond,
 
 	status = g_io_channel_flush(backend_data->incoming, NULL);
 	if (status == G_IO_STATUS_AGAIN)
-		ret = TRUE;
+		return TRUE;
 
 	g_assert(backend_data->pending_lines != NULL);
 
@@ -413,11 +412,10 @@ static gboolean transport_send_queue(GIOChannel *ioc, GIOCondition cond,
 		free_line(l);
 	}
 
-	if (!ret)
-		backend_data->outgoing_id = 0;
+	backend_data->outgoing_id = 0;
 
-	if (!ret && backend_data->pending_disconnect)
+	if (backend_data->pending_disconnect)
 		really_disconnect(backend_data);
 
-	return ret;
+	return FALSE;
 }
-- 
2.43.0


From a8a9a444dc64ae0583b4022e355285804c7dc89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 021/138] fix: never write only the first part of a long line

---
 libirc/line.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libirc/line.c b/libirc/line.c
index e04ef5f..40106db 100644
--- a/libirc/line.c
+++ b/libirc/line.c
@@ -164,12 +164,17 @@ GIOStatus irc_send_line(GIOChannel *c, GIConv iconv,
 	raw = irc_line_string_nl(l);
 	if (iconv != (GIConv)-1) {
 		cvrt = g_convert_with_iconv(raw, -1, iconv, NULL, NULL, error);
+		g_free(raw);
 		if (cvrt == NULL)
 			return G_IO_STATUS_ERROR;
-		g_free(raw);
 	} else {
 		cvrt = raw;
 	}
+	/* A line that does not fit in the buffer would only be partially
+	 * written if the channel blocks. */
+	if (g_io_channel_get_buffered(c) &&
+		strlen(cvrt) + 16 > g_io_channel_get_buffer_size(c))
+		g_io_channel_set_buffer_size(c, strlen(cvrt) + 16);
 	ret = g_io_channel_write_chars(c, cvrt, -1, &bytes_written, error);
 	g_free(cvrt);
 
-- 
2.43.0


From 0a78548411e3964dc91654cdeaba1050164c624a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:29 +0000
Subject: [PATCH 022/138] fix: do not use an error after freeing it when
 several writes of a queued line fail

---
 libirc/transport_ioc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 6c1eafe..c60241c 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -380,7 +380,7 @@ static gboolean transport_send_queue(GIOChannel *ioc, GIOCondition cond,
 			return TRUE;
 		case G_IO_STATUS_ERROR:
 			transport->callbacks->log(transport, l, error);
-			g_error_free(error);
+			g_clear_error(&error);
 			break;
 		case G_IO_STATUS_EOF:
 			backend_data->outgoing_id = 0;
@@ -406,7 +406,7 @@ static gboolean transport_send_queue(GIOChannel *ioc, GIOCondition cond,
 			break;
 		case G_IO_STATUS_ERROR:
 			transport->callbacks->log(transport, l, error);
-			g_error_free(error);
+			g_clear_error(&error);
 			break;
 		}
 		free_line(l);
-- 
2.43.0


From 355eecd64f31b2deb5e22acd3fad46626c6a0f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:11 +0000
Subject: [PATCH 023/138] fix: only end messages at line feeds, not in the
 middle of their text

---
 libirc/transport_ioc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index c60241c..1b579ea 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -347,6 +347,9 @@ struct irc_transport *irc_transport_new_iochannel(GIOChannel *iochannel)
 	backend_data->pending_lines = g_queue_new();
 	backend_data->outgoing_iconv = backend_data->incoming_iconv = (GIConv)-1;
 	g_io_channel_ref(backend_data->incoming);
+	/* Automatic detection would also split messages at NUL bytes and
+	 * at U+2029 */
+	g_io_channel_set_line_term(backend_data->incoming, "\n", 1);
 
 	return ret;
 }
-- 
2.43.0


From b481f3c6c2ec6cfb1b1eb139453a2c31b6bd9069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:11 +0000
Subject: [PATCH 024/138] fix: skip messages that can not be parsed

---
 libirc/transport_ioc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 1b579ea..637d57f 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -285,6 +285,9 @@ static gboolean handle_transport_receive(GIOChannel *c, GIOCondition cond,
 		while ((status = irc_recv_line(c, backend_data->incoming_iconv, &error,
 									   &l)) == G_IO_STATUS_NORMAL) {
 
+			if (l == NULL)
+				continue; /* Not a valid message */
+
 			ret &= transport->callbacks->recv(transport, l);
 			free_line(l);
 
-- 
2.43.0


From 3649d3b30e3f6a9c7745f5f506174347e57da8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:11 +0000
Subject: [PATCH 025/138] fix: continue with the next message after one that
 can not be converted

---
 libirc/transport_ioc.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 637d57f..bc20714 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -283,7 +283,19 @@ static gboolean handle_transport_receive(GIOChannel *c, GIOCondition cond,
 		gboolean ret = TRUE;
 		
 		while ((status = irc_recv_line(c, backend_data->incoming_iconv, &error,
-									   &l)) == G_IO_STATUS_NORMAL) {
+									   &l)) == G_IO_STATUS_NORMAL ||
+			   (status == G_IO_STATUS_ERROR && l != NULL)) {
+
+			if (status == G_IO_STATUS_ERROR) {
+				/* A message that can not be converted, continue with the
+				 * next one */
+				free_line(l);
+				transport->callbacks->charset_error(transport, error->message);
+				g_clear_error(&error);
+				if (backend_data->pending_disconnect)
+					return FALSE;
+				continue;
+			}
 
 			if (l == NULL)
 				continue; /* Not a valid message */
-- 
2.43.0


From 1eb7bd8c5f6ab15a498bcbd6012ed8d4a9ddf8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:06 +0000
Subject: [PATCH 026/138] fix: also continue after unparseable messages that
 can not be converted

---
 libirc/transport_ioc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index bc20714..98d26ea 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -284,7 +284,7 @@ static gboolean handle_transport_receive(GIOChannel *c, GIOCondition cond,
 		
 		while ((status = irc_recv_line(c, backend_data->incoming_iconv, &error,
 									   &l)) == G_IO_STATUS_NORMAL ||
-			   (status == G_IO_STATUS_ERROR && l != NULL)) {
+			   (status == G_IO_STATUS_ERROR && error->domain == G_CONVERT_ERROR)) {
 
 			if (status == G_IO_STATUS_ERROR) {
 				/* A message that can not be converted, continue with the
@@ -362,6 +362,9 @@ struct irc_transport *irc_transport_new_iochannel(GIOChannel *iochannel)
 	backend_data->pending_lines = g_queue_new();
 	backend_data->outgoing_iconv = backend_data->incoming_iconv = (GIConv)-1;
 	g_io_channel_ref(backend_data->incoming);
+	/* Conversion is done per message */
+	if (g_io_channel_get_buffered(backend_data->incoming))
+		g_io_channel_set_encoding(backend_data->incoming, NULL, NULL);
 	/* Automatic detection would also split messages at NUL bytes and
 	 * at U+2029 */
 	g_io_channel_set_line_term(backend_data->incoming, "\n", 1);
-- 
2.43.0


From 31dbe27e1ceb2f00c3e4b1dc764ffa78e73beeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:49 +0000
Subject: [PATCH 027/138] fix: have room for mode character 255

---
 libirc/state.c | 4 ++--
 libirc/state.h | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index 99aff60..81a0ef3 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1423,8 +1423,8 @@ gboolean string2mode(const char *modes, irc_modes_t ar)
 
 char *mode2string(irc_modes_t modes)
 {
-	char ret[256];
-	unsigned char i;
+	char ret[MAXMODES+1];
+	int i;
 	int pos = 0;
 	ret[0] = '\0';
 	for(i = 0; i < MAXMODES; i++) {
diff --git a/libirc/state.h b/libirc/state.h
index 496fd34..3a131ab 100644
--- a/libirc/state.h
+++ b/libirc/state.h
@@ -23,7 +23,8 @@
 #include "isupport.h"
 #include "log.h"
 
-#define MAXMODES 255
+/* One entry for each possible value of a mode character */
+#define MAXMODES 256
 typedef gboolean irc_modes_t[MAXMODES];
 
 /**
-- 
2.43.0


From f48f5af91fd3bc8b56f5ae74cd02982d12f9abe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:08 +0000
Subject: [PATCH 028/138] fix: do not crash logging messages without parameters

---
 src/log_custom.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/log_custom.c b/src/log_custom.c
index 441d592..45bc14e 100644
--- a/src/log_custom.c
+++ b/src/log_custom.c
@@ -118,10 +118,10 @@ static void file_write_target(struct log_custom_data *data,
 	if (fmt == NULL)
 		return;
 
-	g_assert(l->args[0] != NULL);
-	g_assert(l->args[1] != NULL);
+	if (l->args[1] == NULL)
+		return;
+
 	info = network_get_info(network);
-	g_assert(network->external_state->me.nick != NULL);
 
 	if (network->external_state != NULL &&
 		network->external_state->me.nick != NULL &&
@@ -140,7 +140,7 @@ static void file_write_channel_only(struct log_custom_data *data,
 				    struct irc_network *network,
 				    const char *fmt, const struct irc_line *l)
 {
-	if (fmt == NULL)
+	if (fmt == NULL || l->args[1] == NULL)
 		return;
 
 	file_write_line_target(data, network, fmt, l, l->args[1]);
-- 
2.43.0


From 8ecb06271b9b42efd8e38f53b760e33a43b59648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:08 +0000
Subject: [PATCH 029/138] fix: do not log actions without final delimiter
 incompletely, nor crash on messages without text

---
 src/log_custom.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/log_custom.c b/src/log_custom.c
index 45bc14e..5cb7e8a 100644
--- a/src/log_custom.c
+++ b/src/log_custom.c
@@ -219,15 +219,20 @@ static gboolean log_custom_data(struct irc_network *network,
 		file_write_target(data, network, data->config->join, l);
 	} else if (dir == FROM_SERVER && !base_strcmp(l->args[0], "PART")) {
 		file_write_channel_only(data, network, data->config->part, l);
-	} else if (!base_strcmp(l->args[0], "PRIVMSG") && l->args[2] != NULL) {
+	} else if (!base_strcmp(l->args[0], "PRIVMSG") && l->argc > 2) {
 		if (l->args[2][0] == '\001') {
-			l->args[2][strlen(l->args[2])-1] = '\0';
 			if (!g_ascii_strncasecmp(l->args[2], "\001ACTION ", 8)) {
+				char *end = l->args[2] + strlen(l->args[2]) - 1;
+				gboolean terminated = (*end == '\001');
+
+				if (terminated)
+					*end = '\0';
 				l->args[2]+=8;
 				file_write_target(data, network, data->config->action, l);
 				l->args[2]-=8;
+				if (terminated)
+					*end = '\001';
 			}
-			l->args[2][strlen(l->args[2])] = '\001';
 			/* Ignore all other ctcp messages */
 		} else {
 			file_write_target(data, network, data->config->msg, l);
-- 
2.43.0


From e0e1345dbc17997476724b06126ad900799e65a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:08 +0000
Subject: [PATCH 030/138] fix: do not crash on empty CTCP requests and CTCP
 requests without origin

---
 src/ctcp.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ctcp.c b/src/ctcp.c
index 01b3fa2..00e33f0 100644
--- a/src/ctcp.c
+++ b/src/ctcp.c
@@ -184,6 +184,11 @@ gboolean ctcp_process_request (struct irc_network *n, const struct irc_line *l)
 	h.network = n;
 	h.nick = line_get_nick(l);
 
+	if (h.nick == NULL) {
+		network_log(LOG_WARNING, n, "Ignoring CTCP request from nobody");
+		return FALSE;
+	}
+
 	data = g_strdup(l->args[2]+1);
 	t = strchr(data, '\001');
 	if (!t) {
@@ -195,6 +200,14 @@ gboolean ctcp_process_request (struct irc_network *n, const struct irc_line *l)
 	*t = '\0';
 
 	args = g_strsplit(data, " ", 0);
+	if (args[0] == NULL) {
+		network_log(LOG_WARNING, n, "Empty CTCP request from %s!", h.nick);
+		g_strfreev(args);
+		g_free(data);
+		g_free(h.nick);
+		return FALSE;
+	}
+
 	for (gl = cmds; gl; gl = gl->next) {
 		struct ctcp_handler *hl = gl->data;
 
-- 
2.43.0


From 69b993dc42276dffb336380977f50e247e6f96f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:08 +0000
Subject: [PATCH 031/138] fix: do not crash when the refused nick is not
 mentioned

---
 src/network.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network.c b/src/network.c
index 3658a1e..d373778 100644
--- a/src/network.c
+++ b/src/network.c
@@ -128,7 +128,7 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 		return TRUE;
 	} else if (!base_strcmp(l->args[0], "ERROR")) {
 		network_log(LOG_ERROR, n, "error: %s", l->args[1]);
-	} else if (response == ERR_NICKNAMEINUSE &&
+	} else if (response == ERR_NICKNAMEINUSE && l->argc > 2 &&
 			  n->connection.state == NETWORK_CONNECTION_STATE_LOGIN_SENT){
 		char *tmp = g_strdup_printf("%s_", l->args[2]);
 		network_send_args(n, "NICK", tmp, NULL);
-- 
2.43.0


From 76fbed3624eae52e0d23570806a8c4d5523ff3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:08 +0000
Subject: [PATCH 032/138] fix: ignore empty nick in greeting

---
 libirc/state.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libirc/state.c b/libirc/state.c
index 81a0ef3..c3d7910 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1087,6 +1087,9 @@ static void handle_mode(struct irc_network_state *s, const struct irc_line *l)
 
 static void handle_001(struct irc_network_state *s, const struct irc_line *l)
 {
+	if (l->args[1][0] == '\0')
+		return;
+
 	network_nick_set_nick(&s->me, l->args[1]);
 }
 
-- 
2.43.0


From 261ccdf6c9acd4b06a31c15e533f51b650e62e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:05 +0000
Subject: [PATCH 033/138] fix: do not crash on CTCP requests and replies
 without origin

---
 src/ctcp.c          | 10 +++++-----
 src/ctcp_redirect.c |  8 +++++++-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/ctcp.c b/src/ctcp.c
index 00e33f0..e67f05e 100644
--- a/src/ctcp.c
+++ b/src/ctcp.c
@@ -181,14 +181,14 @@ gboolean ctcp_process_request (struct irc_network *n, const struct irc_line *l)
 	gboolean ret = FALSE;
 	struct ctcp_handle h;
 
-	h.network = n;
-	h.nick = line_get_nick(l);
-
-	if (h.nick == NULL) {
-		network_log(LOG_WARNING, n, "Ignoring CTCP request from nobody");
+	if (l->origin == NULL) {
+		network_log(LOG_WARNING, n, "Ignoring CTCP request without origin");
 		return FALSE;
 	}
 
+	h.network = n;
+	h.nick = line_get_nick(l);
+
 	data = g_strdup(l->args[2]+1);
 	t = strchr(data, '\001');
 	if (!t) {
diff --git a/src/ctcp_redirect.c b/src/ctcp_redirect.c
index 37c7931..a44622e 100644
--- a/src/ctcp_redirect.c
+++ b/src/ctcp_redirect.c
@@ -83,8 +83,14 @@ gboolean ctcp_network_redirect_response(struct irc_network *n, const struct irc_
 {
 	GList *gl;
 	char *nick;
+	char *command;
 
-	char *command = get_ctcp_command(l->args[2]);
+	if (l->origin == NULL) {
+		network_log(LOG_WARNING, n, "Ignoring CTCP reply without origin");
+		return FALSE;
+	}
+
+	command = get_ctcp_command(l->args[2]);
 
 	nick = line_get_nick(l);
 
-- 
2.43.0


From 8730b6e524b8caf491c113589dae63d6fe914879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:05 +0000
Subject: [PATCH 034/138] fix: do not crash on nick changes and NickServ
 messages without parameters

---
 src/nickserv.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/nickserv.c b/src/nickserv.c
index b335e47..e5bfd28 100644
--- a/src/nickserv.c
+++ b/src/nickserv.c
@@ -124,28 +124,31 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 {
 	static char *nickattempt = NULL;
 
+	if (l->argc < 1)
+		return TRUE;
+
 	/* User has changed his/her nick. Check whether this nick needs to be identified */
 	if (dir == FROM_SERVER && !irccmp(n->info, l->args[0], "NICK") &&
-	   nickattempt && !irccmp(n->info, nickattempt, l->args[1])) {
+	   l->argc > 1 && nickattempt && !irccmp(n->info, nickattempt, l->args[1])) {
 		nickserv_identify_me(n, l->args[1]);
 	}
 
 	/* Keep track of the last nick that the user tried to take */
-	if (dir == TO_SERVER && !irccmp(n->info, l->args[0], "NICK")) {
+	if (dir == TO_SERVER && !irccmp(n->info, l->args[0], "NICK") && l->argc > 1) {
 		if (nickattempt) {
 			g_free(nickattempt);
 		}
 		nickattempt = g_strdup(l->args[1]);
 	}
 
-	if (dir == TO_SERVER &&
+	if (dir == TO_SERVER && l->argc > 2 &&
 		(!irccmp(n->info, l->args[0], "PRIVMSG") || !irccmp(n->info, l->args[0], "NOTICE")) &&
 		(!irccmp(n->info, l->args[1], nickserv_nick(n)) &&
 		 !ircncmp(n->info, l->args[2], "IDENTIFY ", strlen("IDENTIFY ")))) {
 			cache_nickserv_pass(n, l->args[2] + strlen("IDENTIFY "));
 	}
 
-	if (dir == TO_SERVER &&
+	if (dir == TO_SERVER && l->argc > 2 &&
 		!irccmp(n->info, l->args[0], "NS") &&
 		!irccmp(n->info, l->args[1], "IDENTIFY")) {
 		cache_nickserv_pass(n, l->args[2]);
@@ -153,8 +156,8 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 
 	/* If we receive a nick-already-in-use message, ghost the current user */
 	if (dir == FROM_SERVER && atol(l->args[0]) == ERR_NICKNAMEINUSE) {
-		const char *pass = nickserv_find_nick(n, nickattempt);
-		if (nickattempt && pass) {
+		const char *pass = nickattempt?nickserv_find_nick(n, nickattempt):NULL;
+		if (pass) {
 			const char *nickserv_n = nickserv_nick(n);
 			char *raw;
 
-- 
2.43.0


From 37a7ab9b4c78a0cc8e59a55a33e149688d70f892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:05 +0000
Subject: [PATCH 035/138] fix: do not read missing parameters of replies when
 replacing the hostmask

---
 src/client.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/client.c b/src/client.c
index 3f7d920..94a1dd0 100644
--- a/src/client.c
+++ b/src/client.c
@@ -368,9 +368,9 @@ struct irc_line *irc_line_replace_hostmask(const struct irc_line *l,
 	}
 	switch (irc_line_respcode(l)) {
 		case RPL_USERHOST:
-		if (strstr(l->args[2], old->hostname)) {
+		if (l->argc >= 3 && strstr(l->args[2], old->hostname)) {
 			int i;
-			gchar **users = g_strsplit(g_strstrip(l->args[2]), " ", 0);
+			gchar **users = g_strsplit(l->args[2], " ", 0);
 			for (i = 0; users[i]; i++) {
 				gchar** tmp302 = g_strsplit(users[i], "=", 2);
 				if (g_strv_length(tmp302) > 1) {
@@ -392,7 +392,7 @@ struct irc_line *irc_line_replace_hostmask(const struct irc_line *l,
 		}
 		break;
 		case RPL_WHOREPLY:
-		if (l->argc >= 6) {
+		if (l->argc >= 7) {
 			if (!irccmp(info, l->args[6], old->nick)) {
 				ret = linedup(l);
 				g_free(ret->args[4]);
@@ -405,7 +405,7 @@ struct irc_line *irc_line_replace_hostmask(const struct irc_line *l,
 		break;
 		case RPL_WHOISUSER:
 		case RPL_WHOWASUSER:
-		if (l->argc >= 4) {
+		if (l->argc >= 5) {
 			if (!irccmp(info, l->args[2], old->nick)) {
 				ret = linedup(l);
 				g_free(ret->args[4]);
-- 
2.43.0


From 6274e510d1c49b30af7238b50ea6bcba0b375e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:34 +0000
Subject: [PATCH 036/138] fix: do not crash when unsetting settings, report
 that some can not be unset

---
 src/admin.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index a750e9e..c48b4c9 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -671,6 +671,7 @@ static gboolean log_level_set(admin_handle h, const char *value)
 	int x;
 
 	if (value == NULL) {
+		admin_out(h, "Setting can't be unset.");
 		return FALSE;
 	}
 
@@ -1120,6 +1121,12 @@ static gboolean motd_file_set(admin_handle h, const char *name)
 {
 	struct global *g = admin_get_global(h);
 
+	if (name == NULL) {
+		g_free(g->config->motd_file);
+		g->config->motd_file = NULL;
+		return TRUE;
+	}
+
 	if (!g_file_test(name, G_FILE_TEST_EXISTS)) {
 		admin_out(h, "%s: file does not exist", name);
 		return FALSE;
@@ -1194,6 +1201,11 @@ static gboolean report_time_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
+	if (value == NULL) {
+		admin_out(h, "Setting can't be unset.");
+		return FALSE;
+	}
+
 	if (!strcasecmp(value, "never") || !strcasecmp(value, "false")) {
 		g->config->report_time = REPORT_TIME_NEVER;
 	} else if (!strcasecmp(value, "always")) {
@@ -1202,6 +1214,7 @@ static gboolean report_time_set(admin_handle h, const char *value)
 			  !strcasecmp(value, "true")) {
 		g->config->report_time = REPORT_TIME_REPLICATION;
 	} else {
+		admin_out(h, "Invalid value `%s'", value);
 		return FALSE;
 	}
 
@@ -1219,7 +1232,7 @@ static gboolean replication_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
-	if (repl_find_backend(value) == NULL) {
+	if (value != NULL && repl_find_backend(value) == NULL) {
 		admin_out(h, "No such replication backend `%s'", value);
 		return FALSE;
 	}
@@ -1242,7 +1255,7 @@ static gboolean admin_user_set(admin_handle h, const char *value)
 	struct global *g = admin_get_global(h);
 
 	g_free(g->config->admin_user);
-	if (strlen(value) == 0) {
+	if (value != NULL && strlen(value) != 0) {
 		/* FIXME: Check whether value is a somewhat valid IRC nick? */
 		g->config->admin_user = g_strdup(value);
 	} else {
@@ -1551,7 +1564,7 @@ static char *default_nick_get(admin_handle h)
 static gboolean default_nick_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
-	if (strlen(value) == 0) {
+	if (value == NULL || strlen(value) == 0) {
 		admin_out(h, "Nick name can't be empty.");
 		return FALSE;
 	}
@@ -1579,7 +1592,7 @@ static char *default_username_get(admin_handle h)
 static gboolean default_username_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
-	if (strlen(value) == 0) {
+	if (value == NULL || strlen(value) == 0) {
 		admin_out(h, "Username can't be empty.");
 		return FALSE;
 	}
@@ -1608,7 +1621,7 @@ static gboolean default_fullname_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
-	if (strlen(value) == 0) {
+	if (value == NULL || strlen(value) == 0) {
 		admin_out(h, "Fullname can't be empty");
 		return FALSE;
 	}
-- 
2.43.0


From 6996b0ac464f7b32777cb99233e9959091bffa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:34 +0000
Subject: [PATCH 037/138] fix: show unset settings properly, report unknown
 settings in UNSET

---
 src/admin.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index c48b4c9..a83a458 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1679,8 +1679,11 @@ static void cmd_unset(admin_handle h, const char * const *args, void *userdata)
 	for (i = 0; settings[i].name; i++) {
 		if (!strcasecmp(settings[i].name, args[1])) {
 			settings[i].set(h, NULL);
+			return;
 		}
 	}
+
+	admin_out(h, "Unknown setting `%s'", args[1]);
 }
 
 static void cmd_set(admin_handle h, const char * const *args, void *userdata)
@@ -1692,7 +1695,7 @@ static void cmd_set(admin_handle h, const char * const *args, void *userdata)
 		for (i = 0; settings[i].name != NULL; i++) {
 			tmp = settings[i].get(h);
 			if (tmp == NULL) {
-				admin_out(h, "%s is not set", settings[i]);
+				admin_out(h, "%s is not set", settings[i].name);
 			} else {
 				admin_out(h, "%s = %s", settings[i].name, tmp);
 			}
@@ -1705,7 +1708,11 @@ static void cmd_set(admin_handle h, const char * const *args, void *userdata)
 					settings[i].set(h, args[2]);
 				} else {
 					tmp = settings[i].get(h);
-					admin_out(h, "%s", tmp);
+					if (tmp == NULL) {
+						admin_out(h, "%s is not set", settings[i].name);
+					} else {
+						admin_out(h, "%s", tmp);
+					}
 					g_free(tmp);
 				}
 				return;
-- 
2.43.0


From 20073ab8bc0d964e8f94a532aa749a8e61b46945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:34 +0000
Subject: [PATCH 038/138] fix: do not crash on messages without parameters on
 the admin network, echo messages to oneself

---
 src/admin.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index a83a458..8436be9 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -823,8 +823,13 @@ static gboolean admin_to_server (struct irc_network *n, struct irc_client *c, co
 		!base_strcmp(l->args[0], "NOTICE")) {
 		struct admin_handle ah;
 
-		if (irccmp(n->external_state->info, l->args[0], n->external_state->me.nick) == 0) {
-			virtual_network_recv_args(n, n->external_state->me.hostmask, l->args[0], l->args[1], NULL);
+		if (l->args[1] == NULL) {
+			virtual_network_recv_response(n, ERR_NEEDMOREPARAMS, l->args[0], "Not enough params", NULL);
+			return TRUE;
+		}
+
+		if (irccmp(n->external_state->info, l->args[1], n->external_state->me.nick) == 0) {
+			virtual_network_recv_args(n, n->external_state->me.hostmask, l->args[0], l->args[1], l->args[2], NULL);
 			return TRUE;
 		}
 
@@ -892,6 +897,13 @@ static gboolean admin_to_server (struct irc_network *n, struct irc_client *c, co
 	} else if (!base_strcmp(l->args[0], "MODE")) {
 		/* FIXME: Do something here ? */
 		return TRUE;
+	} else if (l->args[1] == NULL &&
+			   (!base_strcmp(l->args[0], "WHO") ||
+				!base_strcmp(l->args[0], "JOIN") ||
+				!base_strcmp(l->args[0], "PART") ||
+				!base_strcmp(l->args[0], "WHOIS"))) {
+		virtual_network_recv_response(n, ERR_NEEDMOREPARAMS, l->args[0], "Not enough params", NULL);
+		return TRUE;
 	} else if (!base_strcmp(l->args[0], "WHO")) {
 		if (!strcmp(l->args[1], ADMIN_CHANNEL) ||
 			!strcmp(l->args[1], "ctrlproxy")) {
-- 
2.43.0


From 0a57bd286a6018f09efef9513566d63003b3ad24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:34 +0000
Subject: [PATCH 039/138] fix: do not use a listener after stopping it, nor the
 missing port of one

---
 src/admin.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index 8436be9..7e3a17a 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1073,7 +1073,7 @@ static void cmd_start_listener(admin_handle h, const char * const *args, void *u
 
 static void cmd_stop_listener(admin_handle h, const char * const *args, void *userdata)
 {
-	GList *gl;
+	GList *gl, *next;
 	char *b, *p;
 	int i = 0;
 
@@ -1091,9 +1091,11 @@ static void cmd_stop_listener(admin_handle h, const char * const *args, void *us
 		b = NULL;
 	}
 
-	for (gl = admin_get_global(h)->listeners; gl; gl = gl->next) {
+	for (gl = admin_get_global(h)->listeners; gl; gl = next) {
 		struct irc_listener *l = gl->data;
 
+		next = gl->next;
+
 		if (b && l->config->address == NULL) {
 			continue;
 		}
@@ -1102,7 +1104,7 @@ static void cmd_stop_listener(admin_handle h, const char * const *args, void *us
 			continue;
 		}
 
-		if (strcmp(p, l->config->port) != 0) {
+		if (l->config->port == NULL || strcmp(p, l->config->port) != 0) {
 			continue;
 		}
 
-- 
2.43.0


From 0893383f7e2cd0c4b2d86c56beeaaa2b9a217ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:34 +0000
Subject: [PATCH 040/138] fix: list listeners without a port with the default
 port

---
 src/admin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/admin.c b/src/admin.c
index 7e3a17a..0776c4c 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1125,7 +1125,7 @@ static void cmd_list_listener(admin_handle h, const char * const *args, void *us
 	for (gl = admin_get_global(h)->listeners; gl; gl = gl->next) {
 		struct irc_listener *l = gl->data;
 
-		admin_out(h, "%s:%s%s%s%s", l->config->address?l->config->address:"", l->config->port,
+		admin_out(h, "%s:%s%s%s%s", l->config->address?l->config->address:"", l->config->port?l->config->port:DEFAULT_IRC_PORT,
 				  l->network?" (":"", l->network?l->network->name:"",
 				  l->network?")":"");
 	}
-- 
2.43.0


From 36e481f695d64557e1b9bd64aad834104e7c877f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:34 +0000
Subject: [PATCH 041/138] fix: initialise the network of commands given on the
 admin socket

---
 src/admin.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/admin.c b/src/admin.c
index 0776c4c..2e1fc20 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1823,6 +1823,7 @@ static gboolean handle_client_data(GIOChannel *channel,
 
 	ah.global = _global;
 	ah.client = NULL;
+	ah.network = NULL;
 	ah.user_data = channel;
 	ah.send_fn = iochannel_admin_out;
 
-- 
2.43.0


From d0002bf26d7427d5c52ae78b5017ad3721f26547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:34 +0000
Subject: [PATCH 042/138] fix: also rename the configuration when renaming a
 network

---
 src/admin.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/admin.c b/src/admin.c
index 2e1fc20..7d18a8f 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -373,6 +373,7 @@ static void rename_network_helper(admin_handle h, const char *oldname,
 								  const char *newname)
 {
 	struct irc_network *n;
+	struct network_config *nc;
 
 	n = find_network(admin_get_global(h)->networks, oldname);
 
@@ -386,8 +387,12 @@ static void rename_network_helper(admin_handle h, const char *oldname,
 		return;
 	}
 
+	nc = n->private_data;
+
 	g_free(n->name);
 	n->name = g_strdup(newname);
+	g_free(nc->name);
+	nc->name = g_strdup(newname);
 }
 
 static void del_network_helper(admin_handle h, const char *name)
-- 
2.43.0


From b8dedf7c005eb4e0b65736761526a53d42be4a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:52 +0000
Subject: [PATCH 043/138] fix: also delete the configuration of a network named
 with different case

---
 src/admin.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index 7d18a8f..5c246fc 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -398,16 +398,19 @@ static void rename_network_helper(admin_handle h, const char *oldname,
 static void del_network_helper(admin_handle h, const char *name)
 {
 	struct irc_network *n = find_network(admin_get_global(h)->networks, name);
+	struct network_config *nc;
 	if (n == NULL) {
 		admin_out(h, "No such network `%s'", name);
 		return;
 	}
 
+	nc = n->private_data;
+
 	disconnect_network(n);
 
-	unload_network(n);
+	config_del_network(admin_get_global(h)->config, nc->name);
 
-	config_del_network(admin_get_global(h)->config, name);
+	unload_network(n);
 
 	admin_out(h, "Network `%s' deleted", name);
 }
-- 
2.43.0


From ef4887ba98ebe8d72b9bdf0c06ffb9927453c6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:52 +0000
Subject: [PATCH 044/138] fix: do not try to switch the server of built-in
 networks

---
 src/admin.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/admin.c b/src/admin.c
index 5c246fc..e38c009 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -327,6 +327,8 @@ static void cmd_next_server (admin_handle h, const char * const *args, void *use
 	}
 	if (!n) {
 		admin_out(h, "%s: Not connected", name);
+	} else if (((struct network_config *)n->private_data)->type == NETWORK_VIRTUAL) {
+		admin_out(h, "%s: Built-in network, no other servers", name);
 	} else {
 		admin_out(h, "%s: Reconnecting", name);
 		disconnect_network(n);
-- 
2.43.0


From 3b8cdca7848dedefc77a82d7487ddd112ecb4310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:52 +0000
Subject: [PATCH 045/138] fix: do not keep a listener that could not be
 started, report the result

---
 src/admin.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index e38c009..842ba1a 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1042,6 +1042,12 @@ static void cmd_start_listener(admin_handle h, const char * const *args, void *u
 	struct listener_config *cfg;
 	struct irc_listener *l;
 
+	if (args[1] && args[2] && args[3] &&
+		find_network(admin_get_global(h)->networks, args[3]) == NULL) {
+		admin_out(h, "No such network `%s`", args[3]);
+		return;
+	}
+
 	if (!args[1]) {
 		admin_out(h, "No port specified");
 		return;
@@ -1061,16 +1067,12 @@ static void cmd_start_listener(admin_handle h, const char * const *args, void *u
 		cfg->address = b;
 		cfg->port = g_strdup(p);
 	} else {
-		cfg->port = g_strdup(b);
+		cfg->port = b;
 		cfg->address = NULL;
 	}
 
 	if (args[3]) {
 		cfg->network = g_strdup(args[3]);
-		if (find_network(admin_get_global(h)->networks, args[3]) == NULL) {
-			admin_out(h, "No such network `%s`", args[3]);
-			return;
-		}
 	}
 
 	cfg->password = g_strdup(args[2]);
@@ -1078,7 +1080,12 @@ static void cmd_start_listener(admin_handle h, const char * const *args, void *u
 	l = listener_init(admin_get_global(h), cfg);
 	l->global = admin_get_global(h);
 
-	listener_start_tcp(l, l->config->address, l->config->port);
+	if (listener_start_tcp(l, l->config->address, l->config->port)) {
+		admin_out(h, "Listener started");
+	} else {
+		free_listener(l);
+		admin_out(h, "Unable to start listener on %s", args[1]);
+	}
 }
 
 static void cmd_stop_listener(admin_handle h, const char * const *args, void *userdata)
-- 
2.43.0


From 47f297732638f3e07c51734d32df49f86a8cbf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:04 +0000
Subject: [PATCH 046/138] fix: refuse values that are not numbers for numeric
 settings, show unset ones as such

---
 src/admin.c | 61 +++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 11 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index 842ba1a..155549b 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -668,6 +668,8 @@ static gboolean logging_set(admin_handle h, const char *value)
 	return FALSE;
 }
 
+static gboolean interpret_integer(admin_handle h, const char *value, int *ret);
+
 static char *log_level_get(admin_handle h)
 {
 	extern enum log_level current_log_level;
@@ -685,7 +687,10 @@ static gboolean log_level_set(admin_handle h, const char *value)
 		return FALSE;
 	}
 
-	x = atoi(value);
+	if (!interpret_integer(h, value, &x)) {
+		return FALSE;
+	}
+
 	if (x < 0 || x > 5) {
 		admin_out(h, "Invalid log level %d", x);
 		return FALSE;
@@ -1196,6 +1201,24 @@ static gboolean interpret_boolean(admin_handle h, const char *value,
 	return FALSE;
 }
 
+static gboolean interpret_integer(admin_handle h, const char *value,
+								  int *ret)
+{
+	char *end;
+	long x;
+
+	errno = 0;
+	x = strtol(value, &end, 10);
+	if (*value == '\0' || *end != '\0' || errno != 0 ||
+		x < G_MININT || x > G_MAXINT) {
+		admin_out(h, "Invalid number `%s'", value);
+		return FALSE;
+	}
+
+	*ret = x;
+	return TRUE;
+}
+
 #define BOOL_SETTING(name) \
 static char *name ## _get(admin_handle h) \
 { \
@@ -1313,16 +1336,19 @@ static gboolean max_who_age_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
-	g->config->cache.max_who_age = (value == NULL?0:atoi(value));
+	if (value == NULL) {
+		g->config->cache.max_who_age = 0;
+		return TRUE;
+	}
 
-	return TRUE;
+	return interpret_integer(h, value, &g->config->cache.max_who_age);
 }
 
 static char *auto_away_time_get(admin_handle h)
 {
 	struct global *g = admin_get_global(h);
 
-	if (g->config->auto_away.max_idle_time == 0) {
+	if (g->config->auto_away.max_idle_time == -1) {
 		return NULL;
 	}
 
@@ -1333,11 +1359,14 @@ static gboolean auto_away_time_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
-	g->config->auto_away.max_idle_time = (value == NULL?-1:atoi(value));
-
 	/* FIXME: Restart auto-away */
 
-	return TRUE;
+	if (value == NULL) {
+		g->config->auto_away.max_idle_time = -1;
+		return TRUE;
+	}
+
+	return interpret_integer(h, value, &g->config->auto_away.max_idle_time);
 }
 
 static char *auto_away_enable_get(admin_handle h)
@@ -1394,6 +1423,10 @@ static char *auto_away_client_limit_get(admin_handle h)
 {
 	struct global *g = admin_get_global(h);
 
+	if (g->config->auto_away.client_limit == -1) {
+		return NULL;
+	}
+
 	return g_strdup_printf("%d", g->config->auto_away.client_limit);
 }
 
@@ -1401,9 +1434,12 @@ static gboolean auto_away_client_limit_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
-	g->config->auto_away.client_limit = (value == NULL?-1:atoi(value));
+	if (value == NULL) {
+		g->config->auto_away.client_limit = -1;
+		return TRUE;
+	}
 
-	return TRUE;
+	return interpret_integer(h, value, &g->config->auto_away.client_limit);
 }
 
 static char *report_time_offset_get(admin_handle h)
@@ -1421,9 +1457,12 @@ static gboolean report_time_offset_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
-	g->config->report_time_offset = (value == NULL?0:atoi(value));
+	if (value == NULL) {
+		g->config->report_time_offset = 0;
+		return TRUE;
+	}
 
-	return TRUE;
+	return interpret_integer(h, value, &g->config->report_time_offset);
 }
 
 static char *port_get(admin_handle h)
-- 
2.43.0


From 8b55a196c97dea905150896dd04f98c7f4b5a064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:04 +0000
Subject: [PATCH 047/138] fix: do not cut off setting values at the first space

---
 src/admin.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/admin.c b/src/admin.c
index 155549b..8373d5e 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1775,7 +1775,10 @@ static void cmd_set(admin_handle h, const char * const *args, void *userdata)
 		for (i = 0; settings[i].name; i++) {
 			if (!strcasecmp(settings[i].name, args[1])) {
 				if (args[2] != NULL) {
-					settings[i].set(h, args[2]);
+					/* The value is everything after the name */
+					tmp = g_strjoinv(" ", (char **)args+2);
+					settings[i].set(h, tmp);
+					g_free(tmp);
 				} else {
 					tmp = settings[i].get(h);
 					if (tmp == NULL) {
-- 
2.43.0


From 44dcb85c53abd278dcbbe14ba169c2252780f025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:04 +0000
Subject: [PATCH 048/138] fix: report settings that can not be changed

---
 src/admin.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index 8373d5e..3af7059 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -664,6 +664,7 @@ static char *logging_get(admin_handle h)
 static gboolean logging_set(admin_handle h, const char *value)
 {
 	/* FIXME: Implement */
+	admin_out(h, "Logging can only be changed in the configuration file.");
 
 	return FALSE;
 }
@@ -1486,7 +1487,6 @@ static gboolean port_set(admin_handle h, const char *value)
 	GList *gl;
 	struct global *g = admin_get_global(h);
 
-	/* FIXME: What if there is no default listener ? */
 	/* FIXME: Check that value is a valid service name or port number */
 
 	for (gl = g->config->listeners; gl; gl = gl->next) {
@@ -1498,6 +1498,7 @@ static gboolean port_set(admin_handle h, const char *value)
 		}
 	}
 
+	admin_out(h, "There is no default listener");
 	return FALSE;
 }
 
@@ -1522,7 +1523,6 @@ static gboolean bind_set(admin_handle h, const char *value)
 	GList *gl;
 	struct global *g = admin_get_global(h);
 
-	/* FIXME: What if there is no default listener ? */
 	/* FIXME: Check that value is a valid service name or port number */
 
 	for (gl = g->config->listeners; gl; gl = gl->next) {
@@ -1534,6 +1534,7 @@ static gboolean bind_set(admin_handle h, const char *value)
 		}
 	}
 
+	admin_out(h, "There is no default listener");
 	return FALSE;
 }
 
@@ -1558,7 +1559,6 @@ static gboolean password_set(admin_handle h, const char *value)
 	GList *gl;
 	struct global *g = admin_get_global(h);
 
-	/* FIXME: What if there is no default listener ? */
 	/* FIXME: Check that value is a valid service name or port number */
 
 	for (gl = g->config->listeners; gl; gl = gl->next) {
@@ -1570,6 +1570,7 @@ static gboolean password_set(admin_handle h, const char *value)
 		}
 	}
 
+	admin_out(h, "There is no default listener");
 	return FALSE;
 }
 
@@ -1594,7 +1595,6 @@ static gboolean default_network_set(admin_handle h, const char *value)
 	GList *gl;
 	struct global *g = admin_get_global(h);
 
-	/* FIXME: What if there is no default listener ? */
 	/* FIXME: Check that value is a valid service name or port number */
 
 	for (gl = g->config->listeners; gl; gl = gl->next) {
@@ -1606,6 +1606,7 @@ static gboolean default_network_set(admin_handle h, const char *value)
 		}
 	}
 
+	admin_out(h, "There is no default listener");
 	return FALSE;
 }
 
-- 
2.43.0


From 04f7568d2ea1a8968cc9fb198528d120c944ae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:04 +0000
Subject: [PATCH 049/138] fix: do not print a missing argument in ECHO

---
 src/admin.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/admin.c b/src/admin.c
index 3af7059..0d8148d 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -724,6 +724,11 @@ static void cmd_charset(admin_handle h, const char * const *args, void *userdata
 
 static void cmd_echo(admin_handle h, const char * const *args, void *userdata)
 {
+	if (args[1] == NULL) {
+		admin_out(h, "Nothing to echo");
+		return;
+	}
+
 	admin_out(h, "%s", args[1]);
 }
 
-- 
2.43.0


From 96348528b1472d6c56f112b431f722962099f311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:35 +0000
Subject: [PATCH 050/138] fix: echo the whole text

---
 src/admin.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/admin.c b/src/admin.c
index 0d8148d..880876a 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -724,12 +724,16 @@ static void cmd_charset(admin_handle h, const char * const *args, void *userdata
 
 static void cmd_echo(admin_handle h, const char * const *args, void *userdata)
 {
+	char *tmp;
+
 	if (args[1] == NULL) {
 		admin_out(h, "Nothing to echo");
 		return;
 	}
 
-	admin_out(h, "%s", args[1]);
+	tmp = g_strjoinv(" ", (char **)args+1);
+	admin_out(h, "%s", tmp);
+	g_free(tmp);
 }
 
 static gint cmp_cmd(gconstpointer a, gconstpointer b)
-- 
2.43.0


From efaa0e1485d90aa81b5c4b4cb5f99c5c60050044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:35 +0000
Subject: [PATCH 051/138] fix: do not crash on PRIVMSG without parameters when
 there is an administration user

---
 src/client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client.c b/src/client.c
index 94a1dd0..9a56647 100644
--- a/src/client.c
+++ b/src/client.c
@@ -94,7 +94,7 @@ static gboolean process_from_client(struct irc_client *c, const struct irc_line
 	} else if (!base_strcmp(l->args[0], "CTRLPROXY")) {
 		admin_process_command(c, l, 1);
 	} else if (c->network->global->config->admin_user != NULL &&
-			   !base_strcmp(l->args[0], "PRIVMSG") &&
+			   !base_strcmp(l->args[0], "PRIVMSG") && l->argc > 1 &&
 			   !base_strcmp(l->args[1], c->network->global->config->admin_user)) {
 		admin_process_command(c, l, 2);
 	} else if (!base_strcmp(l->args[0], "PRIVMSG") && l->argc > 2 &&
-- 
2.43.0


From 379c255fd2e2c1cffb37e11c682f405c19ea0ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:13 +0000
Subject: [PATCH 052/138] fix: do not crash on CTCP messages from clients while
 not connected

---
 src/client.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client.c b/src/client.c
index 9a56647..71848d4 100644
--- a/src/client.c
+++ b/src/client.c
@@ -97,14 +97,16 @@ static gboolean process_from_client(struct irc_client *c, const struct irc_line
 			   !base_strcmp(l->args[0], "PRIVMSG") && l->argc > 1 &&
 			   !base_strcmp(l->args[1], c->network->global->config->admin_user)) {
 		admin_process_command(c, l, 2);
-	} else if (!base_strcmp(l->args[0], "PRIVMSG") && l->argc > 2 &&
+	} else if (c->network->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD &&
+			!base_strcmp(l->args[0], "PRIVMSG") && l->argc > 2 &&
 			l->args[2][0] == '\001' &&
 			base_strncmp(l->args[2], "\001ACTION", 7) != 0) {
 		ctcp_client_request_record(c, l);
 
 		/* send off to server */
 		network_forward_line(c->network, c, l, TRUE);
-	} else if (!base_strcmp(l->args[0], "NOTICE") && l->argc > 2 &&
+	} else if (c->network->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD &&
+			!base_strcmp(l->args[0], "NOTICE") && l->argc > 2 &&
 			l->args[2][0] == '\001') {
 		network_forward_line(c->network, c, l, TRUE);
 	} else if (!base_strcmp(l->args[0], "")) {
-- 
2.43.0


From f50531da73ac28ddabea3d812c8cf61231923de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:13 +0000
Subject: [PATCH 053/138] fix: do not abort on reporting that the configuration
 can not be saved

---
 src/main.c     | 2 +-
 src/settings.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 113da0e..3073cd2 100644
--- a/src/main.c
+++ b/src/main.c
@@ -355,7 +355,7 @@ int main(int argc, char **argv)
 		signal(SIGTSTP, SIG_IGN);
 #endif
 		if (daemon(1, 0) < 0) {
-			log_global(LOG_ERROR, "Unable to daemonize\n");
+			log_global(LOG_ERROR, "Unable to daemonize");
 			g_free(config_dir);
 			return -1;
 		}
diff --git a/src/settings.c b/src/settings.c
index 86641bd..43709dd 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -403,7 +403,7 @@ void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_
 
 	if (!g_file_test(configuration_dir, G_FILE_TEST_IS_DIR)) {
 		if (g_mkdir(configuration_dir, 0700) != 0) {
-			log_global(LOG_ERROR, "Unable to open configuration directory '%s'\n", configuration_dir);
+			log_global(LOG_ERROR, "Unable to open configuration directory '%s'", configuration_dir);
 			return;
 		}
 	}
-- 
2.43.0


From f5786af80e77249a904c90efbd81beb6061433ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:40 +0000
Subject: [PATCH 054/138] fix: do not read past the end of TOPIC without
 parameters

---
 libirc/redirect.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libirc/redirect.c b/libirc/redirect.c
index 929ae2f..2d7d1aa 100644
--- a/libirc/redirect.c
+++ b/libirc/redirect.c
@@ -606,7 +606,7 @@ static int handle_default(const struct irc_line *l, struct query_stack *stack,
 
 static int handle_topic(const struct irc_line *l, struct query_stack *stack, void *userdata, struct query *q)
 {
-	if (l->args[2] != NULL)
+	if (l->argc > 2)
 		return 0;
 	return handle_default(l,stack,userdata,q);
 }
-- 
2.43.0


From 249100b3502d107c4b44369de54cc90ca85277fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:13 +0000
Subject: [PATCH 055/138] fix: parse and write numeric IPv6 hosts, paths and
 malformed ports in server addresses

---
 libirc/url.c | 70 ++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 54 insertions(+), 16 deletions(-)

diff --git a/libirc/url.c b/libirc/url.c
index 566847b..3f27045 100644
--- a/libirc/url.c
+++ b/libirc/url.c
@@ -23,16 +23,25 @@
 
 char *irc_create_url(const char *server, const char *port, gboolean ssl)
 {
+	const char *open = "", *close = "";
+
+	/* Numeric IPv6 host */
+	if (strchr(server, ':') != NULL) {
+		open = "[";
+		close = "]";
+	}
+
 	if (ssl && (!strcmp("ircs", port) || !strcmp("994", port)))
-		return g_strdup_printf("ircs://%s", server);
+		return g_strdup_printf("ircs://%s%s%s", open, server, close);
 	if (!ssl && (!strcmp("ircd", port) || !strcmp("6667", port)))
-		return g_strdup_printf("irc://%s", server);
-	return g_strdup_printf("%s://%s:%s", (ssl?"ircs":"irc"), server, port);
+		return g_strdup_printf("irc://%s%s%s", open, server, close);
+	return g_strdup_printf("%s://%s%s%s:%s", (ssl?"ircs":"irc"),
+						   open, server, close, port);
 }
 
 gboolean irc_parse_url(const char *url, char **server, char **port, gboolean *ssl)
 {
-	char *p, *q;
+	char *p, *host, *address;
 
 	if (!strncmp(url, "irc://", strlen("irc://"))) {
 		*ssl = FALSE;
@@ -49,25 +58,54 @@ gboolean irc_parse_url(const char *url, char **server, char **port, gboolean *ss
 		*ssl = FALSE;
 	}
 
-	q = strchr(url, '/');
-	p = strchr(url, ':');
-	if (p != NULL && (q == NULL || p < q)) {
-		*port = g_strdup(p+1);
-		*server = g_strndup(url, p-url);
-		return TRUE;
+	*server = NULL;
+	*port = NULL;
+
+	/* Anything after the first slash is not part of the address */
+	address = g_strndup(url, strcspn(url, "/"));
+	host = address;
+
+	if (host[0] == '[') {
+		/* Numeric IPv6 host */
+		host++;
+		p = strchr(host, ']');
+		if (p == NULL || (p[1] != '\0' && p[1] != ':')) {
+			g_free(address);
+			return FALSE;
+		}
+		*p++ = '\0';
+	} else {
+		p = strchr(host, ':');
+		/* Numeric IPv6 host without port */
+		if (p != NULL && strchr(p+1, ':') != NULL)
+			p = NULL;
 	}
 
-	if (*ssl) {
-		*port = g_strdup(IRCS_PORT);
+	if (p != NULL && *p == ':') {
+		*p++ = '\0';
+		if (*p == '\0') {
+			g_free(address);
+			return FALSE;
+		}
 	} else {
-		*port = g_strdup(IRC_PORT);
+		p = NULL;
+	}
+
+	if (host[0] == '\0') {
+		g_free(address);
+		return FALSE;
 	}
 
-	if (q != NULL) {
-		*server = g_strndup(url, q - url);
+	if (p != NULL) {
+		*port = g_strdup(p);
+	} else if (*ssl) {
+		*port = g_strdup(IRCS_PORT);
 	} else {
-		*server = g_strdup(url);
+		*port = g_strdup(IRC_PORT);
 	}
 
+	*server = g_strdup(host);
+	g_free(address);
+
 	return TRUE;
 }
-- 
2.43.0


From 9e02cb705cc8857ad67ce2be899e0ee0067f6958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:13 +0000
Subject: [PATCH 056/138] fix: do not free the configuration on malformed
 autoconnect entries nor list their networks twice

---
 src/settings.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 43709dd..63c0351 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -768,13 +768,13 @@ static struct network_config *find_create_network_config(struct ctrlproxy_config
 	if (!irc_parse_url(name, &tc->host, &tc->port, &tc->ssl)) {
 		log_global(LOG_ERROR, "Error parsing server URL %s", name);
 		g_free(tc);
-		free_config(cfg);
+		cfg->networks = g_list_remove(cfg->networks, nc);
+		g_free(nc->name);
+		g_free(nc);
 		return NULL;
 	}
 	nc->type_settings.tcp.servers = g_list_append(nc->type_settings.tcp.servers, tc);
 
-	cfg->networks = g_list_append(cfg->networks, nc);
-
 	return nc;
 }
 
@@ -1453,7 +1453,8 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 	for (i = 0; i < size; i++) {
 		struct network_config *nc = find_create_network_config(cfg, autoconnect_list[i]);
 
-		g_assert(nc);
+		if (nc == NULL)
+			continue;
 		nc->autoconnect = TRUE;
 	}
 
-- 
2.43.0


From b8615e475dc916b2eb32372fe833d564237f3b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:31 +0000
Subject: [PATCH 057/138] fix: allow filters and hooks to remove themselves and
 any priority

---
 src/client.c |  7 +++++--
 src/hooks.c  | 18 ++++++++++++------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/client.c b/src/client.c
index 71848d4..fe56a04 100644
--- a/src/client.c
+++ b/src/client.c
@@ -263,10 +263,13 @@ void del_lose_client_hook(const char *name)
 
 static void handle_client_disconnect(struct irc_client *c)
 {
-	GList *l;
+	GList *l, *next;
 
-	for (l = lose_client_hooks; l; l = l->next) {
+	for (l = lose_client_hooks; l; l = next) {
 		struct lose_client_hook_data *d = (struct lose_client_hook_data *)l->data;
+
+		/* The hook may remove itself */
+		next = l->next;
 		d->hook(c, d->userdata);
 	}
 
diff --git a/src/hooks.c b/src/hooks.c
index 32e454b..6a5ab0d 100644
--- a/src/hooks.c
+++ b/src/hooks.c
@@ -31,7 +31,9 @@ static gint filter_cmp(gconstpointer _a, gconstpointer _b)
 	struct filter_data *a = (struct filter_data *)_a;
 	struct filter_data *b = (struct filter_data *)_b;
 
-	return a->priority - b->priority;
+	if (a->priority < b->priority)
+		return -1;
+	return (a->priority > b->priority);
 }
 
 static GList *add_filter_ex(GList *class, const char *name, server_filter_function f, void *userdata, int prio)
@@ -69,11 +71,12 @@ static gboolean filter_class_execute(GList *gl, struct irc_network *s, enum data
 	while(gl) {
 		struct filter_data *d = (struct filter_data *)gl->data;
 
+		/* The filter may remove itself */
+		gl = gl->next;
+
 		if (!d->function(s, l, dir, d->userdata)) {
 			return FALSE;
 		}
-
-		gl = gl->next;
 	}
 
 	return TRUE;
@@ -138,13 +141,16 @@ void del_new_client_hook(const char *name)
 
 gboolean new_client_hook_execute(struct irc_client *c)
 {
-	GList *l;
+	GList *l, *next;
 
-	for (l = new_client_hooks; l; l = l->next) {
+	for (l = new_client_hooks; l; l = next) {
 		struct new_client_hook_data *d = (struct new_client_hook_data *)l->data;
 
+		/* The hook may remove itself */
+		next = l->next;
+
 		if (!d->hook(c, d->userdata)) {
-			g_debug(("New client hook '%s' refused new client"), d->name);
+			g_debug("New client hook refused new client");
 			return FALSE;
 		}
 	}
-- 
2.43.0


From b5584814f1919a917864319cecbc2e32b36198e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:47 +0000
Subject: [PATCH 058/138] fix: find help topics of several words

---
 src/admin.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index 880876a..c657916 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -103,18 +103,26 @@ static void network_admin_out(admin_handle h, const char *data)
 static void cmd_help(admin_handle h, const char * const *args, void *userdata)
 {
 	const char *s;
+	char *topic = NULL;
 
-	s = help_get(help, args[1] != NULL?args[1]:"index");
+	/* Topics can consist of several words */
+	if (args[1] != NULL)
+		topic = g_strjoinv(" ", (char **)args+1);
+
+	s = help_get(help, topic != NULL?topic:"index");
 
 	if (s == NULL) {
-		if (args[1] == NULL) {
+		if (topic == NULL) {
 			admin_out(h, "Sorry, help not available");
 		} else {
-			admin_out(h, "Sorry, no help for %s available", args[1]);
+			admin_out(h, "Sorry, no help for %s available", topic);
 		}
+		g_free(topic);
 		return;
 	}
 
+	g_free(topic);
+
 	while (strncmp(s, "%\n", 2) != 0) {
 		char *tmp;
 		admin_out(h, "%s", tmp = g_strndup(s, strchr(s, '\n')-s));
-- 
2.43.0


From 2e6d599c3b26c244e98e9827e16a848366a43924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:47 +0000
Subject: [PATCH 059/138] fix: do not look up topics in help files that could
 not be parsed

---
 src/help.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/help.c b/src/help.c
index 2b912c6..2a8cd93 100644
--- a/src/help.c
+++ b/src/help.c
@@ -102,7 +102,7 @@ help_t *help_load_file( const char *helpfile )
 
 const char *help_get(help_t *h, const char *string)
 {
-	if (h == NULL)
+	if (h == NULL || h->entries == NULL)
 		return NULL;
 	return g_hash_table_lookup(h->entries, string);
 }
-- 
2.43.0


From 51a32778ed75b767683dafd30c58a7a1158f5c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:47 +0000
Subject: [PATCH 060/138] fix: read message of the day files that are not UTF-8

---
 src/motd.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/motd.c b/src/motd.c
index 1c7f080..3206633 100644
--- a/src/motd.c
+++ b/src/motd.c
@@ -38,6 +38,9 @@ char ** get_motd_lines(const char *motd_file)
 		return NULL;
 	}
 
+	/* The contents are passed on as they are */
+	g_io_channel_set_encoding(fd, NULL, NULL);
+
 	while (1) {
 		GIOStatus status;
 		char *buf;
-- 
2.43.0


From d77892cdf512d3d5c4cd5a0a78d70d6fe56e5045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:47 +0000
Subject: [PATCH 061/138] fix: read all entries of key files that are not UTF-8

---
 src/keyfile.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keyfile.c b/src/keyfile.c
index 22a67e3..9a82a39 100644
--- a/src/keyfile.c
+++ b/src/keyfile.c
@@ -42,6 +42,9 @@ gboolean keyfile_read_file(const char *filename, char commentchar, GList **nicks
 		return FALSE;
 	}
 
+	/* Entries can be in any character set */
+	g_io_channel_set_encoding(gio, NULL, NULL);
+
 	while (G_IO_STATUS_NORMAL == g_io_channel_read_line(gio, &ret, &nr, &term, NULL))
 	{
 		char **parts;
-- 
2.43.0


From 4bf4a0c8b1de411d12d8d4401256935865ddd2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:54 +0000
Subject: [PATCH 062/138] fix: write key files completely and atomically,
 without leaving old contents behind

---
 src/keyfile.c | 64 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 21 deletions(-)

diff --git a/src/keyfile.c b/src/keyfile.c
index 9a82a39..3e374c7 100644
--- a/src/keyfile.c
+++ b/src/keyfile.c
@@ -87,41 +87,63 @@ gboolean keyfile_read_file(const char *filename, char commentchar, GList **nicks
 	return TRUE;
 }
 
+static gboolean write_all(int fd, const char *data, size_t len)
+{
+	while (len > 0) {
+		ssize_t ret = write(fd, data, len);
+		if (ret < 0) {
+			if (errno == EINTR)
+				continue;
+			return FALSE;
+		}
+		data += ret;
+		len -= ret;
+	}
+	return TRUE;
+}
+
 gboolean keyfile_write_file(GList *nicks, const char *header,
 							const char *filename)
 {
 	GList *gl;
+	GString *data;
+	char *tmpname;
 	int fd;
+	gboolean ok;
 
-	fd = open(filename, O_WRONLY | O_CREAT, 0600);
+	data = g_string_new(header);
 
-	if (fd == -1) {
-		log_global(LOG_WARNING, "Unable to write nickserv file `%s': %s", filename, strerror(errno));
-		return FALSE;
+	for (gl = nicks; gl; gl = gl->next) {
+		struct keyfile_entry *n = gl->data;
+
+		g_string_append_printf(data, "%s\t%s\t%s\n", n->nick, n->pass, n->network?n->network:"*");
 	}
 
-	if (write(fd, header, strlen(header)) < 0) {
-		log_global(LOG_WARNING, "error writing file header: %s", strerror(errno));
-		close(fd);
+	/* Never leave a partially written file behind */
+	tmpname = g_strdup_printf("%s.new", filename);
+
+	fd = open(tmpname, O_WRONLY | O_CREAT | O_TRUNC, 0600);
+
+	if (fd == -1) {
+		log_global(LOG_WARNING, "Unable to write key file `%s': %s", filename, strerror(errno));
+		g_string_free(data, TRUE);
+		g_free(tmpname);
 		return FALSE;
 	}
 
-	for (gl = nicks; gl; gl = gl->next) {
-		struct keyfile_entry *n = gl->data;
-		char *line;
-
-		line = g_strdup_printf("%s\t%s\t%s\n", n->nick, n->pass, n->network?n->network:"*");
-		if (write(fd, line, strlen(line)) < 0) {
-			log_global(LOG_WARNING, "error writing line `%s': %s", line, strerror(errno));
-			g_free(line);
-			close(fd);
-			return FALSE;
-		}
+	ok = write_all(fd, data->str, data->len) && fsync(fd) == 0;
+	if (close(fd) != 0)
+		ok = FALSE;
+	if (ok && rename(tmpname, filename) != 0)
+		ok = FALSE;
 
-		g_free(line);
+	if (!ok) {
+		log_global(LOG_WARNING, "Error writing key file `%s': %s", filename, strerror(errno));
+		unlink(tmpname);
 	}
 
-	close(fd);
+	g_string_free(data, TRUE);
+	g_free(tmpname);
 
-	return TRUE;
+	return ok;
 }
-- 
2.43.0


From e4a840664d7a2dff7e78556d72d5174a1671063c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:47 +0000
Subject: [PATCH 063/138] fix: keep the history readable when storing or
 reading part of it fails

---
 libirc/linestack.c | 541 +++++++++++++++++++++++----------------------
 libirc/linestack.h |   8 +
 2 files changed, 284 insertions(+), 265 deletions(-)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 873f9e4..49ccb83 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -28,6 +28,7 @@
 #include <fcntl.h>
 #include <stdio.h>
 #include <errno.h>
+#include <unistd.h>
 
 #include <glib/gstdio.h>
 #include <sys/stat.h>
@@ -38,13 +39,12 @@
  */
 struct linestack_context
 {
-	GIOChannel *line_file;
+	int line_fd;
+	int index_fd;
 	char *state_dir;
-	GIOChannel *state_file;
-	GIOChannel *index_file;
-	int count;
-	int last_line_with_state;
-
+	guint64 count; /* Number of messages stored */
+	guint64 line_end; /* End of the last message stored in the line file */
+	guint64 last_line_with_state;
 };
 
 /* Index file format
@@ -52,8 +52,13 @@ struct linestack_context
  * 8 bytes - current time
  * 8 bytes - index of the last line with state printed
  */
+struct index_record {
+	guint64 offset;
+	time_t time;
+	guint64 state_index;
+};
 
-#define INDEX_RECORD_SIZE (sizeof(guint64) + sizeof(time_t) + sizeof(guint64))
+#define INDEX_RECORD_SIZE (sizeof(struct index_record))
 #define STATE_DUMP_INTERVAL 1000
 
 #define LF_CHECK_IO_STATUS(status)	if (status != G_IO_STATUS_NORMAL) { \
@@ -73,22 +78,87 @@ typedef gboolean (*marshall_fn_t) (struct irc_network_state *, const char *name,
 
 
 
-static gboolean file_insert_state(struct linestack_context *ctx,
-							  const struct irc_network_state *state,
-							  guint64 state_id);
-
-
 static char *state_path(struct linestack_context *lf_data, guint64 state_id);
 
 static gboolean marshall_network_state(enum marshall_mode m, GIOChannel *t,
 									   struct irc_network_state *n);
 
 
-static gint64 g_io_channel_tell_position(GIOChannel *gio)
+static gboolean pwrite_all(int fd, const void *buf, size_t len, off_t offset)
 {
-	int fd = g_io_channel_unix_get_fd(gio);
-	g_io_channel_flush(gio, NULL);
-	return lseek(fd, 0, SEEK_CUR);
+	const char *data = buf;
+
+	while (len > 0) {
+		ssize_t ret = pwrite(fd, data, len, offset);
+		if (ret < 0 && errno == EINTR)
+			continue;
+		if (ret <= 0)
+			return FALSE;
+		data += ret;
+		offset += ret;
+		len -= ret;
+	}
+	return TRUE;
+}
+
+/**
+ * Read at a position, as much as there is.
+ *
+ * @return number of bytes read, -1 on error
+ */
+static ssize_t pread_some(int fd, void *buf, size_t len, off_t offset)
+{
+	size_t done = 0;
+
+	while (done < len) {
+		ssize_t ret = pread(fd, (char *)buf + done, len - done, offset + done);
+		if (ret < 0 && errno == EINTR)
+			continue;
+		if (ret < 0)
+			return -1;
+		if (ret == 0)
+			break;
+		done += ret;
+	}
+	return done;
+}
+
+static gboolean read_index_entry(struct linestack_context *nd, guint64 i,
+								 struct index_record *rec)
+{
+	if (i >= nd->count) {
+		log_global(LOG_WARNING, "no line %"PRIu64" in index", i);
+		return FALSE;
+	}
+
+	if (pread_some(nd->index_fd, rec, sizeof(*rec), i * INDEX_RECORD_SIZE) != sizeof(*rec)) {
+		log_global(LOG_WARNING, "reading line %"PRIu64" in index failed", i);
+		return FALSE;
+	}
+
+	/* Only the first message is at the start of the file */
+	if ((i > 0 && rec->offset == 0) || rec->offset >= nd->line_end) {
+		log_global(LOG_WARNING, "invalid entry for line %"PRIu64" in index", i);
+		return FALSE;
+	}
+
+	return TRUE;
+}
+
+static int open_data_file(const char *data_dir, const char *name, gboolean truncate)
+{
+	char *path = g_build_filename(data_dir, name, NULL);
+	int fd;
+
+	g_assert(path != NULL);
+
+	fd = open(path, O_RDWR | O_CREAT | (truncate?O_TRUNC:0), 0666);
+	if (fd == -1)
+		log_global(LOG_WARNING, "Error opening `%s': %s", path, strerror(errno));
+	else
+		fcntl(fd, F_SETFD, FD_CLOEXEC);
+	g_free(path);
+	return fd;
 }
 
 struct linestack_context *create_linestack(const char *data_dir,
@@ -96,50 +166,26 @@ struct linestack_context *create_linestack(const char *data_dir,
 										   const struct irc_network_state *state)
 {
 	struct linestack_context *data = g_new0(struct linestack_context, 1);
-	char *data_file;
-	char *index_file, *state_file;
+	char *state_file;
 	GError *error = NULL;
 	const char *fname;
 	GDir *dir;
-	const char *mode;
 
-	g_mkdir(data_dir, 0700);
-	data_file = g_build_filename(data_dir, "lines", NULL);
-	g_assert(data_file != NULL);
+	data->line_fd = data->index_fd = -1;
 
-	if (truncate)
-		mode = "w+";
-	else
-		mode = "a+";
+	g_mkdir(data_dir, 0700);
 
-	data->line_file = g_io_channel_new_file(data_file, mode, &error);
-	if (data->line_file == NULL) {
-		log_global(LOG_WARNING, "Error opening `%s': %s",
-						  data_file, error->message);
-		g_error_free(error);
-		g_free(data);
-		g_free(data_file);
+	data->line_fd = open_data_file(data_dir, "lines", truncate);
+	if (data->line_fd == -1) {
+		free_linestack_context(data);
 		return NULL;
 	}
-	g_free(data_file);
-
-	g_io_channel_set_encoding(data->line_file, NULL, NULL);
-
-	index_file = g_build_filename(data_dir, "index", NULL);
-	g_assert(index_file != NULL);
 
-	data->index_file = g_io_channel_new_file(index_file, mode, &error);
-	if (data->index_file == NULL) {
-		log_global(LOG_WARNING, "Error opening `%s': %s",
-						  index_file, error->message);
-		g_error_free(error);
-		g_free(index_file);
-		g_free(data);
+	data->index_fd = open_data_file(data_dir, "index", truncate);
+	if (data->index_fd == -1) {
+		free_linestack_context(data);
 		return NULL;
 	}
-	g_free(index_file);
-
-	g_io_channel_set_encoding(data->index_file, NULL, NULL);
 
 	state_file = g_build_filename(data_dir, "state", NULL);
 	unlink(state_file);
@@ -149,28 +195,18 @@ struct linestack_context *create_linestack(const char *data_dir,
 	g_mkdir(data->state_dir, 0755);
 
 	if (!truncate) {
-		GIOStatus status;
-		status = g_io_channel_seek_position(data->index_file, 0, G_SEEK_END,
-											&error);
-		if (status != G_IO_STATUS_NORMAL) {
-			log_global(LOG_WARNING, "Error seeking end of index file: %s",
-						  error->message);
-			g_error_free(error);
-			g_free(data);
-			return NULL;
-		}
+		off_t index_end = lseek(data->index_fd, 0, SEEK_END);
+		off_t line_end = lseek(data->line_fd, 0, SEEK_END);
 
-		status = g_io_channel_seek_position(data->line_file, 0, G_SEEK_END,
-											&error);
-		if (status != G_IO_STATUS_NORMAL) {
-			log_global(LOG_WARNING, "Error seeking end of line file: %s",
-						  error->message);
-			g_error_free(error);
-			g_free(data);
+		if (index_end == -1 || line_end == -1) {
+			log_global(LOG_WARNING, "Error seeking end of linestack files: %s",
+						  strerror(errno));
+			free_linestack_context(data);
 			return NULL;
 		}
 
-		data->count = g_io_channel_tell_position(data->index_file) / INDEX_RECORD_SIZE;
+		data->count = index_end / INDEX_RECORD_SIZE;
+		data->line_end = line_end;
 
 		/* FIXME: Write the diff between the previously stored state and
 		 * the state to store now. */
@@ -180,7 +216,7 @@ struct linestack_context *create_linestack(const char *data_dir,
 			log_global(LOG_WARNING, "Error opening directory `%s': %s",
 							  data->state_dir, error->message);
 			g_error_free(error);
-			g_free(data);
+			free_linestack_context(data);
 			return NULL;
 		}
 
@@ -193,9 +229,9 @@ struct linestack_context *create_linestack(const char *data_dir,
 		g_dir_close(dir);
 	}
 
-	if (!file_insert_state(data, state, 0)) {
+	if (!linestack_insert_state(data, state)) {
 		log_global(LOG_WARNING, "Unable to insert state");
-		g_free(data);
+		free_linestack_context(data);
 		return NULL;
 	}
 	return data;
@@ -203,8 +239,10 @@ struct linestack_context *create_linestack(const char *data_dir,
 
 void free_linestack_context(struct linestack_context *data)
 {
-	g_io_channel_unref(data->line_file);
-	g_io_channel_unref(data->index_file);
+	if (data->line_fd != -1)
+		close(data->line_fd);
+	if (data->index_fd != -1)
+		close(data->index_fd);
 	g_free(data->state_dir);
 	g_free(data);
 }
@@ -213,10 +251,8 @@ struct irc_network_state *linestack_get_state(
 		struct linestack_context *nd, linestack_marker to_index)
 {
 	struct irc_network_state *ret;
-	gint64 t;
 	guint64 state_index;
 	GError *error = NULL;
-	GIOStatus status;
 	char *data_file;
 	GIOChannel *state_file;
 
@@ -225,37 +261,17 @@ struct irc_network_state *linestack_get_state(
 	if (nd == NULL)
 		return NULL;
 
-	/* Flush channel before reading otherwise data corruption may occur */
-	status = g_io_channel_flush(nd->line_file, &error);
-	LF_CHECK_IO_STATUS(status);
-
-	status = g_io_channel_flush(nd->index_file, &error);
-	LF_CHECK_IO_STATUS(status);
+	if (to_index == NULL) {
+		state_index = nd->last_line_with_state;
+	} else if (*to_index == 0) {
+		state_index = 0;
+	} else {
+		struct index_record rec;
 
-	if (to_index != NULL) {
-		t = (*to_index)-1;
-		status = g_io_channel_seek_position(nd->index_file,
-			t * INDEX_RECORD_SIZE + sizeof(guint64) + sizeof(time_t),
-			G_SEEK_SET, &error);
-		LF_CHECK_IO_STATUS(status);
-		status = g_io_channel_read_chars(nd->index_file, (void *)&state_index,
-										 sizeof(guint64), NULL, &error);
-		if (status == G_IO_STATUS_ERROR) {
-			log_global(LOG_ERROR, "Unable to ready entry %"PRIi64" in index: %s",
-					   t, error->message);
-			g_error_free(error);
-			return NULL;
-		} else if (status == G_IO_STATUS_EOF) {
-			log_global(LOG_ERROR, "EOF reading entry %"PRIi64" in index", t);
+		if (!read_index_entry(nd, (*to_index)-1, &rec))
 			return NULL;
-		}
 
-		/* Go back to the end of the index file */
-		status = g_io_channel_seek_position(nd->index_file, 0, G_SEEK_END,
-											&error);
-		LF_CHECK_IO_STATUS(status);
-	} else {
-		state_index = nd->last_line_with_state;
+		state_index = rec.state_index;
 	}
 
 	data_file = state_path(nd, state_index);
@@ -272,9 +288,13 @@ struct irc_network_state *linestack_get_state(
 
 	g_io_channel_set_encoding(state_file, NULL, NULL);
 
+	g_io_channel_set_line_term(state_file, "\n", 1);
+
 	ret = network_state_init("", "", "");
 	if (!marshall_network_state(MARSHALL_PULL, state_file, ret)) {
+		log_global(LOG_WARNING, "Unable to read state %"PRIu64, state_index);
 		g_io_channel_unref(state_file);
+		free_network_state(ret);
 		return NULL;
 	}
 
@@ -287,7 +307,6 @@ struct irc_network_state *linestack_get_state(
 	g_io_channel_unref(state_file);
 
 	g_assert(ret->me.nick != NULL);
-	g_assert(ret->me.query);
 	return ret;
 }
 
@@ -297,69 +316,53 @@ gboolean linestack_read_entry(struct linestack_context *nd,
 							  time_t *time
 							 )
 {
-	guint64 offset;
-	GError *error = NULL;
-	gchar *raw = NULL;
-	GIOStatus status;
+	struct index_record rec;
+	GString *raw;
+	char buf[512];
 
-	status = g_io_channel_seek_position(nd->index_file,
-										i * INDEX_RECORD_SIZE,
-										G_SEEK_SET, &error);
-	if (status != G_IO_STATUS_NORMAL) {
-		log_global(LOG_WARNING, "seeking line %"PRIi64" in index failed: %s", i,
-				   error->message);
-		g_error_free(error);
+	if (!read_index_entry(nd, i, &rec))
 		return FALSE;
-	}
 
-	status = g_io_channel_read_chars(nd->index_file, (void *)&offset,
-									 sizeof(guint64), NULL, &error);
-	if (status != G_IO_STATUS_NORMAL) {
-		log_global(LOG_WARNING, "reading line %"PRIi64" in index failed: %s", i,
-				   error->message);
-		g_error_free(error);
-		return FALSE;
-	}
+	raw = g_string_new(NULL);
 
-	status = g_io_channel_read_chars(nd->index_file, (void *)time,
-									 sizeof(time_t), NULL, &error);
-	if (status != G_IO_STATUS_NORMAL) {
-		log_global(LOG_WARNING, "reading time %"PRIi64" in index failed: %s", i,
-				   error->message);
-		g_error_free(error);
-		return FALSE;
-	}
+	while (TRUE) {
+		ssize_t len = pread_some(nd->line_fd, buf, sizeof(buf), rec.offset + raw->len);
+		char *end;
 
-	status = g_io_channel_seek_position(nd->line_file, offset, G_SEEK_SET,
-										&error);
-	if (status != G_IO_STATUS_NORMAL) {
-		log_global(LOG_WARNING, "seeking line %"PRIi64" (%"PRIi64") in data failed: %s",
-				   i, offset, error->message);
-		g_error_free(error);
-		return FALSE;
+		if (len <= 0) {
+			log_global(LOG_WARNING, "reading line %"PRIu64" (%"PRIu64") in data failed",
+					   i, rec.offset);
+			g_string_free(raw, TRUE);
+			return FALSE;
+		}
+
+		end = memchr(buf, '\n', len);
+		if (end != NULL)
+			len = end - buf;
+		g_string_append_len(raw, buf, len);
+		if (end != NULL)
+			break;
 	}
 
-	status = g_io_channel_read_line(nd->line_file, &raw, NULL, NULL, &error);
-	if (status == G_IO_STATUS_ERROR) {
-		log_global(LOG_WARNING, "read_line() failed: %s", error->message);
-		g_error_free(error);
+	if (strlen(raw->str) != raw->len) {
+		log_global(LOG_WARNING, "line %"PRIu64" in data is damaged", i);
+		g_string_free(raw, TRUE);
 		return FALSE;
 	}
 
-	*line = irc_parse_line(raw);
-	g_free(raw);
+	*line = irc_parse_line(raw->str);
+	*time = rec.time;
+	g_string_free(raw, TRUE);
 
-	return TRUE;
+	return (*line != NULL);
 }
 
 gboolean linestack_traverse(struct linestack_context *nd,
 		linestack_marker lm_from, linestack_marker lm_to,
 		linestack_traverse_fn handler, void *userdata)
 {
-	gint64 start_index, end_index;
+	guint64 end_index;
 	gboolean ret = TRUE;
-	GError *error = NULL;
-	GIOStatus status = G_IO_STATUS_NORMAL;
 	struct irc_line *l;
 	time_t time;
 	guint64 i;
@@ -367,38 +370,25 @@ gboolean linestack_traverse(struct linestack_context *nd,
 	if (nd == NULL)
 		return FALSE;
 
-	/* Flush channel before reading otherwise data corruption may occur */
-	g_io_channel_flush(nd->line_file, &error);
+	end_index = nd->count;
+	if (lm_to != NULL && *lm_to < end_index)
+		end_index = *lm_to;
 
-	g_io_channel_flush(nd->index_file, &error);
+	for (i = (lm_from == NULL)?0:*lm_from; i < end_index; i++) {
+		gboolean more;
 
-	if (lm_from == NULL) {
-		start_index = 0;
-	} else {
-		start_index = *lm_from;
-	}
-
-	if (lm_to == NULL) {
-		end_index = nd->count;
-	} else {
-		end_index = *((guint64 *)lm_to);
-	}
-
-	for (i = start_index; i < end_index; i++) {
 		l = NULL;
-		ret = linestack_read_entry(nd, i, &l, &time);
-		if (ret)
-			ret &= handler(l, time, userdata);
+		if (!linestack_read_entry(nd, i, &l, &time)) {
+			/* The others may still be readable */
+			ret = FALSE;
+			continue;
+		}
+		more = handler(l, time, userdata);
 		free_line(l);
-		if (!ret) break;
+		if (!more)
+			return FALSE;
 	}
 
-	status = g_io_channel_seek_position(nd->line_file, 0, G_SEEK_END, &error);
-	LF_CHECK_IO_STATUS(status);
-
-	status = g_io_channel_seek_position(nd->index_file, 0, G_SEEK_END, &error);
-	LF_CHECK_IO_STATUS(status);
-
 	return ret;
 }
 
@@ -480,36 +470,15 @@ static const char *linestack_messages[] = {
 	"329", /* RPL_CREATIONTIME */
 	NULL };
 
-gboolean write_index_entry(GIOChannel *ioc, guint64 line_offset, time_t time,
-					   guint64 state_line_index)
-{
-	GError *error = NULL;
-	GIOStatus status;
-
-	status = g_io_channel_write_chars(ioc, (void *)&line_offset, sizeof(guint64), NULL,
-									  &error);
-	LF_CHECK_IO_STATUS(status);
-
-	status = g_io_channel_write_chars(ioc, (void *)&time, sizeof(time_t), NULL, &error);
-	LF_CHECK_IO_STATUS(status);
-
-	status = g_io_channel_write_chars(ioc, (void *)&state_line_index, sizeof(guint64),
-									  NULL, &error);
-	LF_CHECK_IO_STATUS(status);
-
-	return TRUE;
-}
-
-
 gboolean linestack_insert_line(struct linestack_context *nd,
 							   const struct irc_line *l, enum data_direction dir,
 							   const struct irc_network_state *state)
 {
 	int i;
 	gboolean needed = FALSE;
-	GError *error = NULL;
-	GIOStatus status;
-	gboolean ret;
+	struct index_record rec;
+	char *raw;
+	size_t len;
 
 	if (nd == NULL) return TRUE;
 
@@ -538,27 +507,33 @@ gboolean linestack_insert_line(struct linestack_context *nd,
 		g_assert(strchr(l->args[i], '\r') == NULL);
 	}
 
-	if (nd->count >= nd->last_line_with_state + STATE_DUMP_INTERVAL) {
-		ret = file_insert_state(nd, state, nd->count);
-		if (ret == FALSE)
-			return FALSE;
-	}
+	raw = irc_line_string_nl(l);
+	len = strlen(raw);
 
-	if (!write_index_entry(nd->index_file,
-					  g_io_channel_tell_position(nd->line_file),
-					  time(NULL),
-					  nd->last_line_with_state))
+	if (!pwrite_all(nd->line_fd, raw, len, nd->line_end)) {
+		log_global(LOG_ERROR, "Unable to write to linestack file: %s", strerror(errno));
+		g_free(raw);
 		return FALSE;
+	}
+	g_free(raw);
 
-	status = irc_send_line(nd->line_file, (GIConv)-1, l, &error);
+	rec.offset = nd->line_end;
+	rec.time = time(NULL);
+	rec.state_index = nd->last_line_with_state;
 
-	if (status != G_IO_STATUS_NORMAL) {
-		log_global(LOG_ERROR, "Unable to write to linestack file: %s", error->message);
-		g_error_free(error);
+	if (!pwrite_all(nd->index_fd, &rec, sizeof(rec), nd->count * INDEX_RECORD_SIZE)) {
+		log_global(LOG_ERROR, "Unable to write to linestack index: %s", strerror(errno));
 		return FALSE;
 	}
 
+	/* The message only counts now that it is completely stored */
+	nd->line_end += len;
 	nd->count++;
+
+	if (nd->count >= nd->last_line_with_state + STATE_DUMP_INTERVAL &&
+		!linestack_insert_state(nd, state))
+		log_global(LOG_WARNING, "Unable to insert state");
+
 	return TRUE;
 }
 
@@ -679,7 +654,7 @@ gboolean linestack_replay(struct linestack_context *ctx,
 }
 
 
-#define marshall_new(m,t) if ((m) == MARSHALL_PULL) *(t) = g_malloc(sizeof(**t));
+#define marshall_new(m,t) if ((m) == MARSHALL_PULL) *(t) = g_malloc0(sizeof(**t));
 
 static const char tabs[10] = {'\t', '\t', '\t', '\t', '\t',
 			       '\t', '\t', '\t', '\t', '\t' };
@@ -721,25 +696,39 @@ static gboolean marshall_get (GIOChannel *t, int level, const char *name, char *
 	char *line;
 	GIOStatus status;
 	GError *error = NULL;
-	gsize term;
+	gsize length, term;
+	size_t namelen = strlen(name);
+	const char *rest;
+	gboolean ret = TRUE;
+
+	*value = NULL;
 
-	status = g_io_channel_read_line(t, &line, NULL, &term, &error);
+	status = g_io_channel_read_line(t, &line, &length, &term, &error);
 	LF_CHECK_IO_STATUS(status);
 
-	line[term] = '\0';
+	if (term >= length) {
+		/* Not written completely */
+		g_free(line);
+		return FALSE;
+	}
 
-	g_assert(strncmp(line, tabs, level) == 0);
-	g_assert(strncmp(line+level, name, strlen(name)) == 0);
+	line[term] = '\0';
 
-	if (line[level+strlen(name)] == ':') {
-		*value = g_strdup(line+level+strlen(name)+2);
-	} else {
-		*value = NULL;
+	if (strncmp(line, tabs, level) != 0 ||
+		strncmp(line+level, name, namelen) != 0) {
+		g_free(line);
+		return FALSE;
 	}
 
+	rest = line+level+namelen;
+	if (rest[0] == ':' && rest[1] == ' ')
+		*value = g_strdup(rest+2);
+	else if (rest[0] != '\0')
+		ret = FALSE;
+
 	g_free(line);
 
-	return TRUE;
+	return ret;
 }
 
 static gboolean marshall_struct(GIOChannel *t, enum marshall_mode m, int level, const char *name)
@@ -754,7 +743,10 @@ static gboolean marshall_struct(GIOChannel *t, enum marshall_mode m, int level,
 		char *v;
 		gboolean ret = marshall_get(t, level, name, &v);
 		if (!ret) return FALSE;
-		if (v != NULL) return FALSE;
+		if (v != NULL) {
+			g_free(v);
+			return FALSE;
+		}
 		return TRUE;
 	}
 }
@@ -787,7 +779,7 @@ static gboolean marshall_bool(struct irc_network_state *nst, const char *name,
 		gboolean ret;
 		char *val;
 		ret = marshall_get(t, level, name, &val);
-		if (!ret) return FALSE;
+		if (!ret || val == NULL) return FALSE;
 
 		if (!strcmp(val, "true")) { *n = TRUE; g_free(val); return TRUE; }
 		if (!strcmp(val, "false")) { *n = FALSE; g_free(val); return TRUE; }
@@ -808,7 +800,7 @@ static gboolean marshall_char(struct irc_network_state *nst, const char *name, i
 	} else {
 		char *d;
 		gboolean ret = marshall_get(t, level, name, &d);
-		if (!ret) return FALSE;
+		if (!ret || d == NULL) return FALSE;
 
 		*n = d[0];
 
@@ -821,7 +813,7 @@ static gboolean marshall_char(struct irc_network_state *nst, const char *name, i
 static gboolean marshall_int(struct irc_network_state *nst, const char *name, int level, enum marshall_mode m, GIOChannel *t, int *n)
 {
 	if (m == MARSHALL_PUSH) {
-		char tmp[10];
+		char tmp[20];
 		GError *error = NULL;
 		GIOStatus status;
 		g_snprintf(tmp, sizeof(tmp), "%d", *n);
@@ -830,7 +822,7 @@ static gboolean marshall_int(struct irc_network_state *nst, const char *name, in
 	} else {
 		char *tmp;
 		gboolean ret = marshall_get(t, level, name, &tmp);
-		if (!ret) return FALSE;
+		if (!ret || tmp == NULL) return FALSE;
 
 		*n = atoi(tmp);
 
@@ -852,7 +844,7 @@ static gboolean marshall_time(struct irc_network_state *nst, const char *name, i
 	} else {
 		char *tmp;
 		gboolean ret = marshall_get(t, level, name, &tmp);
-		if (!ret) return FALSE;
+		if (!ret || tmp == NULL) return FALSE;
 
 		*n = strtol(tmp, NULL, 0);
 
@@ -875,20 +867,21 @@ static gboolean marshall_modes(struct irc_network_state *nst, const char *name,
 		char *tmp;
 		gboolean ret = marshall_get(t, level, name, &tmp);
 		if (!ret) return FALSE;
-		string2mode(tmp, n);
+		ret = string2mode(tmp, n);
 		g_free(tmp);
-		return TRUE;
+		return ret;
 	}
 }
 
 static gboolean marshall_network_nick (struct irc_network_state *nst, const char *name, int level, enum marshall_mode m, GIOChannel *t, struct network_nick *n)
 {
 	gboolean ret = TRUE;
-	marshall_struct(t, m, level, name);
+	ret &= marshall_struct(t, m, level, name);
 	ret &= marshall_bool(nst, "query", level+1, m, t, &n->query);
 	ret &= marshall_modes(nst, "modes", level+1, m, t, n->modes);
 	ret &= marshall_string(nst, "nick", level+1, m, t, &n->nick);
-	g_assert(n->nick);
+	if (n->nick == NULL)
+		return FALSE;
 	ret &= marshall_string(nst, "fullname", level+1, m, t, &n->fullname);
 	ret &= marshall_string(nst, "username", level+1, m, t, &n->username);
 	ret &= marshall_string(nst, "hostname", level+1, m, t, &n->hostname);
@@ -916,15 +909,17 @@ struct ht_traverse_data
 
 static gboolean marshall_GList (struct irc_network_state *nst, const char *name, int level, enum marshall_mode m, GIOChannel *t, GList **gl, marshall_fn_t marshall_fn)
 {
-	marshall_struct(t, m, level, name);
+	if (!marshall_struct(t, m, level, name))
+		return FALSE;
 	if (m == MARSHALL_PULL) {
 		int count;
 		int i;
 
-		marshall_int(nst, "count", level+1, m, t, &count);
-
 		*gl = NULL;
 
+		if (!marshall_int(nst, "count", level+1, m, t, &count))
+			return FALSE;
+
 		for (i = 0; i < count; i++) {
 			void *v;
 			char name[20];
@@ -938,7 +933,8 @@ static gboolean marshall_GList (struct irc_network_state *nst, const char *name,
 		int i = 0;
 		GList *l;
 
-		marshall_int(nst, "count", level+1, m, t, &count);
+		if (!marshall_int(nst, "count", level+1, m, t, &count))
+			return FALSE;
 
 		for (l = *gl; l; l = l->next) {
 			char name[20];
@@ -956,7 +952,7 @@ static gboolean marshall_nicklist_entry (struct irc_network_state *nst, const ch
 {
 	gboolean ret = TRUE;
 	marshall_new(m, d);
-	marshall_struct(t, m, level, name);
+	ret &= marshall_struct(t, m, level, name);
 	ret &= marshall_time(nst, "time", level+1, m, t, &(*d)->time_set);
 	ret &= marshall_string(nst, "hostmask", level+1, m, t, &(*d)->hostmask);
 	ret &= marshall_string(nst, "by", level+1, m, t, &(*d)->by);
@@ -971,7 +967,7 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 	int i;
 	gboolean ret = TRUE;
 	marshall_new(m, c);
-	marshall_struct(t, m, level, name);
+	ret &= marshall_struct(t, m, level, name);
 
 	ret &= marshall_char(nst, "mode", level+1, m, t, &((*c)->mode));
 	ret &= marshall_modes(nst, "modes", level+1, m, t, (*c)->modes);
@@ -983,8 +979,10 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 	ret &= marshall_string(nst, "topic", level+1, m, t, &(*c)->topic);
 	ret &= marshall_string(nst, "topic_set_by", level+1, m, t, &(*c)->topic_set_by);
 	ret &= marshall_time(nst, "topic_set_time", level+1, m, t, &(*c)->topic_set_time);
+	if ((*c)->name == NULL)
+		return FALSE;
 	for (i = 0; i < MAXMODES; i++) {
-		char name[20];
+		char name[40];
 		g_snprintf(name, sizeof(name), "mode_nicklist[%d]", i);
 		ret &= marshall_GList(nst, name, level+1, m, t, &(*c)->chanmode_nicklist[i], (marshall_fn_t)marshall_nicklist_entry);
 		g_snprintf(name, sizeof(name), "mode_option[%d]", i);
@@ -992,7 +990,7 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 	}
 	(*c)->network = nst;
 
-	marshall_struct(t, m, level+1, "nicks");
+	ret &= marshall_struct(t, m, level+1, "nicks");
 
 	/* Nicks  */
 	if (m == MARSHALL_PULL) {
@@ -1001,40 +999,45 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 
 		(*c)->nicks = NULL;
 
-		marshall_int(nst, "count", level+2, m, t, &count);
+		if (!marshall_int(nst, "count", level+2, m, t, &count))
+			return FALSE;
 
 		for (i = 0; i < count; i++) {
 			struct channel_nick *cn;
 			char *nick;
-			char tmp[10];
+			char tmp[20];
 			g_snprintf(tmp, sizeof(tmp), "[%d]", i);
 
-			marshall_struct(t, m, level+2, tmp);
+			if (!marshall_struct(t, m, level+2, tmp))
+				return FALSE;
 
-			if (!marshall_string(nst, "nick", level+3, m, t, &nick))
+			if (!marshall_string(nst, "nick", level+3, m, t, &nick) ||
+				nick == NULL)
 				return FALSE;
 
 			cn = find_add_channel_nick(*c, nick);
-			g_assert(cn);
+			g_free(nick);
+			if (cn == NULL)
+				return FALSE;
 
 			if (!marshall_modes(nst, "modes", level+3, m, t, cn->modes))
 				return FALSE;
-
-			g_free(nick);
 		}
 	} else {
 		int count = g_list_length((*c)->nicks);
-		char tmp[10];
+		char tmp[20];
 		int i = 0;
 		GList *l;
 
-		marshall_int(nst, "count", level+2, m, t, &count);
+		if (!marshall_int(nst, "count", level+2, m, t, &count))
+			return FALSE;
 
 		for (l = (*c)->nicks; l; l = l->next) {
 			struct channel_nick *cn = l->data;
 			g_snprintf(tmp, sizeof(tmp), "[%d]", i);
 
-			marshall_struct(t, m, level+2, tmp);
+			if (!marshall_struct(t, m, level+2, tmp))
+				return FALSE;
 
 			if (!marshall_string(nst, "nick", level+3, m, t, &cn->global_nick->nick))
 				return FALSE;
@@ -1057,13 +1060,17 @@ static gboolean marshall_network_state(enum marshall_mode m, GIOChannel *t,
 	if (m == MARSHALL_PULL) {
 		g_free(n->me.hostmask);
 		n->me.hostmask = NULL;
+		g_free(n->me.nick);
+		n->me.nick = NULL;
+		g_free(n->me.username);
+		n->me.username = NULL;
+		g_free(n->me.hostname);
+		n->me.hostname = NULL;
 	}
 	ret &= marshall_network_nick(n, "me", 0, m, t, &n->me);
 	ret &= marshall_GList(n, "nicks", 0, m, t, &n->nicks, (marshall_fn_t)marshall_network_nick_p);
 	ret &= marshall_GList(n, "channels", 0, m, t, &n->channels, (marshall_fn_t)marshall_channel_state);
 
-	g_assert(n->me.nick);
-
 	return ret;
 }
 
@@ -1079,18 +1086,18 @@ static char *state_path(struct linestack_context *lf_data, guint64 state_id)
 	return ret;
 }
 
-static gboolean file_insert_state(struct linestack_context *nd,
-							  const struct irc_network_state *state,
-							  guint64 state_id)
+gboolean linestack_insert_state(struct linestack_context *nd,
+								const struct irc_network_state *state)
 {
 	GError *error = NULL;
 	GIOStatus status;
 	GIOChannel *state_file;
 	char *data_file;
+	gboolean ret;
 
 	log_global(LOG_TRACE, "Inserting state");
 
-	data_file = state_path(nd, state_id);
+	data_file = state_path(nd, nd->count);
 
 	state_file = g_io_channel_new_file(data_file, "w+", &error);
 	if (state_file == NULL) {
@@ -1100,20 +1107,24 @@ static gboolean file_insert_state(struct linestack_context *nd,
 		g_free(data_file);
 		return FALSE;
 	}
-	g_free(data_file);
 
 	g_io_channel_set_encoding(state_file, NULL, NULL);
 
-	nd->last_line_with_state = nd->count;
-
-	marshall_network_state(MARSHALL_PUSH, state_file, (struct irc_network_state *)state);
+	ret = marshall_network_state(MARSHALL_PUSH, state_file, (struct irc_network_state *)state);
 
-	status = g_io_channel_flush(state_file, &error);
-	LF_CHECK_IO_STATUS(status);
+	status = g_io_channel_shutdown(state_file, TRUE, &error);
+	if (status != G_IO_STATUS_NORMAL) {
+		log_global(LOG_WARNING, "Error writing `%s': %s",
+				   data_file, error != NULL?error->message:"Unknown");
+		g_clear_error(&error);
+		ret = FALSE;
+	}
 
 	g_io_channel_unref(state_file);
+	g_free(data_file);
 
-	return TRUE;
-}
-
+	if (ret)
+		nd->last_line_with_state = nd->count;
 
+	return ret;
+}
diff --git a/libirc/linestack.h b/libirc/linestack.h
index f91fdd1..37efcd9 100644
--- a/libirc/linestack.h
+++ b/libirc/linestack.h
@@ -93,6 +93,14 @@ G_GNUC_WARN_UNUSED_RESULT G_MODULE_EXPORT gboolean linestack_insert_line(
 		enum data_direction dir,
 		const struct irc_network_state *);
 
+/**
+ * Store a snapshot of the state of the network, which belongs after the last
+ * message stored so far.
+ */
+G_GNUC_WARN_UNUSED_RESULT G_MODULE_EXPORT gboolean linestack_insert_state(
+		struct linestack_context *,
+		const struct irc_network_state *);
+
 G_MODULE_EXPORT void linestack_free_marker(linestack_marker );
 G_GNUC_WARN_UNUSED_RESULT G_MODULE_EXPORT linestack_marker linestack_get_marker(struct linestack_context *);
 
-- 
2.43.0


From ebec26606a9459352ab7be287c33f7487eaf3daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:47 +0000
Subject: [PATCH 064/138] fix: include everything that is known in the
 snapshots of the history

---
 libirc/linestack.c | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 49ccb83..9860ef1 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -887,6 +887,7 @@ static gboolean marshall_network_nick (struct irc_network_state *nst, const char
 	ret &= marshall_string(nst, "hostname", level+1, m, t, &n->hostname);
 	ret &= marshall_string(nst, "hostmask", level+1, m, t, &n->hostmask);
 	ret &= marshall_string(nst, "server", level+1, m, t, &n->server);
+	ret &= marshall_int(nst, "hops", level+1, m, t, &n->hops);
 	if (m == MARSHALL_PULL)
 		n->channel_nicks = NULL;
 	return ret;
@@ -979,12 +980,16 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 	ret &= marshall_string(nst, "topic", level+1, m, t, &(*c)->topic);
 	ret &= marshall_string(nst, "topic_set_by", level+1, m, t, &(*c)->topic_set_by);
 	ret &= marshall_time(nst, "topic_set_time", level+1, m, t, &(*c)->topic_set_time);
+	ret &= marshall_time(nst, "creation_time", level+1, m, t, &(*c)->creation_time);
+	ret &= marshall_bool(nst, "mode_received", level+1, m, t, &(*c)->mode_received);
 	if ((*c)->name == NULL)
 		return FALSE;
 	for (i = 0; i < MAXMODES; i++) {
 		char name[40];
 		g_snprintf(name, sizeof(name), "mode_nicklist[%d]", i);
 		ret &= marshall_GList(nst, name, level+1, m, t, &(*c)->chanmode_nicklist[i], (marshall_fn_t)marshall_nicklist_entry);
+		g_snprintf(name, sizeof(name), "mode_nicklist_present[%d]", i);
+		ret &= marshall_bool(nst, name, level+1, m, t, &(*c)->chanmode_nicklist_present[i]);
 		g_snprintf(name, sizeof(name), "mode_option[%d]", i);
 		ret &= marshall_string(nst, name, level+1, m, t, &(*c)->chanmode_option[i]);
 	}
@@ -1052,10 +1057,39 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 	return ret;
 }
 
+static gboolean marshall_network_info(struct irc_network_state *nst, const char *name,
+									  int level, enum marshall_mode m, GIOChannel *t)
+{
+	char *tmp;
+	gboolean ret;
+
+	if (m == MARSHALL_PUSH) {
+		tmp = network_info_string(nst->info);
+		ret = marshall_string(nst, name, level, m, t, &tmp);
+	} else {
+		char **tokens;
+		int i;
+
+		ret = marshall_string(nst, name, level, m, t, &tmp);
+		if (!ret || tmp == NULL)
+			return ret;
+
+		tokens = g_strsplit(tmp, " ", 0);
+		for (i = 0; tokens[i]; i++) {
+			if (tokens[i][0] != '\0')
+				network_info_parse(nst->info, tokens[i]);
+		}
+		g_strfreev(tokens);
+	}
+	g_free(tmp);
+	return ret;
+}
+
 static gboolean marshall_network_state(enum marshall_mode m, GIOChannel *t,
 									   struct irc_network_state *n)
 {
 	gboolean ret = TRUE;
+	int casemapping;
 
 	if (m == MARSHALL_PULL) {
 		g_free(n->me.hostmask);
@@ -1067,6 +1101,11 @@ static gboolean marshall_network_state(enum marshall_mode m, GIOChannel *t,
 		g_free(n->me.hostname);
 		n->me.hostname = NULL;
 	}
+	ret &= marshall_network_info(n, "isupport", 0, m, t);
+	casemapping = n->info->casemapping;
+	ret &= marshall_int(n, "casemapping", 0, m, t, &casemapping);
+	n->info->casemapping = casemapping;
+	ret &= marshall_bool(n, "is_away", 0, m, t, &n->is_away);
 	ret &= marshall_network_nick(n, "me", 0, m, t, &n->me);
 	ret &= marshall_GList(n, "nicks", 0, m, t, &n->nicks, (marshall_fn_t)marshall_network_nick_p);
 	ret &= marshall_GList(n, "channels", 0, m, t, &n->channels, (marshall_fn_t)marshall_channel_state);
-- 
2.43.0


From f4c010a97fd06ac9fe9c6691bda5df3de61f3bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:04 +0000
Subject: [PATCH 065/138] fix: do not abort when the history can not be stored

---
 libirc/connection.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/libirc/connection.c b/libirc/connection.c
index 27348a5..5e96367 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -53,7 +53,6 @@ static void server_send_login (struct irc_network *s)
 	network_state_set_log_fn(s->external_state, state_log_helper, s);
 	if (s->callbacks->state_set)
 		s->callbacks->state_set(s);
-	g_assert(s->linestack != NULL);
 
 	if (login_details->password != NULL) {
 		network_send_args(s, "PASS", login_details->password, NULL);
-- 
2.43.0


From 6bd6e32e10cff8eb675c25fcc7269d9592d07db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:04 +0000
Subject: [PATCH 066/138] fix: only log in once when the message of the day is
 received again

---
 src/network.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/network.c b/src/network.c
index d373778..09a720f 100644
--- a/src/network.c
+++ b/src/network.c
@@ -136,7 +136,8 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 					l->args[2], tmp);
 		network_nick_set_nick(&n->external_state->me, tmp);
 		g_free(tmp);
-	} else if (response == RPL_ENDOFMOTD || response == ERR_NOMOTD) {
+	} else if ((response == RPL_ENDOFMOTD || response == ERR_NOMOTD) &&
+			   n->connection.state == NETWORK_CONNECTION_STATE_LOGIN_SENT) {
 		int i;
 		GList *gl;
 		n->connection.state = NETWORK_CONNECTION_STATE_MOTD_RECVD;
-- 
2.43.0


From 549e457034d6c3878535b369ee9d7c42ebc22685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:04 +0000
Subject: [PATCH 067/138] fix: start the history with the state after logging
 in

---
 src/network.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/network.c b/src/network.c
index 09a720f..b83c349 100644
--- a/src/network.c
+++ b/src/network.c
@@ -154,6 +154,11 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 
 		network_update_isupport(n->info, n->external_state->info);
 
+		/* The history starts here, with what was learnt while logging in */
+		if (n->linestack != NULL &&
+			!linestack_insert_state(n->linestack, n->external_state))
+			network_log(LOG_WARNING, n, "Unable to store the state in the history.");
+
 		nickserv_identify_me(n, n->external_state->me.nick);
 
 		clients_send_state(n->clients, n->external_state);
-- 
2.43.0


From d45bae7d2970dd9908fc516b8a7468c299ae4572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:04 +0000
Subject: [PATCH 068/138] fix: ignore case when looking for the history of a
 channel or nick

---
 libirc/linestack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 9860ef1..5e84fb6 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -407,13 +407,13 @@ static gboolean traverse_object_handler(struct irc_line *l, time_t t, void *stat
 		return TRUE;
 
 	if (strchr(l->args[1], ',') == NULL) {
-		if (!strcmp(l->args[1], d->object))
+		if (!str_rfc1459cmp(l->args[1], d->object))
 			ret &= d->handler(l, t, d->userdata);
 	} else {
 		int i;
 		char **channels = g_strsplit(l->args[1], ",", 0);
 		for (i = 0; channels[i]; i++) {
-			if (!strcmp(channels[i], d->object)) {
+			if (!str_rfc1459cmp(channels[i], d->object)) {
 				gboolean ret = d->handler(l, t, d->userdata);
 				g_strfreev(channels);
 				return ret;
-- 
2.43.0


From 3225a25a12150c34c271862eeb6988d31db4847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:34 +0000
Subject: [PATCH 069/138] fix: also keep replies to clients in the history when
 they change the state

---
 src/network.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/network.c b/src/network.c
index b83c349..f2829b2 100644
--- a/src/network.c
+++ b/src/network.c
@@ -182,9 +182,8 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 	}
 
 	if (n->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD) {
-		gboolean linestack_store = TRUE;
 		if (irc_line_respcode(l)) {
-			linestack_store &= (!redirect_response(n->queries, n, l));
+			redirect_response(n->queries, n, l);
 		} else {
 			if (n->clients == NULL) {
 				if (!base_strcmp(l->args[0], "PRIVMSG") && l->argc > 2 &&
@@ -208,7 +207,7 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 			}
 		}
 
-		if (linestack_store && n->linestack != NULL) {
+		if (n->linestack != NULL) {
 			if (!linestack_insert_line(n->linestack, l, FROM_SERVER, n->external_state)) {
 				if (n->linestack_errors == 0)
 					network_log(LOG_WARNING, n,
-- 
2.43.0


From 27f50d4783511dd2267a8371a191ebff1ad6de1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:34 +0000
Subject: [PATCH 070/138] fix: do not send netsplits forever when a user can
 not be removed from the state

---
 libirc/client.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/libirc/client.c b/libirc/client.c
index 78d2c86..737d9c0 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -919,6 +919,7 @@ gboolean client_send_netsplit(struct irc_client *c, const char *my_name,
 	struct irc_network_state *s = c->state;
 	char *reason;
 	gboolean ret = TRUE;
+	GList *names = NULL, *gl;
 
 	if (s == NULL) {
 		return FALSE;
@@ -927,21 +928,24 @@ gboolean client_send_netsplit(struct irc_client *c, const char *my_name,
 	/* Spoof a netsplit */
 	reason = g_strdup_printf("%s %s", my_name, lost_server);
 
-	while (s->nicks != NULL) {
-		GList *gl = s->nicks;
+	/* Users are removed from the state while telling about them */
+	for (gl = s->nicks; gl; gl = gl->next) {
 		struct network_nick *gn = gl->data;
+		names = g_list_prepend(names, g_strdup(gn->nick));
+	}
+	names = g_list_reverse(names);
+
+	for (gl = names; gl && ret; gl = gl->next) {
+		struct network_nick *gn = find_network_nick(s, gl->data);
 
 		/* Skip self */
-		if (gn == &s->me) {
-			gl = gl->next;
-			if (gl == NULL)
-				break;
-			gn = gl->data;
-		}
-		ret = client_send_nick_quit(c, gn, reason);
-		if (!ret) {
-			break;
-		}
+		if (gn != NULL && gn != &s->me)
+			ret = client_send_nick_quit(c, gn, reason);
+	}
+
+	while (names != NULL) {
+		g_free(names->data);
+		names = g_list_delete_link(names, names);
 	}
 
 	g_free(reason);
-- 
2.43.0


From dcec938153fa4ea5bc528cd935f9ea944c6bdd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:35 +0000
Subject: [PATCH 071/138] build: compile as gnu99 instead of strict C90

With -ansi not even a C99 comment is accepted.
---
 configure.ac | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/configure.ac b/configure.ac
index 70e6993..243a60b 100644
--- a/configure.ac
+++ b/configure.ac
@@ -26,7 +26,7 @@ AC_PROG_INSTALL
 AC_PATH_PROG(IRCDTORTURE,ircdtorture)
 
 if test "$GCC" = "yes"; then
-	CFLAGS="$CFLAGS -ansi -Wall"
+	CFLAGS="$CFLAGS -std=gnu99 -Wall"
 	DYNAMIC="-rdynamic"
 fi
 AC_SUBST(GCC)
-- 
2.43.0


From c3eac742014e8fc5ff1f91cd085f970152d2c42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:31 +0000
Subject: [PATCH 072/138] fix: forget backlog positions when the backlog they
 refer to is gone

---
 src/admin.c         |  6 ++++++
 src/internals.h     |  2 ++
 src/network.c       |  3 +++
 src/repl_backends.c | 14 ++++++++++++++
 4 files changed, 25 insertions(+)

diff --git a/src/admin.c b/src/admin.c
index c657916..7b4ae5d 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -602,6 +602,12 @@ static void cmd_die(admin_handle h, const char * const *args, void *userdata)
 
 static GHashTable *markers = NULL;
 
+void admin_forget_backlog_position(struct irc_network *n)
+{
+	if (markers != NULL)
+		g_hash_table_remove(markers, n);
+}
+
 static void cmd_backlog(admin_handle h, const char * const *args, void *userdata)
 {
 	linestack_marker lm;
diff --git a/src/internals.h b/src/internals.h
index 1da1693..94528bc 100644
--- a/src/internals.h
+++ b/src/internals.h
@@ -132,6 +132,7 @@ void global_update_config(struct global *my_global);
 
 /* repl.c */
 void client_replicate(struct irc_client *);
+void replication_forget_positions(struct irc_network *n);
 
 gboolean init_replication(void);
 
@@ -152,6 +153,7 @@ void nickserv_identify_me(struct irc_network *network, char *nick);
 void init_admin(void);
 gboolean admin_process_command(struct irc_client *c, struct irc_line *l, int cmdoffset);
 void admin_log(enum log_level level, const struct irc_network *n, const struct irc_client *c, const char *data);
+void admin_forget_backlog_position(struct irc_network *n);
 gboolean start_admin_socket(struct global *global);
 gboolean stop_admin_socket(struct global *global);
 gboolean admin_socket_prompt(const char *config_dir, gboolean python);
diff --git a/src/network.c b/src/network.c
index f2829b2..84f3b41 100644
--- a/src/network.c
+++ b/src/network.c
@@ -389,6 +389,9 @@ static void handle_network_disconnect(struct irc_network *n)
 	if (n->linestack != NULL) {
 		free_linestack_context(n->linestack);
 		n->linestack = NULL;
+		/* Positions in it mean nothing in the next one */
+		replication_forget_positions(n);
+		admin_forget_backlog_position(n);
 	}
 }
 
diff --git a/src/repl_backends.c b/src/repl_backends.c
index 3c69940..f84ae79 100644
--- a/src/repl_backends.c
+++ b/src/repl_backends.c
@@ -18,6 +18,7 @@
 */
 
 #include "ctrlproxy.h"
+#include "internals.h"
 #include <string.h>
 
 static char **matches = NULL;
@@ -94,6 +95,19 @@ static void lastdisconnect_replicate(struct irc_client *c)
 				   c->network->global->config->report_time_offset);
 }
 
+/**
+ * Forget positions in the backlog of a network, because that backlog is gone.
+ */
+void replication_forget_positions(struct irc_network *n)
+{
+	if (markers != NULL)
+		g_hash_table_remove(markers, n);
+	if (lastdisconnect_backlog != NULL)
+		g_hash_table_remove(lastdisconnect_backlog, n);
+	if (simple_backlog != NULL)
+		g_hash_table_remove(simple_backlog, n);
+}
+
 static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum data_direction dir, void *userdata)
 {
 	if(dir != TO_SERVER) return TRUE;
-- 
2.43.0


From 01561a71945e5ef523db2e5709518873557506ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:37 +0000
Subject: [PATCH 073/138] fix: replay a whole backlog starting from the state
 before it

---
 src/repl_backends.c | 47 +++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/repl_backends.c b/src/repl_backends.c
index f84ae79..d6f2682 100644
--- a/src/repl_backends.c
+++ b/src/repl_backends.c
@@ -76,25 +76,45 @@ static void lastdisconnect_mark(struct irc_client *c, void *userdata)
 							 linestack_get_marker(c->network->linestack));
 }
 
-static void lastdisconnect_replicate(struct irc_client *c)
+/**
+ * Send the state at a position in the backlog and everything that happened
+ * since.
+ *
+ * @param from Position to start from, NULL for the start of the backlog.
+ */
+static void replicate_since(struct irc_client *c, linestack_marker from)
 {
-	linestack_marker lm = g_hash_table_lookup(lastdisconnect_backlog, c->network);
 	struct irc_network_state *ns;
+	guint64 start = 0;
+	gboolean dataonly = FALSE;
 
 	if (c->network->linestack == NULL)
 		return;
 
-	ns = linestack_get_state(c->network->linestack, lm);
+	if (from == NULL)
+		from = &start;
+
+	ns = linestack_get_state(c->network->linestack, from);
 	if (ns != NULL) {
 		client_send_state(c, ns);
+		free_network_state(ns);
+	} else {
+		/* The events can not be replayed without the state before them */
+		if (c->network->external_state != NULL)
+			client_send_state(c, c->network->external_state);
+		dataonly = TRUE;
 	}
-	free_network_state(ns);
 
-	linestack_send(c->network->linestack, lm, NULL, c, FALSE,
+	linestack_send(c->network->linestack, from, NULL, c, dataonly,
 				   c->network->global->config->report_time != REPORT_TIME_NEVER,
 				   c->network->global->config->report_time_offset);
 }
 
+static void lastdisconnect_replicate(struct irc_client *c)
+{
+	replicate_since(c, g_hash_table_lookup(lastdisconnect_backlog, c->network));
+}
+
 /**
  * Forget positions in the backlog of a network, because that backlog is gone.
  */
@@ -124,22 +144,7 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 
 static void simple_replicate(struct irc_client *c)
 {
-	linestack_marker m;
-	struct irc_network_state *ns;
-
-	if (c->network->linestack == NULL)
-		return;
-
-	m = g_hash_table_lookup(simple_backlog, c->network);
-	ns = linestack_get_state(c->network->linestack, m);
-	if (ns) {
-		client_send_state(c, ns);
-	}
-	free_network_state(ns);
-
-	linestack_send(c->network->linestack, m, NULL, c, FALSE,
-				   c->network->global->config->report_time != REPORT_TIME_NEVER,
-				   c->network->global->config->report_time_offset);
+	replicate_since(c, g_hash_table_lookup(simple_backlog, c->network));
 }
 
 static const struct replication_backend backends[] = {
-- 
2.43.0


From 203736d5d6d20ede63af67ee7dae0423df7b5708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:37 +0000
Subject: [PATCH 074/138] fix: an automatic CTCP reply does not end the backlog
 the user has to see

---
 src/repl_backends.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/repl_backends.c b/src/repl_backends.c
index d6f2682..3956198 100644
--- a/src/repl_backends.c
+++ b/src/repl_backends.c
@@ -135,6 +135,10 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 	if (base_strcmp(l->args[0], "PRIVMSG") &&
 		base_strcmp(l->args[0], "NOTICE")) return TRUE;
 
+	/* CTCP requests and (automatic) replies aren't said by the user */
+	if (l->argc > 2 && l->args[2][0] == '\001' &&
+		base_strncmp(l->args[2], "\001ACTION", 7) != 0) return TRUE;
+
 	if (n->linestack != NULL)
 		g_hash_table_replace(simple_backlog, irc_network_ref(n),
 							 linestack_get_marker(n->linestack));
-- 
2.43.0


From e41c3cfc32c5549d2565b47aa5ee1bffc2bf2706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:37 +0000
Subject: [PATCH 075/138] fix: connections that never register do not count as
 the last client that left

---
 src/repl_backends.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/repl_backends.c b/src/repl_backends.c
index 3956198..a85dedd 100644
--- a/src/repl_backends.c
+++ b/src/repl_backends.c
@@ -68,7 +68,8 @@ static void none_replicate(struct irc_client *c)
 
 static void lastdisconnect_mark(struct irc_client *c, void *userdata)
 {
-	if (!c->network)
+	/* Somebody who never registered hasn't seen anything */
+	if (!c->network || !c->authenticated)
 		return;
 
 	if (c->network->linestack != NULL)
-- 
2.43.0


From 0c15ae8812b0c5a38e47890f2658b1e05546c870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:38 +0000
Subject: [PATCH 076/138] fix: highlight replication survives messages without
 text and reports the time

---
 src/repl_backends.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/repl_backends.c b/src/repl_backends.c
index a85dedd..2ccb541 100644
--- a/src/repl_backends.c
+++ b/src/repl_backends.c
@@ -29,14 +29,20 @@ static GHashTable *simple_backlog = NULL;
 static gboolean check_highlight(struct irc_line *l, time_t t, void *userdata)
 {
 	struct irc_client *c = userdata;
+	struct ctrlproxy_config *config = c->network->global->config;
 	int i;
 
 	if (base_strcmp(l->args[0], "PRIVMSG") != 0 &&
 		base_strcmp(l->args[0], "NOTICE") != 0)
 		return TRUE;
 
+	if (l->argc < 3)
+		return TRUE;
+
 	for (i = 0; matches && matches[i]; i++) {
 		if (strstr(l->args[2], matches[i]) != NULL) {
+			if (config->report_time != REPORT_TIME_NEVER)
+				line_prefix_time(l, t + config->report_time_offset);
 			return client_send_line(c, l, NULL);
 		}
 	}
-- 
2.43.0


From 245b5e6e7358509a1e604055fe5965bac820f6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:42 +0000
Subject: [PATCH 077/138] fix: match replies with the query they answer

Queries that are only answered when they fail stayed around and caught
errors and replies meant for other clients.
---
 libirc/redirect.c | 196 +++++++++++++++++++++++++++++++++++++++++-----
 libirc/redirect.h |   3 +
 src/network.c     |   8 +-
 src/redirect.c    |   9 ++-
 4 files changed, 194 insertions(+), 22 deletions(-)

diff --git a/libirc/redirect.c b/libirc/redirect.c
index 2d7d1aa..37ebe44 100644
--- a/libirc/redirect.c
+++ b/libirc/redirect.c
@@ -22,7 +22,8 @@
 #include <string.h>
 #include "irc.h"
 
-/* TODO: Clean up stack occasionally */
+/* Queries the server does not have to answer are forgotten after this time (in seconds) */
+#define QUERY_EXPIRE_TIME 300
 
 struct query_stack *new_query_stack(void (*ref_userdata) (void *), void (*unref_userdata) (void *))
 {
@@ -37,6 +38,8 @@ struct query_stack *new_query_stack(void (*ref_userdata) (void *), void (*unref_
 
 static int handle_default(const struct irc_line *, struct query_stack *stack,
 						  void *userdata, struct query *);
+static int handle_mode(const struct irc_line *, struct query_stack *stack,
+						void *userdata, struct query *);
 static int handle_topic(const struct irc_line *, struct query_stack *stack,
 						void *userdata, struct query *);
 
@@ -83,7 +86,7 @@ static struct query queries[] = {
 	{"TOPIC",
 		{ 0 },
 		{ RPL_NOTOPIC, RPL_TOPIC, RPL_TRYAGAIN, 0 },
-		{ ERR_NOTONCHANNEL, ERR_NEEDMOREPARAMS, ERR_CHANOPPRIVSNEEDED,
+		{ ERR_NOTONCHANNEL, ERR_NOSUCHCHANNEL, ERR_NEEDMOREPARAMS, ERR_CHANOPPRIVSNEEDED,
 			ERR_NOCHANMODES, 0 },
 		handle_topic
 	},
@@ -260,12 +263,12 @@ static struct query queries[] = {
 			ERR_UMODEUNKNOWNFLAG, ERR_USERSDONTMATCH,
 			
 			/* Replies to channel mode queries */
-			ERR_USERNOTINCHANNEL, ERR_KEYSET, ERR_CHANOPPRIVSNEEDED,
+			ERR_USERNOTINCHANNEL, ERR_NOSUCHNICK, ERR_KEYSET, ERR_CHANOPPRIVSNEEDED,
 			ERR_UNKNOWNMODE, ERR_NOCHANMODES, ERR_NOSUCHCHANNEL,
 			ERR_ILLEGALCHANNELNAME,
 			
 			0 },
-		handle_default
+		handle_mode
 	},
 	
  /* SERVICE <nick> <reserved> <distribution> <type> <reserved> <info> */
@@ -479,6 +482,26 @@ static struct query queries[] = {
 	{ NULL }
 };
 
+static struct query topic_change_query = {
+	"TOPIC",
+	{ 0 },
+	{ RPL_TRYAGAIN, 0 },
+	{ ERR_NOTONCHANNEL, ERR_NOSUCHCHANNEL, ERR_NEEDMOREPARAMS,
+		ERR_CHANOPPRIVSNEEDED, ERR_NOCHANMODES, 0 },
+	handle_default
+};
+
+static struct query mode_change_query = {
+	"MODE",
+	{ 0 },
+	{ RPL_TRYAGAIN, 0 },
+	{ ERR_NEEDMOREPARAMS, ERR_UMODEUNKNOWNFLAG, ERR_USERSDONTMATCH,
+		ERR_USERNOTINCHANNEL, ERR_NOSUCHNICK, ERR_KEYSET,
+		ERR_CHANOPPRIVSNEEDED, ERR_UNKNOWNMODE, ERR_NOCHANMODES,
+		ERR_NOSUCHCHANNEL, ERR_ILLEGALCHANNELNAME, 0 },
+	handle_default
+};
+
 static struct query unknown_query = {
 	NULL,
 	{ 0 },
@@ -518,16 +541,110 @@ static struct query *find_query(char *name)
 
 static void query_stack_free_entry(struct query_stack *stack, struct query_stack_entry *s)
 {
-	stack->unref_userdata(s->userdata);
+	if (stack->unref_userdata != NULL)
+		stack->unref_userdata(s->userdata);
+	free_line(s->line);
 	g_free(s);
 }
 
-void *query_stack_match_response(struct query_stack *stack, const struct irc_line *l)
+/**
+ * Check whether a query is always answered by the server. The others are
+ * only answered when there is something wrong.
+ */
+static gboolean always_answered(const struct query_stack_entry *s)
+{
+	int i;
+
+	for (i = 0; s->query->end_replies[i]; i++) {
+		if (s->query->end_replies[i] != RPL_TRYAGAIN &&
+			s->query->end_replies[i] != RPL_AWAY)
+			return TRUE;
+	}
+
+	return FALSE;
+}
+
+/** Check whether an argument (a comma separated list) of a query mentions a name */
+static gboolean mentions(const char *arg, const char *name)
+{
+	size_t len = strlen(name);
+
+	while (arg != NULL) {
+		if (base_strncmp(arg, name, len) == 0 &&
+			(arg[len] == ',' || arg[len] == '\0'))
+			return TRUE;
+		arg = strchr(arg, ',');
+		if (arg != NULL)
+			arg++;
+	}
+
+	return FALSE;
+}
+
+/* Commands of which the replies repeat the names that were asked for */
+static const char *named_queries[] = { "WHOIS", "WHOWAS", "NAMES", "TOPIC",
+	"MODE", "JOIN", "PART", "NICK", "INVITE", "KICK", "PRIVMSG", "NOTICE",
+	"SQUERY", "KILL", NULL };
+
+/**
+ * Check whether a response can be about a particular query, given the names
+ * mentioned in it.
+ */
+static gboolean is_about(const struct query_stack_entry *s, int n, const struct irc_line *l)
+{
+	const struct irc_line *q = s->line;
+	const char *name;
+	int i;
+
+	/* These are about a command */
+	if (n == ERR_UNKNOWNCOMMAND || n == ERR_NEEDMOREPARAMS || n == RPL_TRYAGAIN)
+		return l->argc < 4 || base_strcmp(l->args[2], q->args[0]) == 0;
+
+	/* These are about a mode rather than about a name */
+	if (n == ERR_UNKNOWNMODE || n == ERR_UMODEUNKNOWNFLAG)
+		return TRUE;
+
+	if (q->argc < 2 || l->argc < 4)
+		return TRUE;
+
+	for (i = 0; named_queries[i]; i++) {
+		if (!base_strcmp(named_queries[i], q->args[0]))
+			break;
+	}
+
+	if (named_queries[i] == NULL &&
+		(base_strcmp(q->args[0], "WHO") != 0 || strchr("#&+!", q->args[1][0]) == NULL))
+		return TRUE;
+
+	name = (n == RPL_NAMREPLY)?l->args[3]:l->args[2];
+
+	for (i = 1; i < q->argc; i++) {
+		if (strpbrk(q->args[i], "*?") != NULL || mentions(q->args[i], name))
+			return TRUE;
+	}
+
+	return FALSE;
+}
+
+static void query_stack_remove_entry(struct query_stack *stack, struct query_stack_entry *s)
+{
+	stack->entries = g_list_remove(stack->entries, s);
+	query_stack_free_entry(stack, s);
+}
+
+/**
+ * Find the query that a response is an answer to.
+ *
+ * @param userdata Will be set to the userdata of the query, if there is one.
+ * @return Whether there is such a query.
+ */
+gboolean query_stack_find_response(struct query_stack *stack, const struct irc_line *l, void **userdata)
 {
 	int n;
-	void *ret = NULL;
 	GList *gl;
 
+	*userdata = NULL;
+
 	g_assert(l->args[0]);
 
 	n = irc_line_respcode(l);
@@ -535,24 +652,45 @@ void *query_stack_match_response(struct query_stack *stack, const struct irc_lin
 	/* Find a request that this response is a reply to */
 	for (gl = stack->entries; gl; gl = gl->next) {
 		struct query_stack_entry *s = gl->data;
-		if (is_reply(s->query->replies, n) ||
+		if ((is_reply(s->query->replies, n) ||
 			is_reply(s->query->errors, n) ||
-			is_reply(s->query->end_replies, n)) {
-			
-			ret = s->userdata;
+			is_reply(s->query->end_replies, n) ||
+			n == ERR_UNKNOWNCOMMAND) && is_about(s, n, l)) {
+
+			*userdata = s->userdata;
+
+			/* The server has come to this query, so there was nothing
+			 * wrong with those before it */
+			while (stack->entries->data != s) {
+				GList *prev;
+				for (prev = stack->entries; prev != gl; prev = prev->next) {
+					if (!always_answered(prev->data))
+						break;
+				}
+				if (prev == gl)
+					break;
+				query_stack_remove_entry(stack, prev->data);
+			}
 
 			/* Not a valid in-between reply ? Remove from stack */
 			if (!is_reply(s->query->replies, n)) {
-				/* Remove from stack */
-				stack->entries = g_list_remove(stack->entries, s);
-				query_stack_free_entry(stack, s);
+				query_stack_remove_entry(stack, s);
 			}
 
-			return ret;
+			return TRUE;
 		}
 	}
 
-	return NULL;
+	return FALSE;
+}
+
+void *query_stack_match_response(struct query_stack *stack, const struct irc_line *l)
+{
+	void *userdata;
+
+	query_stack_find_response(stack, l, &userdata);
+
+	return userdata;
 }
 
 void query_stack_clear(struct query_stack *stack)
@@ -594,19 +732,41 @@ static int handle_default(const struct irc_line *l, struct query_stack *stack,
 						  void *userdata, struct query *q)
 {
 	struct query_stack_entry *s = g_new(struct query_stack_entry, 1);
+	GList *gl, *next;
 	g_assert(l != NULL);
 	g_assert(q != NULL);
-	stack->ref_userdata(userdata);
+	if (stack->ref_userdata != NULL)
+		stack->ref_userdata(userdata);
 	s->userdata = userdata;
 	s->time = time(NULL);
 	s->query = q;
+	s->line = linedup(l);
+
+	for (gl = stack->entries; gl; gl = next) {
+		struct query_stack_entry *e = gl->data;
+		next = gl->next;
+		if (!always_answered(e) && e->time + QUERY_EXPIRE_TIME < s->time)
+			query_stack_remove_entry(stack, e);
+	}
+
 	stack->entries = g_list_append(stack->entries, s);
 	return 1;
 }
 
+static int handle_mode(const struct irc_line *l, struct query_stack *stack, void *userdata, struct query *q)
+{
+	/* Changing modes, rather than asking for the modes or a list, only gets
+	 * a reply if it fails */
+	if (l->argc > 3 ||
+		(l->argc > 2 && l->args[2][strspn(l->args[2], "+beIq")] != '\0'))
+		q = &mode_change_query;
+	return handle_default(l,stack,userdata,q);
+}
+
 static int handle_topic(const struct irc_line *l, struct query_stack *stack, void *userdata, struct query *q)
 {
+	/* Setting a topic only gets a reply if it fails */
 	if (l->argc > 2)
-		return 0;
+		q = &topic_change_query;
 	return handle_default(l,stack,userdata,q);
 }
diff --git a/libirc/redirect.h b/libirc/redirect.h
index afa2bc9..56617fc 100644
--- a/libirc/redirect.h
+++ b/libirc/redirect.h
@@ -43,6 +43,8 @@ struct query {
 
 struct query_stack_entry {
 	const struct query *query;
+	/** The query itself */
+	struct irc_line *line;
 	void *userdata;
 	time_t time;
 };
@@ -55,6 +57,7 @@ struct query_stack {
 
 
 
+gboolean query_stack_find_response(struct query_stack *stack, const struct irc_line *l, void **userdata);
 void *query_stack_match_response(struct query_stack *stack, const struct irc_line *l);
 gboolean query_stack_record(struct query_stack *stack, void *c, const struct irc_line *l);
 G_GNUC_WARN_UNUSED_RESULT struct query_stack *new_query_stack(void (*ref_userdata) (void *), void (*unref_userdata) (void *));
diff --git a/src/network.c b/src/network.c
index 84f3b41..4baea77 100644
--- a/src/network.c
+++ b/src/network.c
@@ -140,6 +140,7 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 			   n->connection.state == NETWORK_CONNECTION_STATE_LOGIN_SENT) {
 		int i;
 		GList *gl;
+		struct irc_line *userhost;
 		n->connection.state = NETWORK_CONNECTION_STATE_MOTD_RECVD;
 
 		/* Always save networks we've successfully connected to. */
@@ -163,7 +164,12 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 
 		clients_send_state(n->clients, n->external_state);
 
-		network_send_args(n, "USERHOST", n->external_state->me.nick, NULL);
+		/* Nobody asked for this, so nobody has to see the answer */
+		userhost = irc_parse_line_args(NULL, "USERHOST",
+									   n->external_state->me.nick, NULL);
+		query_stack_record(n->queries, NULL, userhost);
+		network_send_line(n, NULL, userhost);
+		free_line(userhost);
 
 		for (i = 0; nc->autocmd && nc->autocmd[i]; i++) {
 			struct irc_line *l = irc_parse_line(nc->autocmd[i]);
diff --git a/src/redirect.c b/src/redirect.c
index 7a05cb4..da9aadf 100644
--- a/src/redirect.c
+++ b/src/redirect.c
@@ -85,12 +85,15 @@ gboolean redirect_response(struct query_stack *stack,
 						   const struct irc_line *l)
 {
 	struct irc_client *c = NULL;
+	void *asker;
 	int n;
 	int i;
 
-	c = (struct irc_client *)query_stack_match_response(stack, l);
-	if (c != NULL) {
-		client_send_line(c, l, NULL);
+	if (query_stack_find_response(stack, l, &asker)) {
+		c = asker;
+		/* Nobody is told if the proxy itself asked */
+		if (c != NULL)
+			client_send_line(c, l, NULL);
 		return TRUE;
 	}
 
-- 
2.43.0


From d166163b35c928601b429b41a5e7f98801406d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:50 +0000
Subject: [PATCH 078/138] fix: keep the key and limit flags of a channel in
 step with their values

---
 libirc/state.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libirc/state.c b/libirc/state.c
index c3d7910..39634d4 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -970,11 +970,13 @@ static int channel_state_change_mode(struct irc_network_state *s, struct network
 
 			g_free(channel_mode_option(c, mode));
 			channel_mode_option(c, mode) = g_strdup(opt_arg);
+			modes_change_mode(c->modes, TRUE, mode);
 
 			return 1;
 		} else {
 			g_free(channel_mode_option(c, mode));
 			channel_mode_option(c, mode) = NULL;
+			modes_change_mode(c->modes, FALSE, mode);
 
 			/* Only settings of this type have an argument when unset */
 			return (cmt == CHANMODE_SETTING)?1:0;
-- 
2.43.0


From 501a9ad1c14933d59522414c6b831d0b541be2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:50 +0000
Subject: [PATCH 079/138] fix: names lists keep their messages short and name
 the right target

---
 libirc/client.c | 70 +++++++++++++++++++++++++++++--------------------
 1 file changed, 42 insertions(+), 28 deletions(-)

diff --git a/libirc/client.c b/libirc/client.c
index 737d9c0..7eeae5b 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -718,17 +718,39 @@ gboolean client_send_topic(struct irc_client *c, struct irc_channel_state *ch,
 	return TRUE;
 }
 
+static gboolean client_send_names(struct irc_client *c, const char *mode,
+				  const char *channel, const char *names)
+{
+	struct irc_line *l = irc_parse_line_args(c->default_origin, "353",
+						 client_get_default_target(c),
+						 mode, channel, names, NULL);
+	gboolean ret;
+
+	l->has_endcolon = WITH_COLON;
+	ret = client_send_line(c, l, NULL);
+	free_line(l);
+
+	return ret;
+}
+
 gboolean client_send_nameslist(struct irc_client *c, struct irc_channel_state *ch)
 {
 	GList *nl;
-	gboolean ret;
-	struct irc_line *l = NULL;
+	GString *names;
+	size_t overhead;
+	/* Public unless known to be something else */
+	char mode[2] = { ch->mode != 0 ? ch->mode : '=', 0 };
 
 	g_assert(c != NULL);
 	g_assert(ch != NULL);
 
+	/* ":origin 353 target mode channel :names\r\n" */
+	overhead = (c->default_origin != NULL ? strlen(c->default_origin) : 0) +
+		strlen(client_get_default_target(c)) + strlen(ch->name) + 13;
+
+	names = g_string_new("");
+
 	for (nl = ch->nicks; nl; nl = nl->next) {
-		char mode[2] = { ch->mode, 0 };
 		char *arg;
 		struct channel_nick *n = (struct channel_nick *)nl->data;
 		char prefix;
@@ -746,39 +768,31 @@ gboolean client_send_nameslist(struct irc_client *c, struct irc_channel_state *c
 			arg = g_strdup_printf("%c%s", prefix, n->global_nick->nick);
 		}
 
-		ret = TRUE;
-
-		if (l == NULL || !line_add_arg(l, arg)) {
-			char *tmp;
-			if (l != NULL) {
-				ret = client_send_line(c, l, NULL);
-				free_line(l);
+		if (names->len > 0 &&
+			overhead + names->len + 1 + strlen(arg) > IRC_MAXLINELEN) {
+			if (!client_send_names(c, mode, ch->name, names->str)) {
+				g_free(arg);
+				g_string_free(names, TRUE);
+				return FALSE;
 			}
-
-			l = irc_parse_line_args(c->default_origin, "353",
-						client_get_default_target(c),
-						mode, ch->name, NULL);
-			l->has_endcolon = WITHOUT_COLON;
-			tmp = g_strdup_printf(":%s", arg);
-			g_assert(line_add_arg(l, tmp));
-			g_free(tmp);
+			g_string_truncate(names, 0);
 		}
 
-		g_free(arg);
+		if (names->len > 0)
+			g_string_append_c(names, ' ');
+		g_string_append(names, arg);
 
-		if (!ret) {
-			return FALSE;
-		}
+		g_free(arg);
 	}
 
-	if (l != NULL) {
-		ret = client_send_line(c, l, NULL);
-		free_line(l);
-		if (!ret) {
-			return FALSE;
-		}
+	if (names->len > 0 &&
+		!client_send_names(c, mode, ch->name, names->str)) {
+		g_string_free(names, TRUE);
+		return FALSE;
 	}
 
+	g_string_free(names, TRUE);
+
 	return client_send_response(c, RPL_ENDOFNAMES, ch->name, "End of /NAMES list",
 			     NULL);
 }
-- 
2.43.0


From 1c1b86f4c21d0e70d95252ded13387acff97a0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:57 +0000
Subject: [PATCH 080/138] fix: the state reaches the other clients when one of
 them fails

---
 libirc/client.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libirc/client.c b/libirc/client.c
index 7eeae5b..db15bca 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -807,15 +807,17 @@ gboolean client_send_nameslist(struct irc_client *c, struct irc_channel_state *c
 gboolean clients_send_state(GList *clients, struct irc_network_state *s)
 {
 	GList *gl;
+	gboolean ret = TRUE;
 
 	for (gl = clients; gl; gl = gl->next) {
 		struct irc_client *c = gl->data;
+		/* A problem with one of them is none of the others */
 		if (!client_send_state(c, s)) {
-			return FALSE;
+			ret = FALSE;
 		}
 	}
 
-	return TRUE;
+	return ret;
 }
 
 gboolean client_send_banlist(struct irc_client *client, struct irc_channel_state *channel)
-- 
2.43.0


From 63fed485d1b8689ecabf7945d11dcc7938a7f267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:57 +0000
Subject: [PATCH 081/138] fix: user modes and away status reach clients

---
 libirc/client.c | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/libirc/client.c b/libirc/client.c
index db15bca..3ed9d7a 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -631,6 +631,8 @@ gboolean client_send_state(struct irc_client *c, struct irc_network_state *state
 	GList *cl;
 	struct irc_channel_state *ch;
 	char *mode;
+	irc_modes_t removed;
+	int i;
 	gboolean ret = TRUE;
 
 	if (c->state != NULL && strcmp(state->me.nick, c->state->me.nick) != 0) {
@@ -654,9 +656,28 @@ gboolean client_send_state(struct irc_client *c, struct irc_network_state *state
 		}
 	}
 
+	/* Including the modes which the client still has from before */
+	for (i = 0; i < MAXMODES; i++) {
+		removed[i] = c->state != NULL && c->state->me.modes[i] &&
+			!state->me.modes[i];
+	}
+
+	mode = mode2string(removed);
+	if (mode != NULL) {
+		mode[0] = '-';
+		ret = client_send_args_ex(c, state->me.nick, "MODE",
+					  state->me.nick, mode, NULL);
+	}
+	g_free(mode);
+
+	if (!ret) {
+		return FALSE;
+	}
+
 	mode = mode2string(state->me.modes);
 	if (mode != NULL) {
-		ret = client_send_args_ex(c, state->me.nick, "MODE", mode, NULL);
+		ret = client_send_args_ex(c, state->me.nick, "MODE",
+					  state->me.nick, mode, NULL);
 	}
 	g_free(mode);
 
@@ -664,6 +685,18 @@ gboolean client_send_state(struct irc_client *c, struct irc_network_state *state
 		return FALSE;
 	}
 
+	if (state->is_away) {
+		ret = client_send_response(c, RPL_NOWAWAY,
+					   "You have been marked as being away", NULL);
+	} else if (c->state != NULL && c->state->is_away) {
+		ret = client_send_response(c, RPL_UNAWAY,
+					   "You are no longer marked as being away", NULL);
+	}
+
+	if (!ret) {
+		return FALSE;
+	}
+
 	return TRUE;
 }
 
-- 
2.43.0


From acdbdf6535b207dbb259021816e2b265edb08d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:57 +0000
Subject: [PATCH 082/138] fix: clients learn the features of the network

---
 src/client.c    | 66 +++++++++++++++++++++++++++++++++++++++++++------
 src/internals.h |  1 +
 src/network.c   | 23 +++++++++++++++++
 3 files changed, 83 insertions(+), 7 deletions(-)

diff --git a/src/client.c b/src/client.c
index fe56a04..337046f 100644
--- a/src/client.c
+++ b/src/client.c
@@ -136,6 +136,63 @@ static gboolean process_from_client(struct irc_client *c, const struct irc_line
 	return TRUE;
 }
 
+/* Leave room for the origin, the target and the explanation */
+#define FEATURES_PER_LINE 12
+#define FEATURES_LENGTH 350
+
+/**
+ * Tell a client about the features of its network.
+ *
+ * @param client Client to talk to
+ */
+static gboolean client_send_features(struct irc_client *client)
+{
+	char *features = network_generate_feature_string(client->network);
+	char **tokens = g_strsplit(features, " ", 0);
+	gboolean ret = TRUE;
+	int i, n;
+
+	for (i = 0; tokens[i] != NULL && ret; i += n) {
+		struct irc_line *l = g_new0(struct irc_line, 1);
+		size_t len = 0;
+
+		l->origin = g_strdup(client->default_origin);
+		l->args = g_new0(char *, FEATURES_PER_LINE + 4);
+		l->args[l->argc++] = g_strdup_printf("%03d", RPL_BOUNCE);
+		l->args[l->argc++] = g_strdup(client_get_default_target(client));
+		for (n = 0; n < FEATURES_PER_LINE && tokens[i+n] != NULL; n++) {
+			len += strlen(tokens[i+n]) + 1;
+			if (n > 0 && len > FEATURES_LENGTH) {
+				break;
+			}
+			l->args[l->argc++] = g_strdup(tokens[i+n]);
+		}
+		l->args[l->argc++] = g_strdup("are supported on this server");
+
+		ret = client_send_line(client, l, NULL);
+		free_line(l);
+	}
+
+	g_strfreev(tokens);
+	g_free(features);
+
+	return ret;
+}
+
+/**
+ * Tell clients about the features of their network.
+ *
+ * @param clients Clients to talk to
+ */
+void clients_send_features(GList *clients)
+{
+	GList *gl;
+
+	for (gl = clients; gl; gl = gl->next) {
+		client_send_features(gl->data);
+	}
+}
+
 /**
  * Send welcome information to a client, optionally disconnecting
  * the client if it isn't welcome.
@@ -145,7 +202,7 @@ static gboolean process_from_client(struct irc_client *c, const struct irc_line
  */
 static gboolean welcome_client(struct irc_client *client)
 {
-	char *features, *tmp;
+	char *tmp;
 	struct network_config *nc;
 
 	g_assert(client != NULL);
@@ -170,12 +227,7 @@ static gboolean welcome_client(struct irc_client *client)
 		 (client->network->external_state != NULL && client->network->info->supported_channel_modes)?client->network->info->supported_channel_modes:ALLMODES,
 		 NULL);
 
-	features = network_generate_feature_string(client->network);
-
-	client_send_response(client, RPL_BOUNCE, features,
-						 "are supported on this server", NULL);
-
-	g_free(features);
+	client_send_features(client);
 
 	if (client->network->external_state != NULL) {
 		client_send_luserchannels(client, g_list_length(client->network->external_state->channels));
diff --git a/src/internals.h b/src/internals.h
index 94528bc..1afe4dc 100644
--- a/src/internals.h
+++ b/src/internals.h
@@ -108,6 +108,7 @@ G_GNUC_WARN_UNUSED_RESULT G_MODULE_EXPORT struct irc_line *irc_line_replace_host
 										   const struct network_nick *,
 										   const struct network_nick *);
 
+void clients_send_features(GList *clients);
 G_MODULE_EXPORT void clients_send(GList *clients, const struct irc_line *, const struct irc_client *exception);
 G_MODULE_EXPORT void clients_send_args_ex(GList *clients, const char *hostmask, ...);
 
diff --git a/src/network.c b/src/network.c
index 4baea77..7e726b2 100644
--- a/src/network.c
+++ b/src/network.c
@@ -33,6 +33,9 @@
 static gboolean network_update_isupport(struct irc_network_info *net_info,
 										struct irc_network_info *remote_info)
 {
+	char *features, **tokens;
+	int i;
+
 	if (remote_info->name != NULL) {
 		g_free(net_info->name);
 		net_info->name = g_strdup(remote_info->name);
@@ -52,6 +55,20 @@ static gboolean network_update_isupport(struct irc_network_info *net_info,
 		net_info->casemapping = remote_info->casemapping;
 	}
 
+	/* Everything else the server announced, other than what the proxy
+	 * decides about itself */
+	features = network_info_string(remote_info);
+	tokens = g_strsplit(features, " ", 0);
+	for (i = 0; tokens[i] != NULL; i++) {
+		if (strcmp(tokens[i], "FNC") != 0 &&
+			!g_str_has_prefix(tokens[i], "IRCD=") &&
+			!g_str_has_prefix(tokens[i], "CHARSET=")) {
+			network_info_parse(net_info, tokens[i]);
+		}
+	}
+	g_strfreev(tokens);
+	g_free(features);
+
 	if (remote_info->supported_user_modes != NULL) {
 		g_free(net_info->supported_user_modes);
 		net_info->supported_user_modes = g_strdup(remote_info->supported_user_modes);
@@ -121,6 +138,11 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 
 	response = irc_line_respcode(l);
 
+	if (response == RPL_BOUNCE &&
+		n->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD) {
+		network_update_isupport(n->info, n->external_state->info);
+	}
+
 	if (!base_strcmp(l->args[0], "PING")){
 		network_send_args(n, "PONG", l->args[1], NULL);
 		return TRUE;
@@ -162,6 +184,7 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 
 		nickserv_identify_me(n, n->external_state->me.nick);
 
+		clients_send_features(n->clients);
 		clients_send_state(n->clients, n->external_state);
 
 		/* Nobody asked for this, so nobody has to see the answer */
-- 
2.43.0


From cb1c7e50b7a7c182ca5801bb28fd48e1e45adb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:57 +0000
Subject: [PATCH 083/138] fix: clients stay in step across reconnects, MODE
 answers include the key

---
 libirc/client.c | 11 +++++--
 src/network.c   | 76 ++++++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 83 insertions(+), 4 deletions(-)

diff --git a/libirc/client.c b/libirc/client.c
index 3ed9d7a..3d19970 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -891,7 +891,9 @@ gboolean client_send_channel_mode(struct irc_client *c, struct irc_channel_state
 		l->args[2] = g_strdup(ch->name);
 		l->args[3] = mode;
 		for (i = 0; mode[i]; i++) {
-			if (network_chanmode_type(mode[i], c->state->info) == CHANMODE_OPT_SETTING &&
+			enum chanmode_type type = network_chanmode_type(mode[i],
+									ch->network->info);
+			if ((type == CHANMODE_SETTING || type == CHANMODE_OPT_SETTING) &&
 				channel_mode_option(ch, mode[i])) {
 				l->args[4+j] = g_strdup(channel_mode_option(ch, mode[i]));
 				j++;
@@ -932,14 +934,17 @@ gboolean clients_send_netsplit(GList *clients, const char *my_name,
 			   const char *lost_server)
 {
 	GList *gl;
+	gboolean ret = TRUE;
+
 	for (gl = clients; gl; gl = gl->next) {
 		struct irc_client *c = gl->data;
+		/* A problem with one of them is none of the others */
 		if (!client_send_netsplit(c, my_name, lost_server)) {
-			return FALSE;
+			ret = FALSE;
 		}
 	}
 
-	return FALSE;
+	return ret;
 }
 
 gboolean client_send_nick_quit(struct irc_client *c, struct network_nick *gn,
diff --git a/src/network.c b/src/network.c
index 7e726b2..6a4d4bd 100644
--- a/src/network.c
+++ b/src/network.c
@@ -96,6 +96,71 @@ static gboolean network_process_ctcp_request(struct irc_network *n,
 }
 
 
+/**
+ * After the connection was lost clients are still on the channels they were
+ * on before. Take them off a channel that could not be joined again.
+ *
+ * @param n Network
+ * @param name Name of the channel
+ */
+static void clients_forget_channel(struct irc_network *n, const char *name)
+{
+	GList *gl;
+
+	if (find_channel(n->external_state, name) != NULL) {
+		return;
+	}
+
+	for (gl = n->clients; gl; gl = gl->next) {
+		struct irc_client *c = gl->data;
+		struct irc_channel_state *ch = find_channel(c->state, name);
+
+		if (ch != NULL) {
+			char *channel_name = g_strdup(ch->name);
+			client_send_args_ex(c, client_get_own_hostmask(c), "PART",
+								channel_name, NULL);
+			g_free(channel_name);
+		}
+	}
+}
+
+/**
+ * Take clients off the channels which they were on before the connection was
+ * lost and which are not going to be joined again.
+ *
+ * @param n Network
+ */
+static void clients_forget_old_channels(struct irc_network *n)
+{
+	struct network_config *nc = n->private_data;
+	GList *gl, *cl, *next, *cc;
+
+	for (gl = n->clients; gl; gl = gl->next) {
+		struct irc_client *c = gl->data;
+
+		for (cl = c->state->channels; cl; cl = next) {
+			struct irc_channel_state *ch = cl->data;
+			gboolean autojoin = FALSE;
+
+			next = cl->next;
+			for (cc = nc->channels; cc; cc = cc->next) {
+				struct channel_config *config = cc->data;
+
+				if (config->autojoin && config->name != NULL &&
+					irccmp(n->info, config->name, ch->name) == 0) {
+					autojoin = TRUE;
+				}
+			}
+			if (!autojoin && find_channel(n->external_state, ch->name) == NULL) {
+				char *channel_name = g_strdup(ch->name);
+				client_send_args_ex(c, client_get_own_hostmask(c), "PART",
+									channel_name, NULL);
+				g_free(channel_name);
+			}
+		}
+	}
+}
+
 /**
  * Process a line received from the server
  *
@@ -186,6 +251,7 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 
 		clients_send_features(n->clients);
 		clients_send_state(n->clients, n->external_state);
+		clients_forget_old_channels(n);
 
 		/* Nobody asked for this, so nobody has to see the answer */
 		userhost = irc_parse_line_args(NULL, "USERHOST",
@@ -213,6 +279,9 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 	if (n->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD) {
 		if (irc_line_respcode(l)) {
 			redirect_response(n->queries, n, l);
+			if (response >= 400 && response < 600 && l->argc > 2) {
+				clients_forget_channel(n, l->args[2]);
+			}
 		} else {
 			if (n->clients == NULL) {
 				if (!base_strcmp(l->args[0], "PRIVMSG") && l->argc > 2 &&
@@ -406,8 +475,13 @@ static void handle_network_disconnect(struct irc_network *n)
 {
 	struct network_config *nc = n->private_data;
 
+	if (n->external_state != NULL) {
+		/* Clients may have seen people while logging in as well */
+		clients_send_netsplit(n->clients, get_my_hostname(),
+			n->external_state->info->server != NULL ? n->external_state->info->server : n->name);
+	}
+
 	if (n->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD) {
-		clients_send_netsplit(n->clients, get_my_hostname(), n->external_state->info->server);
 		network_update_config(n->external_state, nc, n->global->config);
 	}
 
-- 
2.43.0


From d9ebc8e15989002cecad3f17e7fdaf4ff80a5521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:46 +0000
Subject: [PATCH 084/138] fix: no RPL_TOPIC for a channel without topic

---
 libirc/client.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/libirc/client.c b/libirc/client.c
index 3d19970..1d5a728 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -727,15 +727,16 @@ gboolean client_send_topic(struct irc_client *c, struct irc_channel_state *ch,
 					   gboolean explicit)
 {
 	gboolean ret;
-	if (ch->topic) {
+	if (ch->topic != NULL && ch->topic[0] != '\0') {
 		if (!client_send_response(c, RPL_TOPIC, ch->name, ch->topic, NULL)) {
 			return FALSE;
 		}
-	} else if (explicit) {
-		if (!client_send_response(c, RPL_NOTOPIC, ch->name, "No topic set",
-								  NULL)) {
-			return FALSE;
+	} else {
+		if (explicit) {
+			return client_send_response(c, RPL_NOTOPIC, ch->name, "No topic set",
+									  NULL);
 		}
+		return TRUE;
 	}
 
 	if (ch->topic_set_time != 0 && ch->topic_set_by != NULL) {
-- 
2.43.0


From c0ff40e5d959aa1f46c9de5db386ee6075d91bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:46 +0000
Subject: [PATCH 085/138] fix: answer from the cache only what is known and
 current

---
 libirc/state.c | 17 +++++++++--------
 libirc/state.h |  1 +
 src/cache.c    | 38 +++++++++++++++++++++++++++++++-------
 3 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index 39634d4..478c56f 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -729,9 +729,10 @@ static void handle_namreply(struct irc_network_state *s, const struct irc_line *
 static void handle_end_names(struct irc_network_state *s, const struct irc_line *l)
 {
 	struct irc_channel_state *c = find_channel(s, l->args[2]);
-	if (c != NULL)
+	if (c != NULL) {
 		c->namreply_started = FALSE;
-	else
+		c->names_received = TRUE;
+	} else
 		network_state_log(LOG_WARNING, s,
 				  "Can't end /NAMES command for %s: channel not found",
 				  l->args[2]);
@@ -862,13 +863,11 @@ static void handle_whoreply(struct irc_network_state *s, const struct irc_line *
 	nn->hops = strtol(l->args[8], &fullname, 10);
 	g_assert(fullname);
 
-	if (nn->fullname == NULL) {
-		if (fullname[0] == ' ')
-			fullname++;
+	if (fullname[0] == ' ')
+		fullname++;
 
-		g_free(nn->fullname);
-		nn->fullname = g_strdup(fullname);
-	}
+	g_free(nn->fullname);
+	nn->fullname = g_strdup(fullname);
 
 	g_free(nn->server);
 	nn->server = g_strdup(l->args[5]);
@@ -999,6 +998,8 @@ static int channel_state_change_mode(struct irc_network_state *s, struct network
 		} else {
 			modes_unset_mode(n->modes, mode);
 		}
+		/* What WHO said about this person is out of date */
+		n->last_update = 0;
 		return 1;
 	} else if (cmt == CHANMODE_BOOL) {
 		modes_change_mode(c->modes, set, mode);
diff --git a/libirc/state.h b/libirc/state.h
index 3a131ab..515d5c4 100644
--- a/libirc/state.h
+++ b/libirc/state.h
@@ -98,6 +98,7 @@ struct irc_channel_state {
 	irc_modes_t modes;
 	time_t creation_time;
 	gboolean namreply_started;
+	gboolean names_received; /* the complete list was seen at least once */
 	gboolean banlist_started;
 	gboolean invitelist_started;
 	gboolean exceptlist_started;
diff --git a/src/cache.c b/src/cache.c
index 5c71f1c..ebad98e 100644
--- a/src/cache.c
+++ b/src/cache.c
@@ -24,13 +24,20 @@
 #include "internals.h"
 #include "irc.h"
 
+/**
+ * Check whether a list of channel members was received and no other one is
+ * just arriving.
+ */
+static gboolean channel_members_known(struct irc_channel_state *ch)
+{
+	return ch->names_received && !ch->namreply_started;
+}
+
 static gboolean client_try_cache_mode(struct irc_client *c,
 				      struct irc_network_state *net,
 				      struct irc_line *l,
 				      const struct cache_settings *settings)
 {
-	int i;
-	char m;
 	struct irc_channel_state *ch;
 
 	g_assert(l != NULL);
@@ -54,13 +61,17 @@ static gboolean client_try_cache_mode(struct irc_client *c,
 			return FALSE;
 		}
 
-		for (i = 0; (m = l->args[2][i]); i++) {
-			switch (m) {
-			case 'b': client_send_banlist(c, ch); break;
-			default: return FALSE;
-			}
+		if (strcmp(l->args[2], "b") != 0 && strcmp(l->args[2], "+b") != 0) {
+			return FALSE;
+		}
+
+		/* Only when the complete list is known */
+		if (!channel_mode_nicklist_present(ch, 'b') || ch->banlist_started) {
+			return FALSE;
 		}
 
+		client_send_banlist(c, ch);
+
 		return TRUE;
 	/* Queries in the form MODE #channel */
 	} else if (l->argc == 2) {
@@ -107,6 +118,11 @@ static gboolean client_try_cache_topic(struct irc_client *c,
 		return FALSE;
 	}
 
+	/* The topic is announced before the list of members */
+	if (!ch->names_received) {
+		return FALSE;
+	}
+
 	client_send_topic(c, ch, TRUE);
 
 	return TRUE;
@@ -164,6 +180,10 @@ static gboolean client_try_cache_who(struct irc_client *c, struct irc_network_st
 		return FALSE;
 	}
 
+	if (!channel_members_known(ch)) {
+		return FALSE;
+	}
+
 	now = time(NULL);
 
 	/* Check that the cache data hasn't expired yet */
@@ -226,6 +246,10 @@ static gboolean client_try_cache_names(struct irc_client *c,
 		return FALSE;
 	}
 
+	if (!channel_members_known(ch)) {
+		return FALSE;
+	}
+
 	client_send_nameslist(c, ch);
 
 	return TRUE;
-- 
2.43.0


From 20ddabab1a17b96b2c3a3aa5f5006a5e6f889712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:46 +0000
Subject: [PATCH 086/138] fix: clients whose first line arrives in pieces or
 that are pending when the listener stops

---
 libirc/listener.c | 106 ++++++++++++++++++++++++++--------------------
 libirc/listener.h |   3 ++
 2 files changed, 63 insertions(+), 46 deletions(-)

diff --git a/libirc/listener.c b/libirc/listener.c
index 529f536..6005349 100644
--- a/libirc/listener.c
+++ b/libirc/listener.c
@@ -140,6 +140,11 @@ void log_gssapi(struct irc_listener *l, enum log_level level, const char *messag
 
 gboolean listener_stop(struct irc_listener *l)
 {
+	/* Nobody would be there to take care of these any more */
+	while (l->pending != NULL) {
+		kill_pending_client(l->pending->data);
+	}
+
 	while (l->incoming != NULL) {
 		struct listener_iochannel *lio = l->incoming->data;
 
@@ -164,68 +169,73 @@ static gboolean handle_client_detect(GIOChannel *ioc, struct pending_client *pc)
 	gchar header[2];
 	GError *error = NULL;
 
-	status = g_io_channel_read_chars(ioc, header, 1, &read, &error);
+	/* Empty lines say nothing about the kind of client */
+	do {
+		status = g_io_channel_read_chars(ioc, header, 1, &read, &error);
 
-	if (status != G_IO_STATUS_NORMAL && status != G_IO_STATUS_AGAIN) {
-		if (error != NULL)
-			g_error_free(error);
-		return FALSE;
-	}
+		if (status == G_IO_STATUS_AGAIN) {
+			return TRUE;
+		}
+
+		if (status != G_IO_STATUS_NORMAL) {
+			if (error != NULL)
+				g_error_free(error);
+			return FALSE;
+		}
+	} while (header[0] == '\r' || header[0] == '\n' || header[0] == '\0');
 
 	if (header[0] == SOCKS_VERSION) {
 		listener_log(LOG_TRACE, pc->listener, "Detected SOCKS.");
 		pc->type = CLIENT_TYPE_SOCKS;
 		pc->socks.state = SOCKS_STATE_NEW;
-		return TRUE;
 	} else {
-		struct irc_line *l = NULL;
-		gchar *raw = NULL, *cvrt = NULL;
-		gchar *complete;
-		GIOStatus status;
-		gboolean ret;
-		gsize in_len;
-
 		pc->type = CLIENT_TYPE_REGULAR;
+		pc->first_char = header[0];
+	}
 
-		g_assert(ioc != NULL);
+	return TRUE;
+}
 
-		status = g_io_channel_read_line(ioc, &raw, &in_len, NULL, &error);
-		if (status != G_IO_STATUS_NORMAL) {
-			g_free(raw);
-			g_error_free(error);
-			return status;
-		}
+/**
+ * Receive a line from a regular client.
+ */
+static GIOStatus pending_client_recv_line(struct pending_client *pc, GError **error,
+										  struct irc_line **l)
+{
+	GIOStatus status;
+	gchar *raw = NULL, *complete, *cvrt;
+	gsize in_len;
 
-		complete = g_malloc(in_len+2);
-		complete[0] = header[0];
-		memcpy(complete+1, raw, in_len);
-		complete[in_len+1] = '\0';
-		g_free(raw);
+	if (pc->first_char == '\0') {
+		return irc_recv_line(pc->connection, pc->listener->iconv, error, l);
+	}
 
-		if (pc->listener->iconv == (GIConv)-1) {
-			cvrt = complete;
-		} else {
-			cvrt = g_convert_with_iconv(complete, -1, pc->listener->iconv, NULL, NULL, &error);
-			if (cvrt == NULL) {
-				cvrt = complete;
-				status = G_IO_STATUS_ERROR;
-				if (error != NULL)
-					g_error_free(error);
-			} else {
-				g_free(complete);
-			}
-		}
+	/* The first character of this line was needed to see what client this is */
+	*l = NULL;
+
+	status = g_io_channel_read_line(pc->connection, &raw, &in_len, NULL, error);
+	if (status != G_IO_STATUS_NORMAL) {
+		g_free(raw);
+		return status;
+	}
 
-		l = irc_parse_line(cvrt);
+	complete = g_strdup_printf("%c%s", pc->first_char, raw);
+	pc->first_char = '\0';
+	g_free(raw);
 
-		ret = pc->listener->ops->handle_client_line(pc, l);
+	if (pc->listener->iconv != (GIConv)-1) {
+		cvrt = g_convert_with_iconv(complete, -1, pc->listener->iconv, NULL, NULL, NULL);
+		if (cvrt != NULL) {
+			g_free(complete);
+			complete = cvrt;
+		}
+	}
 
-		free_line(l);
+	*l = irc_parse_line(complete);
 
-		g_free(cvrt);
+	g_free(complete);
 
-		return ret;
-	}
+	return status;
 }
 
 static gboolean handle_client_receive(GIOChannel *c, GIOCondition condition, gpointer data)
@@ -240,12 +250,16 @@ static gboolean handle_client_receive(GIOChannel *c, GIOCondition condition, gpo
 				kill_pending_client(pc);
 				return FALSE;
 			}
+		}
+
+		if (pc->type == CLIENT_TYPE_UNKNOWN) {
+			/* Nothing seen yet */
 		} else if (pc->type == CLIENT_TYPE_REGULAR) {
 			GIOStatus status;
 			GError *error = NULL;
 			struct irc_line *l;
 
-			while ((status = irc_recv_line(c, pc->listener->iconv, &error, &l)) == G_IO_STATUS_NORMAL) {
+			while ((status = pending_client_recv_line(pc, &error, &l)) == G_IO_STATUS_NORMAL) {
 				gboolean ret;
 
 				if (l == NULL)
diff --git a/libirc/listener.h b/libirc/listener.h
index 3efb6b1..c14b3f9 100644
--- a/libirc/listener.h
+++ b/libirc/listener.h
@@ -90,6 +90,9 @@ struct pending_client {
 	/** The type of client. */
 	enum client_type type;
 
+	/** First character sent by a regular client, until its line is complete. */
+	char first_char;
+
 	gint watch_id;
 	struct sockaddr *clientname;
 	socklen_t clientname_len;
-- 
2.43.0


From 0c194d9158f4cf2b4f8b32ecbafc2b0f80952fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:46 +0000
Subject: [PATCH 087/138] fix: SOCKS messages that arrive in pieces or use
 lengths over 127

---
 libirc/listener.c | 246 +++++++++++++++++++++++++++++-----------------
 libirc/listener.h |   3 +
 2 files changed, 160 insertions(+), 89 deletions(-)

diff --git a/libirc/listener.c b/libirc/listener.c
index 6005349..3b0bd55 100644
--- a/libirc/listener.c
+++ b/libirc/listener.c
@@ -48,8 +48,7 @@ struct listener_iochannel {
 
 static gboolean handle_client_detect(GIOChannel *ioc,
 									 struct pending_client *cl);
-static gboolean handle_client_socks_data(GIOChannel *ioc,
-										 struct pending_client *cl);
+static GIOStatus handle_client_socks_data(struct pending_client *cl);
 
 static gboolean kill_pending_client(struct pending_client *pc)
 {
@@ -282,10 +281,14 @@ static gboolean handle_client_receive(GIOChannel *c, GIOCondition condition, gpo
 				return FALSE;
 			}
 		} else if (pc->type == CLIENT_TYPE_SOCKS) {
-			gboolean ret = handle_client_socks_data(c, pc);
-			if (!ret)
+			GIOStatus status;
+
+			while ((status = handle_client_socks_data(pc)) == G_IO_STATUS_NORMAL);
+
+			if (status != G_IO_STATUS_AGAIN) {
 				kill_pending_client(pc);
-			return ret;
+				return FALSE;
+			}
 		} else if (pc->type == CLIENT_TYPE_QUASSEL) {
 			/* TODO: Quassel */
 		} else {
@@ -559,49 +562,77 @@ static gboolean on_socks_pass_accepted(struct pending_client *cl, gboolean accep
 	}
 }
 
-static gboolean pass_handle_data(struct pending_client *cl)
+/**
+ * Wait until a certain number of bytes of the current message is there.
+ */
+static GIOStatus socks_read(struct pending_client *cl, gsize len)
 {
-	gchar header[2];
+	GIOStatus status;
 	gsize read;
-	gboolean accepted;
+
+	g_assert(len <= sizeof(cl->socks.buf));
+
+	while (cl->socks.len < len) {
+		status = g_io_channel_read_chars(cl->connection, cl->socks.buf + cl->socks.len,
+										 len - cl->socks.len, &read, NULL);
+		if (status != G_IO_STATUS_NORMAL) {
+			return status;
+		}
+		cl->socks.len += read;
+	}
+
+	return G_IO_STATUS_NORMAL;
+}
+
+static GIOStatus pass_handle_data(struct pending_client *cl)
+{
 	GIOStatus status;
 	gchar uname[0x100], pass[0x100];
+	guint8 *buf = (guint8 *)cl->socks.buf;
+	gsize uname_len, pass_len;
 
-	status = g_io_channel_read_chars(cl->connection, header, 2, &read, NULL);
+	status = socks_read(cl, 2);
 	if (status != G_IO_STATUS_NORMAL) {
-		return FALSE;
+		return status;
 	}
 
-	if (header[0] != SOCKS_VERSION && header[0] != 0x1) {
+	if (buf[0] != SOCKS_VERSION && buf[0] != 0x1) {
 		listener_log(LOG_WARNING, cl->listener,
 					 "Client suddenly changed socks uname/pwd version to %x",
-					 header[0]);
-	 	return listener_socks_error(cl, REP_GENERAL_FAILURE);
+					 buf[0]);
+		on_socks_pass_accepted(cl, FALSE);
+		return G_IO_STATUS_ERROR;
 	}
 
-	status = g_io_channel_read_chars(cl->connection, uname, header[1], &read,
-									 NULL);
+	uname_len = buf[1];
+	status = socks_read(cl, 2 + uname_len + 1);
 	if (status != G_IO_STATUS_NORMAL) {
-		return FALSE;
+		return status;
 	}
 
-	uname[(guint8)header[1]] = '\0';
-
-	status = g_io_channel_read_chars(cl->connection, header, 1, &read, NULL);
+	pass_len = buf[2 + uname_len];
+	status = socks_read(cl, 2 + uname_len + 1 + pass_len);
 	if (status != G_IO_STATUS_NORMAL) {
-		return FALSE;
+		return status;
 	}
 
-	status = g_io_channel_read_chars(cl->connection, pass, header[0], &read, NULL);
-	if (status != G_IO_STATUS_NORMAL) {
-		return FALSE;
+	memcpy(uname, buf + 2, uname_len);
+	uname[uname_len] = '\0';
+	memcpy(pass, buf + 2 + uname_len + 1, pass_len);
+	pass[pass_len] = '\0';
+	cl->socks.len = 0;
+
+	if (strlen(uname) != uname_len || strlen(pass) != pass_len) {
+		on_socks_pass_accepted(cl, FALSE);
+		return G_IO_STATUS_ERROR;
 	}
 
-	pass[(guint8)header[0]] = '\0';
+	if (!cl->listener->ops->socks_auth_simple(cl, uname, pass,
+											  on_socks_pass_accepted)) {
+		return G_IO_STATUS_ERROR;
+	}
 
-	accepted = cl->listener->ops->socks_auth_simple(cl, uname, pass,
-													on_socks_pass_accepted);
-	return TRUE;
+	return G_IO_STATUS_NORMAL;
 }
 
 #ifdef HAVE_GSSAPI
@@ -648,7 +679,6 @@ static gboolean gssapi_acceptable (struct pending_client *pc)
 	if (GSS_ERROR(major_status)) {
 		log_gssapi(l, LOG_ERROR, "importing principal name",
 				   major_status, minor_status);
-		gssapi_fail(pc);
 		return FALSE;
 	}
 
@@ -659,7 +689,6 @@ static gboolean gssapi_acceptable (struct pending_client *pc)
 	if (GSS_ERROR(major_status)) {
 		log_gssapi(l, LOG_ERROR, "acquiring service credentials",
 				   major_status, minor_status);
-		gssapi_fail(pc);
 
 		return FALSE;
 	}
@@ -686,12 +715,12 @@ static gboolean gssapi_fail(struct pending_client *pc)
 	return FALSE;
 }
 
-static gboolean gssapi_handle_data (struct pending_client *pc)
+static GIOStatus gssapi_handle_data (struct pending_client *pc)
 {
 	guint32 major_status, minor_status;
 	gss_buffer_desc outbuf;
 	gss_buffer_desc inbuf;
-	gchar header[4];
+	guint8 *header = (guint8 *)pc->socks.buf;
 	gchar *packet;
 	gsize read;
 	GIOStatus status;
@@ -702,29 +731,33 @@ static gboolean gssapi_handle_data (struct pending_client *pc)
     + 0x01 | 0x01 | 0x02 | up to 2^16 - 1 octets |
 	*/
 
-	status = g_io_channel_read_chars(pc->connection, header, 4, &read, NULL);
+	status = socks_read(pc, 4);
 	if (status != G_IO_STATUS_NORMAL) {
-		return FALSE;
+		return status;
 	}
 
 	if (header[0] != 1) {
 		listener_log(LOG_WARNING, pc->listener, "Invalid version %d for SOCKS/GSSAPI protocol", header[0]);
-		return FALSE;
+		return G_IO_STATUS_ERROR;
 	}
 
 	if (header[1] != 1) {
 		listener_log(LOG_WARNING, pc->listener, "Invalid SOCKS/GSSAPI command %d", header[1]);
-		return FALSE;
+		return G_IO_STATUS_ERROR;
 	}
 
-	len = ntohs(*((uint16_t *)(header+2)));
+	len = (header[2] << 8) | header[3];
 
-	inbuf.value = g_malloc(len);
-	status = g_io_channel_read_chars(pc->connection, inbuf.value, len, &inbuf.length, NULL);
+	status = socks_read(pc, 4 + (gsize)len);
 	if (status != G_IO_STATUS_NORMAL) {
-		return FALSE;
+		return status;
 	}
 
+	inbuf.length = len;
+	inbuf.value = g_malloc(len);
+	memcpy(inbuf.value, header + 4, len);
+	pc->socks.len = 0;
+
 	major_status = gss_accept_sec_context (
 		&minor_status,
 		&pc->gss_ctx,
@@ -745,7 +778,7 @@ static gboolean gssapi_handle_data (struct pending_client *pc)
 		log_gssapi(pc->listener, LOG_WARNING, "processing incoming data",
 				   major_status, minor_status);
 		gssapi_fail(pc);
-		return FALSE;
+		return G_IO_STATUS_ERROR;
 	}
 
 	packet = g_malloc(4+outbuf.length);
@@ -760,7 +793,7 @@ static gboolean gssapi_handle_data (struct pending_client *pc)
 
 	if (status != G_IO_STATUS_NORMAL) {
 		gssapi_fail(pc);
-		return FALSE;
+		return G_IO_STATUS_ERROR;
 	}
 
 	major_status = gss_release_buffer(&minor_status, &outbuf);
@@ -768,7 +801,7 @@ static gboolean gssapi_handle_data (struct pending_client *pc)
 		log_gssapi(pc->listener, LOG_WARNING, "processing incoming data",
 				   major_status, minor_status);
 		gssapi_fail(pc);
-		return FALSE;
+		return G_IO_STATUS_ERROR;
 	}
 
 	g_io_channel_flush(pc->connection, NULL);
@@ -777,14 +810,14 @@ static gboolean gssapi_handle_data (struct pending_client *pc)
 
 	if (!pc->listener->ops->socks_gssapi(pc, pc->authn_name)) {
 		gssapi_fail(pc);
-		return FALSE;
+		return G_IO_STATUS_ERROR;
 	}
 
 	if (major_status == GSS_S_CONTINUE_NEEDED) {
-		return TRUE;
+		return G_IO_STATUS_NORMAL;
 	}
 
-	return TRUE;
+	return G_IO_STATUS_NORMAL;
 }
 
 #endif
@@ -796,7 +829,7 @@ static struct socks_method {
 	gint id;
 	const char *name;
 	gboolean (*acceptable) (struct pending_client *cl);
-	gboolean (*handle_data) (struct pending_client *cl);
+	GIOStatus (*handle_data) (struct pending_client *cl);
 } socks_methods[] = {
 	{ SOCKS_METHOD_NOAUTH, "none", anon_acceptable, NULL },
 #ifdef HAVE_GSSAPI
@@ -807,33 +840,40 @@ static struct socks_method {
 };
 
 
-static gboolean handle_client_socks_data(GIOChannel *ioc, struct pending_client *cl)
+/**
+ * Handle the next message of a SOCKS client.
+ *
+ * @return G_IO_STATUS_NORMAL if the message was handled, G_IO_STATUS_AGAIN if it
+ * is not complete yet, anything else if the client is done with.
+ */
+static GIOStatus handle_client_socks_data(struct pending_client *cl)
 {
 	GIOStatus status;
+	guint8 *buf = (guint8 *)cl->socks.buf;
+	gsize written;
 
 	if (cl->socks.state == SOCKS_STATE_NEW) {
 		int i;
 		gchar header[2];
-		gchar methods[0x100];
-		gsize read;
-		status = g_io_channel_read_chars(ioc, header, 1, &read, NULL);
+
+		status = socks_read(cl, 1);
 		if (status != G_IO_STATUS_NORMAL) {
-			return FALSE;
+			return status;
 		}
 
-		/* None by default */
-		cl->socks.method = NULL;
-
-		status = g_io_channel_read_chars(ioc, methods, header[0], &read, NULL);
+		status = socks_read(cl, 1 + (gsize)buf[0]);
 		if (status != G_IO_STATUS_NORMAL) {
-			return FALSE;
+			return status;
 		}
 
-		for (i = 0; i < header[0]; i++) {
+		/* None by default */
+		cl->socks.method = NULL;
+
+		for (i = 0; i < buf[0]; i++) {
 			int j;
 			for (j = 0; socks_methods[j].id != -1; j++)
 			{
-				if (socks_methods[j].id == methods[i] &&
+				if (socks_methods[j].id == buf[1 + i] &&
 					socks_methods[j].acceptable != NULL &&
 					socks_methods[j].acceptable(cl)) {
 					cl->socks.method = &socks_methods[j];
@@ -842,19 +882,21 @@ static gboolean handle_client_socks_data(GIOChannel *ioc, struct pending_client
 			}
 		}
 
+		cl->socks.len = 0;
+
 		header[0] = SOCKS_VERSION;
 		header[1] = cl->socks.method?cl->socks.method->id:SOCKS_METHOD_NOACCEPTABLE;
 
-		status = g_io_channel_write_chars(ioc, header, 2, &read, NULL);
+		status = g_io_channel_write_chars(cl->connection, header, 2, &written, NULL);
 		if (status != G_IO_STATUS_NORMAL) {
-			return FALSE;
+			return G_IO_STATUS_ERROR;
 		}
 
-		g_io_channel_flush(ioc, NULL);
+		g_io_channel_flush(cl->connection, NULL);
 
 		if (!cl->socks.method) {
 			listener_log(LOG_WARNING, cl->listener, "Refused client because no valid method was available");
-			return FALSE;
+			return G_IO_STATUS_ERROR;
 		}
 
 		listener_log(LOG_INFO, cl->listener, "Accepted socks client authenticating using %s", cl->socks.method->name);
@@ -864,59 +906,85 @@ static gboolean handle_client_socks_data(GIOChannel *ioc, struct pending_client
 		} else {
 			cl->socks.state = SOCKS_STATE_AUTH;
 		}
+
+		return G_IO_STATUS_NORMAL;
 	} else if (cl->socks.state == SOCKS_STATE_AUTH) {
 		return cl->socks.method->handle_data(cl);
 	} else if (cl->socks.state == SOCKS_STATE_NORMAL) {
-		gchar header[4];
-		gsize read;
+		gboolean ret;
 
-		status = g_io_channel_read_chars(ioc, header, 4, &read, NULL);
+		status = socks_read(cl, 4);
 		if (status != G_IO_STATUS_NORMAL) {
-			return FALSE;
+			return status;
 		}
 
-		if (header[0] != SOCKS_VERSION) {
-			listener_log(LOG_WARNING, cl->listener, "Client suddenly changed socks version to %x", header[0]);
-		 	return listener_socks_error(cl, REP_GENERAL_FAILURE);
+		if (buf[0] != SOCKS_VERSION) {
+			listener_log(LOG_WARNING, cl->listener, "Client suddenly changed socks version to %x", buf[0]);
+			listener_socks_error(cl, REP_GENERAL_FAILURE);
+			return G_IO_STATUS_ERROR;
 		}
 
-		if (header[1] != CMD_CONNECT) {
-			listener_log(LOG_WARNING, cl->listener, "Client used unknown command %x", header[1]);
-			return listener_socks_error(cl, REP_CMD_NOT_SUPPORTED);
+		if (buf[1] != CMD_CONNECT) {
+			listener_log(LOG_WARNING, cl->listener, "Client used unknown command %x", buf[1]);
+			listener_socks_error(cl, REP_CMD_NOT_SUPPORTED);
+			return G_IO_STATUS_ERROR;
 		}
 
-		/* header[2] is reserved */
+		/* buf[2] is reserved */
 
-		switch (header[3]) {
+		switch (buf[3]) {
 			case ATYP_IPV4:
 				if (cl->listener->ops->socks_connect_ipv4 == NULL)
-					return listener_socks_error(cl, REP_ATYP_NOT_SUPPORTED);
-				return cl->listener->ops->socks_connect_ipv4(cl);
+					ret = listener_socks_error(cl, REP_ATYP_NOT_SUPPORTED);
+				else
+					ret = cl->listener->ops->socks_connect_ipv4(cl);
+				break;
 
 			case ATYP_IPV6:
 				if (cl->listener->ops->socks_connect_ipv6 == NULL)
-					return listener_socks_error(cl, REP_ATYP_NOT_SUPPORTED);
-				return cl->listener->ops->socks_connect_ipv6(cl);
+					ret = listener_socks_error(cl, REP_ATYP_NOT_SUPPORTED);
+				else
+					ret = cl->listener->ops->socks_connect_ipv6(cl);
+				break;
 
 			case ATYP_FQDN:
 				{
 					char hostname[0x100];
+					gsize len;
 					guint16 port;
-					status = g_io_channel_read_chars(ioc, header, 1, &read, NULL);
-					status = g_io_channel_read_chars(ioc, hostname, header[0], &read, NULL);
-					hostname[(guint8)header[0]] = '\0';
-
-					status = g_io_channel_read_chars(ioc, header, 2, &read, NULL);
-					port = ntohs(*(guint16 *)header);
 
-					if (cl->listener->ops->socks_connect_fqdn == NULL)
-						return listener_socks_error(cl, REP_ATYP_NOT_SUPPORTED);
-					return cl->listener->ops->socks_connect_fqdn(cl, hostname, port);
+					status = socks_read(cl, 5);
+					if (status != G_IO_STATUS_NORMAL) {
+						return status;
+					}
+
+					len = buf[4];
+					status = socks_read(cl, 5 + len + 2);
+					if (status != G_IO_STATUS_NORMAL) {
+						return status;
+					}
+
+					memcpy(hostname, buf + 5, len);
+					hostname[len] = '\0';
+					port = (buf[5 + len] << 8) | buf[5 + len + 1];
+
+					if (len == 0 || strlen(hostname) != len)
+						ret = listener_socks_error(cl, REP_HOST_UNREACHABLE);
+					else if (cl->listener->ops->socks_connect_fqdn == NULL)
+						ret = listener_socks_error(cl, REP_ATYP_NOT_SUPPORTED);
+					else
+						ret = cl->listener->ops->socks_connect_fqdn(cl, hostname, port);
+					break;
 				}
 			default:
-				return listener_socks_error(cl, REP_ATYP_NOT_SUPPORTED);
+				ret = listener_socks_error(cl, REP_ATYP_NOT_SUPPORTED);
+				break;
 		}
+
+		cl->socks.len = 0;
+
+		return ret?G_IO_STATUS_NORMAL:G_IO_STATUS_ERROR;
 	}
 
-	return TRUE;
+	return G_IO_STATUS_ERROR;
 }
diff --git a/libirc/listener.h b/libirc/listener.h
index c14b3f9..3a002f0 100644
--- a/libirc/listener.h
+++ b/libirc/listener.h
@@ -107,6 +107,9 @@ struct pending_client {
 		struct socks_method *method;
 		enum socks_state state;
 		void *method_data;
+		/** The part of the current message received so far */
+		gchar buf[4 + 0x10000];
+		gsize len;
 	} socks;
 
 	/** Private data. */
-- 
2.43.0


From f897215ce8f7f1ae78a6c606e2cee76ad00a85ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:46 +0000
Subject: [PATCH 088/138] fix: handle lines sent along with the password after
 the client is set up

---
 libirc/transport_ioc.c | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 98d26ea..b337ca0 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -32,6 +32,7 @@ struct irc_transport_data_iochannel {
 	gboolean pending_disconnect;
 	gint incoming_id;
 	gint outgoing_id;
+	guint buffered_id;
 	GIConv incoming_iconv;
 	GIConv outgoing_iconv;
 	GQueue *pending_lines;
@@ -141,6 +142,9 @@ static void really_disconnect(struct irc_transport_data_iochannel *backend_data)
 		g_source_remove(backend_data->incoming_id);
 	if (backend_data->outgoing_id)
 		g_source_remove(backend_data->outgoing_id);
+	if (backend_data->buffered_id)
+		g_source_remove(backend_data->buffered_id);
+	backend_data->buffered_id = 0;
 
 	backend_data->incoming = NULL;
 }
@@ -156,6 +160,10 @@ static void irc_transport_iochannel_disconnect(void *data)
 		g_source_remove(backend_data->incoming_id);
 		backend_data->incoming_id = 0;
 	}
+	if (backend_data->buffered_id) {
+		g_source_remove(backend_data->buffered_id);
+		backend_data->buffered_id = 0;
+	}
 
 	if (backend_data->outgoing_id == 0)
 		really_disconnect(backend_data);
@@ -223,6 +231,18 @@ static gboolean irc_transport_iochannel_send_line(struct irc_transport *transpor
 
 }
 
+static gboolean handle_buffered(gpointer _transport)
+{
+	struct irc_transport *transport = _transport;
+	struct irc_transport_data_iochannel *backend_data = (struct irc_transport_data_iochannel *)transport->backend_data;
+
+	backend_data->buffered_id = 0;
+
+	handle_transport_receive(backend_data->incoming, G_IO_IN, transport);
+
+	return FALSE;
+}
+
 static void irc_transport_iochannel_activate(struct irc_transport *transport)
 {
 	struct irc_transport_data_iochannel *backend_data = (struct irc_transport_data_iochannel *)transport->backend_data;
@@ -230,9 +250,11 @@ static void irc_transport_iochannel_activate(struct irc_transport *transport)
 							backend_data->incoming, G_IO_IN | G_IO_HUP,
 							handle_transport_receive, transport);
 
-	handle_transport_receive(backend_data->incoming,
-			  g_io_channel_get_buffer_condition(backend_data->incoming) & G_IO_IN,
-			  transport);
+	/* What was read by an earlier user of the channel does not wake up the
+	 * watch. The owner of this transport is not ready for it yet, either. */
+	if (g_io_channel_get_buffer_condition(backend_data->incoming) & G_IO_IN) {
+		backend_data->buffered_id = g_idle_add(handle_buffered, transport);
+	}
 }
 
 
-- 
2.43.0


From 7784221d91ba55f03e2df33806a0ec5a393a70a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:46 +0000
Subject: [PATCH 089/138] fix: a listener with only user rules does not let
 others in

---
 src/listener.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/listener.c b/src/listener.c
index 0dd2133..3192332 100644
--- a/src/listener.c
+++ b/src/listener.c
@@ -63,6 +63,9 @@ static gboolean listener_check_username_password(struct irc_listener *listener,
 			if (r->password == NULL || r->username == NULL)
 				continue;
 
+			if (username == NULL)
+				continue;
+
 			if (strcmp(r->username, username))
 				continue;
 
@@ -81,6 +84,11 @@ static gboolean listener_check_username_password(struct irc_listener *listener,
 		return (strcmp(listener->global->config->password, password) == 0);
 	}
 
+	if (listener->config != NULL && listener->config->allow_rules != NULL) {
+		/* Only those users are allowed */
+		return FALSE;
+	}
+
 	listener_log(LOG_WARNING, listener, "No password set, allowing client _without_ authentication!");
 	return TRUE;
 }
-- 
2.43.0


From 545241d8c0a2507d5f85ffd4965ba9e5537e4338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:46 +0000
Subject: [PATCH 090/138] fix: byte order of the port in the SOCKS reply

---
 src/listener.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/listener.c b/src/listener.c
index 3192332..774987a 100644
--- a/src/listener.c
+++ b/src/listener.c
@@ -139,13 +139,13 @@ gboolean default_socks_connect_fqdn (struct pending_client *cl, const char *host
 			atyp = ATYP_IPV4;
 			data = (gchar *)&name4->sin_addr;
 			len = 4;
-			port = name4->sin_port;
+			port = ntohs(name4->sin_port);
 		} else if (name != NULL && name->sa_family == AF_INET6) {
 			struct sockaddr_in6 *name6 = (struct sockaddr_in6 *)name;
 			atyp = ATYP_IPV6;
 			data = (gchar *)&name6->sin6_addr;
 			len = 16;
-			port = name6->sin6_port;
+			port = ntohs(name6->sin6_port);
 		} else {
 			network_log(LOG_ERROR, result, "Unable to obtain local address for connection to server");
 			return listener_socks_error(cl, REP_NET_UNREACHABLE);
@@ -198,7 +198,7 @@ static gboolean handle_client_line(struct pending_client *pc, const struct irc_l
 {
 	struct irc_listener *listener = pc->listener;
 
-	if (l == NULL || l->args[0] == NULL) {
+	if (l == NULL || l->args[0] == NULL || l->args[0][0] == '\0') {
 		return TRUE;
 	}
 
-- 
2.43.0


From a8d312c4ba33bcd604413d0db5e1b593e6c0232a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:46 +0000
Subject: [PATCH 091/138] fix: PASS without argument or network name, empty
 lines

---
 src/listener.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/listener.c b/src/listener.c
index 774987a..6854c2b 100644
--- a/src/listener.c
+++ b/src/listener.c
@@ -208,10 +208,20 @@ static gboolean handle_client_line(struct pending_client *pc, const struct irc_l
 		gboolean authenticated = FALSE;
 		char *actual_password;
 
+		if (l->args[1] == NULL) {
+			irc_sendf(pc->connection, listener->iconv, NULL,
+					  ":%s %d %s PASS :Not enough parameters",
+					  get_my_hostname(), ERR_NEEDMOREPARAMS, "*");
+			g_io_channel_flush(pc->connection, NULL);
+			return TRUE;
+		}
+
 		if (strchr(l->args[1], ':') != NULL) {
 			char *p = strchr(l->args[1], ':');
 			actual_password = g_strndup(l->args[1], p-l->args[1]);
-			networkname = p+1;
+			if (p[1] != '\0') {
+				networkname = p+1;
+			}
 		} else {
 			actual_password = g_strdup(l->args[1]);
 			networkname = NULL;
@@ -253,7 +263,8 @@ static gboolean handle_client_line(struct pending_client *pc, const struct irc_l
 
 			{
 				char *desc = g_io_channel_ip_get_description(pc->connection);
-				if (pc->listener == pc->listener->global->unix_domain_socket_listener)
+				if (desc == NULL &&
+					pc->listener == pc->listener->global->unix_domain_socket_listener)
 					desc = g_strdup("Unix domain socket client");
 				else if (desc == NULL)
 					desc = g_strdup("");
-- 
2.43.0


From cc9cadb3085d13b239529f718960fdde066ab934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:02 +0000
Subject: [PATCH 092/138] fix: who set a topic is not lost on a client that
 attaches before the topic is known

---
 libirc/client.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/libirc/client.c b/libirc/client.c
index 1d5a728..685ed9f 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -731,12 +731,9 @@ gboolean client_send_topic(struct irc_client *c, struct irc_channel_state *ch,
 		if (!client_send_response(c, RPL_TOPIC, ch->name, ch->topic, NULL)) {
 			return FALSE;
 		}
-	} else {
-		if (explicit) {
-			return client_send_response(c, RPL_NOTOPIC, ch->name, "No topic set",
-									  NULL);
-		}
-		return TRUE;
+	} else if (explicit) {
+		return client_send_response(c, RPL_NOTOPIC, ch->name, "No topic set",
+								  NULL);
 	}
 
 	if (ch->topic_set_time != 0 && ch->topic_set_by != NULL) {
-- 
2.43.0


From 01ee50e5fa598caf7a7825eb3b2aae7e4b5482a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:39 +0000
Subject: [PATCH 093/138] fix: failed attempts to connect are repeated, with
 the next server, and leave no sockets, addresses or timers behind

---
 libirc/connection.c | 65 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 47 insertions(+), 18 deletions(-)

diff --git a/libirc/connection.c b/libirc/connection.c
index 5e96367..278f1ef 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -394,18 +394,31 @@ static gboolean bindsock(struct irc_network *s,
  * Ping the network.
  *
  * @param server network to ping
- * @param ping_source GSource id of the ping event
+ * @return whether to ping it again later
  */
-static void ping_server(struct irc_network *server, gboolean ping_source)
+static gboolean ping_server(struct irc_network *server)
 {
 	gint silent_time = time(NULL) - server->connection.last_line_recvd;
 	if (silent_time > MAX_SILENT_TIME) {
 		network_report_disconnect(server, "Ping timeout (%d seconds)",
 								  silent_time);
+		/* Removes this timeout */
 		reconnect(server);
+		return FALSE;
 	} else if (silent_time > MIN_SILENT_TIME) {
 		network_send_args(server, "PING", "ctrlproxy", NULL);
 	}
+
+	/* Sending might have failed and ended the connection */
+	return server->connection.data.tcp.ping_id != 0;
+}
+
+static void free_tcp_names(struct irc_network *n)
+{
+	g_free(n->connection.data.tcp.local_name);
+	g_free(n->connection.data.tcp.remote_name);
+	n->connection.data.tcp.local_name = NULL;
+	n->connection.data.tcp.remote_name = NULL;
 }
 
 static gboolean connect_current_tcp_server(struct irc_network *s)
@@ -474,6 +487,7 @@ static gboolean connect_current_tcp_server(struct irc_network *s)
 			bindsock(s, sock, res, nc->type_settings.tcp.default_bind_address, NULL);
 
 		ioc = g_io_channel_unix_new(sock);
+		g_io_channel_set_close_on_unref(ioc, TRUE);
 		g_io_channel_set_flags(ioc, G_IO_FLAG_NONBLOCK, NULL);
 
 		if (connect(sock, res->ai_addr, res->ai_addrlen) < 0) {
@@ -495,6 +509,7 @@ static gboolean connect_current_tcp_server(struct irc_network *s)
 
 	if (!res || !ioc) {
 		network_log(LOG_ERROR, s, "Unable to connect: %s", strerror(errno));
+		freeaddrinfo(addrinfo);
 		return FALSE;
 	}
 
@@ -505,8 +520,6 @@ static gboolean connect_current_tcp_server(struct irc_network *s)
 
 	freeaddrinfo(addrinfo);
 
-	g_io_channel_set_close_on_unref(ioc, TRUE);
-
 	cs = s->connection.data.tcp.current_server;
 	if (cs->ssl) {
 #ifdef HAVE_GNUTLS
@@ -519,7 +532,7 @@ static gboolean connect_current_tcp_server(struct irc_network *s)
 								 );
 		if (!ioc) {
 			network_report_disconnect(s, "Couldn't connect via server %s:%s", cs->host, cs->port);
-			reconnect(s);
+			free_tcp_names(s);
 			return FALSE;
 		}
 #else
@@ -547,8 +560,6 @@ static void reconnect(struct irc_network *server)
 	struct network_config *nc = server->private_data;
 	g_assert(server);
 
-	g_assert(server->connection.state != NETWORK_CONNECTION_STATE_RECONNECT_PENDING);
-
 	close_server(server);
 
 	g_assert(nc);
@@ -570,14 +581,6 @@ static void reconnect(struct irc_network *server)
 	}
 }
 
-static void free_tcp_names(struct irc_network *n)
-{
-	g_free(n->connection.data.tcp.local_name);
-	g_free(n->connection.data.tcp.remote_name);
-	n->connection.data.tcp.local_name = NULL;
-	n->connection.data.tcp.remote_name = NULL;
-}
-
 static gboolean close_server(struct irc_network *n)
 {
 	struct network_config *nc = n->private_data;
@@ -841,8 +844,17 @@ static gboolean connect_server(struct irc_network *s)
 static gboolean delayed_connect_server(struct irc_network *s)
 {
 	g_assert(s);
-	connect_server(s);
-	return (s->connection.state == NETWORK_CONNECTION_STATE_RECONNECT_PENDING);
+
+	/* This timeout is not repeated */
+	s->reconnect_id = 0;
+	s->connection.state = NETWORK_CONNECTION_STATE_NOT_CONNECTED;
+
+	if (!connect_server(s) &&
+		s->connection.state == NETWORK_CONNECTION_STATE_NOT_CONNECTED) {
+		reconnect(s);
+	}
+
+	return FALSE;
 }
 
 struct irc_network *irc_network_new(const struct irc_network_callbacks *callbacks, void *private_data)
@@ -874,11 +886,28 @@ struct irc_network *irc_network_new(const struct irc_network_callbacks *callback
  */
 gboolean connect_network(struct irc_network *s)
 {
+	struct network_config *nc = s->private_data;
 	g_assert(s);
 	g_assert(s->connection.state == NETWORK_CONNECTION_STATE_NOT_CONNECTED ||
 			 s->connection.state == NETWORK_CONNECTION_STATE_RECONNECT_PENDING);
 
-	return connect_server(s);
+	if (s->connection.state == NETWORK_CONNECTION_STATE_RECONNECT_PENDING) {
+		/* Not waiting any longer */
+		close_server(s);
+	}
+
+	if (connect_server(s)) {
+		return TRUE;
+	}
+
+	if (nc->type == NETWORK_TCP && !nc->implicit &&
+		s->connection.data.tcp.current_server != NULL &&
+		s->connection.state == NETWORK_CONNECTION_STATE_NOT_CONNECTED) {
+		/* Try again later, perhaps with another server */
+		reconnect(s);
+	}
+
+	return FALSE;
 }
 
 static void free_network(struct irc_network *s)
-- 
2.43.0


From 3b985502af78e6477e1c09e7d80bc5b96fba284a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:09 +0000
Subject: [PATCH 094/138] fix: other nicks are tried when the server shortens
 nicks or refuses them for other reasons

---
 src/network.c | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/network.c b/src/network.c
index 6a4d4bd..8b83ad7 100644
--- a/src/network.c
+++ b/src/network.c
@@ -161,6 +161,33 @@ static void clients_forget_old_channels(struct irc_network *n)
 	}
 }
 
+/**
+ * Find another nick to use.
+ *
+ * @param tried Nick that was sent to the server
+ * @param refused Nick the server refused, possibly a shortened version of it
+ * @return newly allocated nick
+ */
+static char *next_nick(const char *tried, const char *refused)
+{
+	size_t i;
+	char *ret;
+
+	if (refused[0] == '\0' || !g_str_has_prefix(tried, refused) ||
+		strchr(refused, ' ') != NULL || strlen(tried) == strlen(refused)) {
+		return g_strdup_printf("%s_", tried);
+	}
+
+	/* No room for more characters, so replace the last one that can be */
+	ret = g_strdup(refused);
+	for (i = strlen(ret); i > 1 && ret[i-1] == '_'; i--);
+	if (i > 1) {
+		ret[i-1] = '_';
+	}
+
+	return ret;
+}
+
 /**
  * Process a line received from the server
  *
@@ -215,9 +242,10 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 		return TRUE;
 	} else if (!base_strcmp(l->args[0], "ERROR")) {
 		network_log(LOG_ERROR, n, "error: %s", l->args[1]);
-	} else if (response == ERR_NICKNAMEINUSE && l->argc > 2 &&
+	} else if ((response == ERR_NICKNAMEINUSE || response == ERR_NICKCOLLISION ||
+				response == ERR_UNAVAILRESOURCE) && l->argc > 2 &&
 			  n->connection.state == NETWORK_CONNECTION_STATE_LOGIN_SENT){
-		char *tmp = g_strdup_printf("%s_", l->args[2]);
+		char *tmp = next_nick(n->external_state->me.nick, l->args[2]);
 		network_send_args(n, "NICK", tmp, NULL);
 		network_log(LOG_WARNING, n, "%s was already in use, trying %s",
 					l->args[2], tmp);
-- 
2.43.0


From 260a8c206233fc67333dd98f47a66f0974317972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:09 +0000
Subject: [PATCH 095/138] fix: automatic commands that are no messages are
 skipped

---
 src/network.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/network.c b/src/network.c
index 8b83ad7..c4d6751 100644
--- a/src/network.c
+++ b/src/network.c
@@ -290,6 +290,12 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 
 		for (i = 0; nc->autocmd && nc->autocmd[i]; i++) {
 			struct irc_line *l = irc_parse_line(nc->autocmd[i]);
+			if (l == NULL || l->argc == 0 || l->args[0][0] == '\0') {
+				network_log(LOG_WARNING, n, "Ignoring invalid command `%s'",
+							nc->autocmd[i]);
+				free_line(l);
+				continue;
+			}
 			network_send_line(n, NULL, l);
 			free_line(l);
 		}
-- 
2.43.0


From edb72a92b931e6fca58fb879b423e992cb8bcc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:31 +0000
Subject: [PATCH 096/138] fix: channel keys are read back for the channels they
 belong to, and forgotten once removed

---
 src/settings.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 63c0351..f169780 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -353,6 +353,7 @@ static void config_save_listeners(struct ctrlproxy_config *cfg, const char *path
 static void config_save_networks(struct ctrlproxy_config *cfg, const char *config_dir, GList *networks)
 {
 	char *networksdir = g_build_filename(config_dir, "networks", NULL);
+	char *filename;
 	GList *gl;
 	GList *channel_keys = NULL;
 
@@ -372,19 +373,16 @@ static void config_save_networks(struct ctrlproxy_config *cfg, const char *confi
 
 	config_cleanup_networks_dir(cfg);
 
+	filename = g_build_filename(config_dir, "keys", NULL);
 	if (channel_keys != NULL) {
-		char *filename = g_build_filename(cfg->config_dir, "keys",
-									  NULL);
 		keyfile_write_file(channel_keys, CHANNEL_KEY_FILE_HEADER, filename);
-		g_free(filename);
-
-		while (channel_keys) {
-			g_free(channel_keys->data);
-			channel_keys = channel_keys->next;
-		}
 
+		g_list_foreach(channel_keys, (GFunc)g_free, NULL);
 		g_list_free(channel_keys);
+	} else {
+		g_unlink(filename);
 	}
+	g_free(filename);
 
 	g_free(networksdir);
 }
@@ -658,11 +656,11 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 	for (gl = channel_keys; gl; gl = gl->next) {
 		struct keyfile_entry *ke = gl->data;
 
-		if (!strcasecmp(ke->network, n->name)) {
-			struct channel_config *cc = config_find_add_channel(n, n->nick);
+		if (ke->network == NULL || !strcasecmp(ke->network, n->name)) {
+			struct channel_config *cc = config_find_add_channel(n, ke->nick);
 
 			g_free(cc->key);
-			cc->key = g_strdup(n->password);
+			cc->key = g_strdup(ke->pass);
 		}
 	}
 
-- 
2.43.0


From e608f55221461d82f762359e4c63a1a5144dfb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:04 +0000
Subject: [PATCH 097/138] fix: settings that were unset are removed from the
 saved configuration

---
 src/admin.c    |  3 ++
 src/settings.c | 84 +++++++++++++++++++++++++++-----------------------
 2 files changed, 48 insertions(+), 39 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index 7b4ae5d..c6df20c 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1588,6 +1588,9 @@ static gboolean password_set(admin_handle h, const char *value)
 		struct listener_config *l = gl->data;
 
 		if (l->is_default) {
+			/* It is used for all listeners without password of their own */
+			g_free(g->config->password);
+			g->config->password = g_strdup(value);
 			l->password = g_strdup(value);
 			return TRUE;
 		}
diff --git a/src/settings.c b/src/settings.c
index f169780..3ee86af 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -146,6 +146,28 @@ gboolean g_key_file_save_to_file(GKeyFile *kf, const gchar *file, GError **error
 	return TRUE;
 }
 
+/**
+ * Store a string setting, or remove it when it is not set.
+ */
+static void config_store_string(GKeyFile *kf, const char *group, const char *key, const char *value)
+{
+	if (value != NULL)
+		g_key_file_set_string(kf, group, key, value);
+	else
+		g_key_file_remove_key(kf, group, key, NULL);
+}
+
+/**
+ * Store an integer setting, or remove it when it has its default value.
+ */
+static void config_store_integer(GKeyFile *kf, const char *group, const char *key, int value, int dflt)
+{
+	if (value != dflt)
+		g_key_file_set_integer(kf, group, key, value);
+	else
+		g_key_file_remove_key(kf, group, key, NULL);
+}
+
 static void config_save_tcp_servers(struct network_config *n, GKeyFile *kf, const char *groupname)
 {
 	GList *gl;
@@ -210,10 +232,8 @@ static void config_save_network(struct ctrlproxy_config *cfg,
 		g_key_file_remove_key(kf, n->groupname, "autocmd", NULL);
 	}
 
-	if (n->queue_speed)
-		g_key_file_set_integer(kf, n->groupname, "queue-speed", n->queue_speed);
-	if (n->reconnect_interval != -1)
-		g_key_file_set_integer(kf, n->groupname, "reconnect-interval", n->reconnect_interval);
+	config_store_integer(kf, n->groupname, "queue-speed", n->queue_speed, 0);
+	config_store_integer(kf, n->groupname, "reconnect-interval", n->reconnect_interval, -1);
 
 	switch(n->type) {
 	case NETWORK_VIRTUAL:
@@ -278,13 +298,15 @@ static void config_save_listeners(struct ctrlproxy_config *cfg, const char *path
 	GError *error = NULL;
 	gboolean empty = TRUE;
 
-	if (cfg->password != NULL)
-		g_key_file_set_string(cfg->keyfile, "global", "password", cfg->password);
+	config_store_string(cfg->keyfile, "global", "password", cfg->password);
+	config_store_string(cfg->keyfile, "global", "port", NULL);
+	config_store_string(cfg->keyfile, "global", "bind", NULL);
+	config_store_string(cfg->keyfile, "global", "default-network", NULL);
 
-	if (cfg->auto_listener) {
+	if (cfg->auto_listener ||
+		g_key_file_has_key(cfg->keyfile, "global", "listener-auto", NULL))
 		g_key_file_set_boolean(cfg->keyfile, "global", "listener-auto", cfg->auto_listener);
-		g_key_file_set_integer(cfg->keyfile, "global", "listener-autoport", cfg->listener_autoport);
-	}
+	config_store_integer(cfg->keyfile, "global", "listener-autoport", cfg->listener_autoport, 0);
 
 	filename = g_build_filename(path, "listener", NULL);
 
@@ -294,18 +316,15 @@ static void config_save_listeners(struct ctrlproxy_config *cfg, const char *path
 		struct listener_config *l = gl->data;
 
 		if (l->is_default) {
-			g_key_file_set_string(cfg->keyfile, "global", "port", l->port);
-			if (l->address != NULL)
-				g_key_file_set_string(cfg->keyfile, "global", "bind", l->address);
+			config_store_string(cfg->keyfile, "global", "port", l->port);
+			config_store_string(cfg->keyfile, "global", "bind", l->address);
 			if (l->password != NULL)
 				g_key_file_set_string(cfg->keyfile, "global", "password", l->password);
 
 			if (g_key_file_has_key(cfg->keyfile, "global", "ssl", NULL) || l->ssl)
 				g_key_file_set_boolean(cfg->keyfile, "global", "ssl", l->ssl);
 
-			if (l->network != NULL)
-				g_key_file_set_string(cfg->keyfile, "global", "default-network",
-								  l->network);
+			config_store_string(cfg->keyfile, "global", "default-network", l->network);
 			cfg->default_listener = l;
 		} else {
 			char *tmp;
@@ -410,8 +429,7 @@ void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_
 		cfg->keyfile = g_key_file_new();
 
 	g_key_file_set_boolean(cfg->keyfile, "global", "autosave", cfg->autosave);
-	if (cfg->admin_user != NULL)
-		g_key_file_set_string(cfg->keyfile, "global", "admin-user", cfg->admin_user);
+	config_store_string(cfg->keyfile, "global", "admin-user", cfg->admin_user);
 
 	if (g_key_file_has_key(cfg->keyfile, "global", "admin-log", NULL) ||
 		!cfg->admin_log)
@@ -435,13 +453,10 @@ void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_
 	if (g_key_file_has_key(cfg->keyfile, "global", "create-implicit", NULL) || !cfg->create_implicit)
 		g_key_file_set_boolean(cfg->keyfile, "global", "create-implicit", cfg->create_implicit);
 
-	if (cfg->client_charset != NULL)
-		g_key_file_set_string(cfg->keyfile, "global", "default-client-charset", cfg->client_charset);
-
-	if (cfg->replication)
-		g_key_file_set_string(cfg->keyfile, "global", "replication", cfg->replication);
-	if (cfg->motd_file != NULL)
-		g_key_file_set_string(cfg->keyfile, "global", "motd-file", cfg->motd_file);
+	config_store_string(cfg->keyfile, "global", "default-client-charset", cfg->client_charset);
+	config_store_string(cfg->keyfile, "global", "replication", cfg->replication);
+	/* Without a setting there is a default one */
+	g_key_file_set_string(cfg->keyfile, "global", "motd-file", cfg->motd_file != NULL?cfg->motd_file:"");
 
 	switch (cfg->report_time) {
 	case REPORT_TIME_ALWAYS:
@@ -496,6 +511,8 @@ void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_
 
 	if (i > 0)
 		g_key_file_set_string_list(cfg->keyfile, "global", "autoconnect", (const gchar **)list, i);
+	else
+		g_key_file_remove_key(cfg->keyfile, "global", "autoconnect", NULL);
 
 	g_free(list);
 
@@ -1182,21 +1199,10 @@ static void config_save_auto_away(struct auto_away_config *d, struct ctrlproxy_c
 		g_key_file_set_boolean(kf, "global", "auto-away-enable", d->enabled);
 	}
 
-	if (d->message != NULL) {
-		g_key_file_set_string(kf, "global", "auto-away-message", d->message);
-	}
-
-	if (d->nick != NULL) {
-		g_key_file_set_string(kf, "global", "auto-away-nick", d->nick);
-	}
-
-	if (d->client_limit != -1) {
-		g_key_file_set_integer(kf, "global", "auto-away-client-limit", d->client_limit);
-	}
-
-	if (d->max_idle_time != -1) {
-		g_key_file_set_integer(kf, "global", "auto-away-time", d->max_idle_time);
-	}
+	config_store_string(kf, "global", "auto-away-message", d->message);
+	config_store_string(kf, "global", "auto-away-nick", d->nick);
+	config_store_integer(kf, "global", "auto-away-client-limit", d->client_limit, -1);
+	config_store_integer(kf, "global", "auto-away-time", d->max_idle_time, -1);
 }
 
 static void config_load_auto_away(struct auto_away_config *d, GKeyFile *kf)
-- 
2.43.0


From 6631078f550c8ca04182af49219017a9ca73967d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:35 +0000
Subject: [PATCH 098/138] fix: deleted and renamed networks do not come back,
 renamed ones do not disappear, and names that cannot be saved are refused

---
 src/admin.c    | 13 +++++++--
 src/settings.c | 79 +++++++++++++++++++++++++++++++++++++++++++++-----
 src/settings.h |  2 ++
 3 files changed, 84 insertions(+), 10 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index c6df20c..dd19426 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -370,6 +370,11 @@ static void add_network_helper(admin_handle h, const char *name)
 		return;
 	}
 
+	if (!config_valid_network_name(name)) {
+		admin_out(h, "Invalid network name `%s'", name);
+		return;
+	}
+
 	nc = network_config_init(admin_get_global(h)->config);
 	g_free(nc->name); nc->name = g_strdup(name);
 	n = load_network(admin_get_global(h), nc);
@@ -397,12 +402,16 @@ static void rename_network_helper(admin_handle h, const char *oldname,
 		return;
 	}
 
+	if (!config_valid_network_name(newname)) {
+		admin_out(h, "Invalid network name `%s'", newname);
+		return;
+	}
+
 	nc = n->private_data;
 
 	g_free(n->name);
 	n->name = g_strdup(newname);
-	g_free(nc->name);
-	nc->name = g_strdup(newname);
+	config_rename_network(admin_get_global(h)->config, nc, newname);
 }
 
 static void del_network_helper(admin_handle h, const char *name)
diff --git a/src/settings.c b/src/settings.c
index 3ee86af..34bfa1d 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -44,7 +44,7 @@
 
 static GList *known_keys = NULL;
 
-static void config_cleanup_networks_dir(struct ctrlproxy_config *cfg);
+static void config_cleanup_networks_dir(struct ctrlproxy_config *cfg, const char *networksdir);
 static void config_save_log(struct log_file_config *data,
 							struct ctrlproxy_config *config);
 static void config_save_auto_away(struct auto_away_config *d,
@@ -209,6 +209,10 @@ static void config_save_network(struct ctrlproxy_config *cfg,
 	if (n->keyfile == NULL) {
 		n->keyfile = cfg->keyfile;
 		n->groupname = g_strdup(n->name);
+	} else if (n->filename != NULL) {
+		/* The file has the name of the network */
+		g_free(n->filename);
+		n->filename = g_build_filename(dir, n->name, NULL);
 	}
 
 	kf = n->keyfile;
@@ -390,7 +394,7 @@ static void config_save_networks(struct ctrlproxy_config *cfg, const char *confi
 			config_save_network(cfg, networksdir, n, &channel_keys);
 	}
 
-	config_cleanup_networks_dir(cfg);
+	config_cleanup_networks_dir(cfg, networksdir);
 
 	filename = g_build_filename(config_dir, "keys", NULL);
 	if (channel_keys != NULL) {
@@ -971,18 +975,77 @@ struct network_config *config_find_network(struct ctrlproxy_config *cfg,
 	return NULL;
 }
 
+/**
+ * Change the name of a network.
+ *
+ * @param cfg Configuration
+ * @param nc Network to rename
+ * @param newname New name
+ */
+void config_rename_network(struct ctrlproxy_config *cfg, struct network_config *nc, const char *newname)
+{
+	if (nc->keyfile != NULL && nc->keyfile == cfg->keyfile) {
+		char **keys = g_key_file_get_keys(nc->keyfile, nc->groupname, NULL, NULL);
+		int i;
+
+		for (i = 0; keys != NULL && keys[i] != NULL; i++) {
+			char *value = g_key_file_get_value(nc->keyfile, nc->groupname, keys[i], NULL);
+			g_key_file_set_value(nc->keyfile, newname, keys[i], value);
+			g_free(value);
+		}
+
+		g_strfreev(keys);
+		g_key_file_remove_group(nc->keyfile, nc->groupname, NULL);
+
+		g_free(nc->groupname);
+		nc->groupname = g_strdup(newname);
+	}
+
+	g_free(nc->name);
+	nc->name = g_strdup(newname);
+}
+
+/**
+ * Check whether a network can be saved under a name.
+ *
+ * @param name Name of the network
+ * @return Whether it is possible
+ */
+gboolean config_valid_network_name(const char *name)
+{
+	static const char * const reserved[] = { "global", "auto-away", "log-irssi", "log-custom", NULL };
+	int i;
+
+	for (i = 0; reserved[i] != NULL; i++) {
+		if (!strcasecmp(name, reserved[i]))
+			return FALSE;
+	}
+
+	return name[0] != '\0' && name[0] != '#' && name[0] != '&' &&
+		name[0] != '.' && name[strlen(name)-1] != '~' &&
+		strpbrk(name, "[]/") == NULL;
+}
+
 void config_del_network(struct ctrlproxy_config *cfg, const char *name)
 {
-	cfg->networks = g_list_remove(cfg->networks, config_find_network(cfg, name));
+	struct network_config *nc = config_find_network(cfg, name);
+
+	if (nc == NULL)
+		return;
+
+	if (nc->keyfile != NULL && nc->keyfile == cfg->keyfile)
+		g_key_file_remove_group(cfg->keyfile, nc->groupname, NULL);
+
+	cfg->networks = g_list_remove(cfg->networks, nc);
 }
 
 #define IS_SPECIAL_FILE(name) (name[0] == '.' || name[strlen(name)-1] == '~')
 
-static void config_cleanup_networks_dir(struct ctrlproxy_config *cfg)
+static void config_cleanup_networks_dir(struct ctrlproxy_config *cfg, const char *networksdir)
 {
-	char *networksdir = g_build_filename(cfg->config_dir, "networks", NULL);
 	GDir *dir;
 	const char *name;
+	struct network_config *nc;
 
 	dir = g_dir_open(networksdir, 0, NULL);
 	if (dir == NULL) {
@@ -991,7 +1054,9 @@ static void config_cleanup_networks_dir(struct ctrlproxy_config *cfg)
 
 	while ((name = g_dir_read_name(dir))) {
 		char *path;
-		if (IS_SPECIAL_FILE(name) || config_find_network(cfg, name)) {
+		nc = config_find_network(cfg, name);
+		if (IS_SPECIAL_FILE(name) ||
+			(nc != NULL && nc->filename != NULL && !strcmp(nc->name, name))) {
 			continue;
 		}
 
@@ -1000,8 +1065,6 @@ static void config_cleanup_networks_dir(struct ctrlproxy_config *cfg)
 		g_free(path);
 	}
 
-	g_free(networksdir);
-
 	g_dir_close(dir);
 }
 
diff --git a/src/settings.h b/src/settings.h
index 94f9313..3f573d7 100644
--- a/src/settings.h
+++ b/src/settings.h
@@ -244,5 +244,7 @@ G_MODULE_EXPORT void free_config(struct ctrlproxy_config *);
 G_MODULE_EXPORT void setup_configdir(const char *dir);
 G_MODULE_EXPORT gboolean g_key_file_save_to_file(GKeyFile *kf, const gchar *file, GError **error);
 G_MODULE_EXPORT void config_del_network(struct ctrlproxy_config *cfg, const char *name);
+G_MODULE_EXPORT void config_rename_network(struct ctrlproxy_config *cfg, struct network_config *nc, const char *newname);
+G_GNUC_WARN_UNUSED_RESULT G_MODULE_EXPORT gboolean config_valid_network_name(const char *name);
 
 #endif /* __CTRLPROXY_SETTINGS_H__ */
-- 
2.43.0


From c5dd73c79b4b4ce54657421d4a8fe380a6ce1a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:58 +0000
Subject: [PATCH 099/138] fix: the users allowed on a listener are saved

---
 src/settings.c | 83 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 63 insertions(+), 20 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 34bfa1d..6ea0af8 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -44,6 +44,8 @@
 
 static GList *known_keys = NULL;
 
+static void config_store_allow_rules(GKeyFile *kf, const char *group, GList *rules);
+
 static void config_cleanup_networks_dir(struct ctrlproxy_config *cfg, const char *networksdir);
 static void config_save_log(struct log_file_config *data,
 							struct ctrlproxy_config *config);
@@ -84,6 +86,7 @@ static const char *builtin_known_keys[] = {
 	"ssl",
 	"keytab",
 	"default-network",
+	"allow",
 	"log-logfilename",
 	"log-format-nickchange",
 	"log-format-topic",
@@ -306,6 +309,7 @@ static void config_save_listeners(struct ctrlproxy_config *cfg, const char *path
 	config_store_string(cfg->keyfile, "global", "port", NULL);
 	config_store_string(cfg->keyfile, "global", "bind", NULL);
 	config_store_string(cfg->keyfile, "global", "default-network", NULL);
+	config_store_allow_rules(cfg->keyfile, "global", NULL);
 
 	if (cfg->auto_listener ||
 		g_key_file_has_key(cfg->keyfile, "global", "listener-auto", NULL))
@@ -329,6 +333,7 @@ static void config_save_listeners(struct ctrlproxy_config *cfg, const char *path
 				g_key_file_set_boolean(cfg->keyfile, "global", "ssl", l->ssl);
 
 			config_store_string(cfg->keyfile, "global", "default-network", l->network);
+			config_store_allow_rules(cfg->keyfile, "global", l->allow_rules);
 			cfg->default_listener = l;
 		} else {
 			char *tmp;
@@ -345,6 +350,8 @@ static void config_save_listeners(struct ctrlproxy_config *cfg, const char *path
 				g_key_file_set_string(kf, tmp, "network", l->network);
 			}
 
+			config_store_allow_rules(kf, tmp, l->allow_rules);
+
 			g_key_file_set_boolean(kf, tmp, "ssl", l->ssl);
 
 			if (l->ssl) {
@@ -797,22 +804,69 @@ static struct network_config *find_create_network_config(struct ctrlproxy_config
 	return nc;
 }
 
+/**
+ * Store the users allowed on a listener.
+ */
+static void config_store_allow_rules(GKeyFile *kf, const char *group, GList *rules)
+{
+	GList *gl;
+	char **values;
+	int i = 0;
+
+	if (rules == NULL) {
+		g_key_file_remove_key(kf, group, "allow", NULL);
+		return;
+	}
+
+	values = g_new0(char *, g_list_length(rules)+1);
+	for (gl = rules; gl; gl = gl->next) {
+		struct allow_rule *r = gl->data;
+
+		values[i++] = r->password != NULL?
+			g_strdup_printf("%s:%s", r->username, r->password):g_strdup(r->username);
+	}
+	g_key_file_set_string_list(kf, group, "allow", (const gchar **)values, i);
+	g_strfreev(values);
+}
+
+/**
+ * Load the users allowed on a listener.
+ */
+static GList *config_load_allow_rules(GKeyFile *kf, const char *group)
+{
+	GList *ret = NULL;
+	gsize size = 0, i;
+	char **allows = g_key_file_get_string_list(kf, group, "allow", &size, NULL);
+
+	for (i = 0; allows != NULL && i < size; i++) {
+		struct allow_rule *r = g_new0(struct allow_rule, 1);
+		char **parts = g_strsplit(allows[i], ":", 2);
+
+		r->username = parts[0];
+		r->password = parts[0] != NULL?parts[1]:NULL;
+
+		g_free(parts);
+		ret = g_list_append(ret, r);
+	}
+
+	g_strfreev(allows);
+
+	return ret;
+}
+
 static void config_load_listeners_socks(struct ctrlproxy_config *cfg)
 {
-	char **allows;
-	gsize size, i;
 	GKeyFile *kf = cfg->keyfile;
 	struct listener_config *l;
 
-	allows = g_key_file_get_string_list(kf, "socks", "allow", &size, NULL);
-
-	if (allows == NULL) {
+	if (!g_key_file_has_key(kf, "socks", "allow", NULL)) {
 		return;
 	}
 
-	g_key_file_remove_key(kf, "socks", "allow", NULL);
-
 	l = g_new0(struct listener_config, 1);
+	l->allow_rules = config_load_allow_rules(kf, "socks");
+
+	g_key_file_remove_key(kf, "socks", "allow", NULL);
 
 	if (g_key_file_has_key(kf, "socks", "port", NULL)) {
 		l->port = g_key_file_get_string(kf, "socks", "port", NULL);
@@ -829,21 +883,8 @@ static void config_load_listeners_socks(struct ctrlproxy_config *cfg)
 
 	g_key_file_remove_key(kf, "socks", "port", NULL);
 
-	for (i = 0; i < size; i++) {
-		struct allow_rule *r = g_new0(struct allow_rule, 1);
-		char **parts = g_strsplit(allows[i], ":", 2);
-
-		r->username = parts[0];
-		r->password = parts[1];
-
-		g_free(parts);
-		l->allow_rules = g_list_append(l->allow_rules, r);
-	}
-
 	g_key_file_remove_group(kf, "socks", NULL);
 
-	g_strfreev(allows);
-
 	cfg->listeners = g_list_append(cfg->listeners, l);
 }
 
@@ -899,6 +940,7 @@ static void config_load_listeners(struct ctrlproxy_config *cfg)
 		l->is_default = TRUE;
 
 		l->network = g_key_file_get_string(cfg->keyfile, "global", "default-network", NULL);
+		l->allow_rules = config_load_allow_rules(cfg->keyfile, "global");
 
 		cfg->listeners = g_list_append(cfg->listeners, l);
 	}
@@ -935,6 +977,7 @@ static void config_load_listeners(struct ctrlproxy_config *cfg)
 		}
 
 		l->password = g_key_file_get_string(kf, groups[i], "password", NULL);
+		l->allow_rules = config_load_allow_rules(kf, groups[i]);
 
 		if (g_key_file_has_key(kf, groups[i], "ssl", NULL))
 			l->ssl = g_key_file_get_boolean(kf, groups[i], "ssl", NULL);
-- 
2.43.0


From c95eaafaec43ef766d09395041c51fe2c22d89c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:27 +0000
Subject: [PATCH 100/138] fix: custom logging stays switched on when the
 configuration is saved

---
 src/settings.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/settings.c b/src/settings.c
index 6ea0af8..523f6c5 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -1161,7 +1161,7 @@ static void config_load_networks(struct ctrlproxy_config *cfg, GList *channel_ke
 }
 
 #define FETCH_SETTING(data, kf, section, prefix, name) (data)->name = g_key_file_get_string((kf), (section), prefix #name, NULL)
-#define STORE_SETTING(data, kf, section, prefix, name) g_key_file_set_string((kf), (section), prefix #name, (data)->name)
+#define STORE_SETTING(data, kf, section, prefix, name) config_store_string((kf), (section), prefix #name, (data)->name)
 
 static void config_save_log(struct log_file_config *data,
 							struct ctrlproxy_config *config)
@@ -1181,6 +1181,7 @@ static void config_save_log(struct log_file_config *data,
 			g_key_file_set_string(config->keyfile, "global", "logfile", data->logfilename);
 		}
 	} else {
+		g_key_file_set_string(config->keyfile, "global", "logging", "custom");
 		STORE_SETTING(data, config->keyfile, "global", "", logfilename);
 		STORE_SETTING(data, config->keyfile, "global", "log-format-", nickchange);
 		STORE_SETTING(data, config->keyfile, "global", "log-format-", topic);
-- 
2.43.0


From 678d039e1ac71cea657628c118a2761bd684ed3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:27 +0000
Subject: [PATCH 101/138] fix: networks to connect to are found by name before
 by server

---
 src/settings.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 523f6c5..0d279e5 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -745,20 +745,24 @@ static struct network_config *config_load_network_file(struct ctrlproxy_config *
 	return n;
 }
 
+struct network_config *config_find_network(struct ctrlproxy_config *cfg,
+										   const char *name);
+
 static struct network_config *find_create_network_config(struct ctrlproxy_config *cfg, const char *name)
 {
 	GList *gl;
 	struct network_config *nc;
 	struct tcp_server_config *tc;
 
+	nc = config_find_network(cfg, name);
+	if (nc != NULL) {
+		return nc;
+	}
+
 	for (gl = cfg->networks; gl; gl = gl->next) {
 		GList *gl1;
 		nc = gl->data;
 
-		if (strcasecmp(nc->name, name) == 0) {
-			return nc;
-		}
-
 		if (nc->type != NETWORK_TCP) {
 			continue;
 		}
@@ -778,6 +782,7 @@ static struct network_config *find_create_network_config(struct ctrlproxy_config
 			tmp = irc_create_url(sc->host, sc->port, FALSE);
 
 			if (strcasecmp(tmp, name) == 0) {
+				g_free(tmp);
 				return nc;
 			}
 
-- 
2.43.0


From 380e584f31abcc2346ae92e5f96c4498dbc12196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:27 +0000
Subject: [PATCH 102/138] fix: settings of servers with IPv6 addresses are
 kept, those of servers used by several networks apart

---
 src/settings.c | 117 +++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 99 insertions(+), 18 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 0d279e5..89326ea 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -171,7 +171,77 @@ static void config_store_integer(GKeyFile *kf, const char *group, const char *ke
 		g_key_file_remove_key(kf, group, key, NULL);
 }
 
-static void config_save_tcp_servers(struct network_config *n, GKeyFile *kf, const char *groupname)
+/**
+ * Find the name of the group with the settings of a server.
+ *
+ * @param cfg Configuration
+ * @param n Network the server belongs to
+ * @param url URL of the server
+ * @param shared Whether the group is for all networks that use the server
+ * @return name of the group, to be freed
+ */
+static char *config_server_group(struct network_config *n, const char *url, gboolean shared)
+{
+	char *ret;
+
+	if (shared)
+		ret = g_strdup(url);
+	else
+		ret = g_strdup_printf("%s %s", url, n->name);
+
+	/* Brackets can not be part of a group name */
+	g_strdelimit(ret, "[", '(');
+	g_strdelimit(ret, "]", ')');
+
+	return ret;
+}
+
+/**
+ * Check whether several networks use a server.
+ */
+static gboolean config_server_shared(struct ctrlproxy_config *cfg, struct network_config *n, const char *url)
+{
+	GList *gl, *gl1;
+
+	for (gl = cfg->networks; gl; gl = gl->next) {
+		struct network_config *nc = gl->data;
+
+		if (nc == n || nc->type != NETWORK_TCP || nc->implicit)
+			continue;
+
+		for (gl1 = nc->type_settings.tcp.servers; gl1; gl1 = gl1->next) {
+			struct tcp_server_config *ts = gl1->data;
+			char *other = irc_create_url(ts->host, ts->port, ts->ssl);
+			gboolean same = !strcasecmp(url, other);
+
+			g_free(other);
+			if (same)
+				return TRUE;
+		}
+	}
+
+	return FALSE;
+}
+
+/**
+ * Remove the settings of all servers.
+ */
+static void config_remove_server_groups(GKeyFile *kf)
+{
+	char **groups = g_key_file_get_groups(kf, NULL);
+	int i;
+
+	for (i = 0; groups[i] != NULL; i++) {
+		if (!strncasecmp(groups[i], "irc://", strlen("irc://")) ||
+			!strncasecmp(groups[i], "ircs://", strlen("ircs://"))) {
+			g_key_file_remove_group(kf, groups[i], NULL);
+		}
+	}
+
+	g_strfreev(groups);
+}
+
+static void config_save_tcp_servers(struct ctrlproxy_config *cfg, struct network_config *n, GKeyFile *kf, const char *groupname)
 {
 	GList *gl;
 	int i = 0;
@@ -179,20 +249,20 @@ static void config_save_tcp_servers(struct network_config *n, GKeyFile *kf, cons
 
 	for (gl = n->type_settings.tcp.servers; gl; gl = gl->next) {
 		struct tcp_server_config *ts = gl->data;
-		char *name = irc_create_url(ts->host, ts->port, ts->ssl);
+		char *url = irc_create_url(ts->host, ts->port, ts->ssl);
+		gboolean shared = config_server_shared(cfg, n, url);
+		char *name = config_server_group(n, url, !shared);
 
-		values[i] = name;
+		values[i] = url;
 
-		if (ts->password)
-			g_key_file_set_string(kf, name, "password", ts->password);
-		else
-			g_key_file_remove_key(kf, name, "password", NULL);
+		/* Keep the group from being empty */
+		if (shared)
+			g_key_file_set_boolean(kf, name, "ssl", ts->ssl);
 
-		if (ts->bind_address) {
-			g_key_file_set_string(kf, name, "bind", ts->bind_address);
-		} else
-			g_key_file_remove_key(kf, name, "bind", NULL);
+		config_store_string(kf, name, "password", ts->password);
+		config_store_string(kf, name, "bind", ts->bind_address);
 
+		g_free(name);
 		i++;
 	}
 
@@ -220,6 +290,9 @@ static void config_save_network(struct ctrlproxy_config *cfg,
 
 	kf = n->keyfile;
 
+	if (n->filename != NULL)
+		config_remove_server_groups(kf);
+
 	if (n->fullname != NULL)
 		g_key_file_set_string(kf, n->groupname, "fullname", n->fullname);
 	else
@@ -250,7 +323,7 @@ static void config_save_network(struct ctrlproxy_config *cfg,
 		g_key_file_set_string(kf, n->groupname, "program", n->type_settings.program_location);
 		break;
 	case NETWORK_TCP:
-		config_save_tcp_servers(n, kf, n->groupname);
+		config_save_tcp_servers(cfg, n, kf, n->groupname);
 		if (n->type_settings.tcp.default_bind_address != NULL)
 			g_key_file_set_string(kf, n->groupname, "bind",
 								  n->type_settings.tcp.default_bind_address);
@@ -387,6 +460,8 @@ static void config_save_networks(struct ctrlproxy_config *cfg, const char *confi
 	GList *gl;
 	GList *channel_keys = NULL;
 
+	config_remove_server_groups(cfg->keyfile);
+
 	for (gl = networks; gl; gl = gl->next) {
 		struct network_config *n = gl->data;
 		if (n->filename != NULL && !g_file_test(networksdir, G_FILE_TEST_IS_DIR)) {
@@ -549,7 +624,7 @@ static void config_load_channel(struct network_config *n, GKeyFile *kf, const ch
 static void config_load_servers(struct network_config *n)
 {
 	gsize size;
-	char **servers;
+	char **servers, *group;
 	int i;
 
 	servers = g_key_file_get_string_list(n->keyfile, n->groupname, "servers", &size, NULL);
@@ -566,15 +641,21 @@ static void config_load_servers(struct network_config *n)
 			continue;
 		}
 
-		s->password = g_key_file_get_string(n->keyfile, servers[i], "password", NULL);
-		if (g_key_file_has_key(n->keyfile, servers[i], "ssl", NULL))
-			s->ssl = g_key_file_get_boolean(n->keyfile, servers[i], "ssl", NULL);
+		group = config_server_group(n, servers[i], FALSE);
+		if (!g_key_file_has_group(n->keyfile, group)) {
+			g_free(group);
+			group = config_server_group(n, servers[i], TRUE);
+		}
+
+		s->password = g_key_file_get_string(n->keyfile, group, "password", NULL);
+		if (g_key_file_has_key(n->keyfile, group, "ssl", NULL))
+			s->ssl = g_key_file_get_boolean(n->keyfile, group, "ssl", NULL);
 
-		s->bind_address = g_key_file_get_string(n->keyfile, servers[i], "bind", NULL);
+		s->bind_address = g_key_file_get_string(n->keyfile, group, "bind", NULL);
 
 		n->type_settings.tcp.servers = g_list_append(n->type_settings.tcp.servers, s);
 
-		g_key_file_remove_group(n->keyfile, servers[i], NULL);
+		g_free(group);
 	}
 
 	g_strfreev(servers);
-- 
2.43.0


From 4be0989f79c90a39b698fca6202287f3969d0ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:18 +0000
Subject: [PATCH 103/138] fix: configuration files are replaced as a whole or
 not at all

---
 src/settings.c | 86 ++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 72 insertions(+), 14 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 89326ea..4f9750f 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -31,6 +31,9 @@
 #include <sys/socket.h>
 #include <stdlib.h>
 #include <stdio.h>
+#include <errno.h>
+#include <fcntl.h>
+#include <unistd.h>
 #include <glib/gstdio.h>
 
 #define DEFAULT_ADMIN_PORT 57000
@@ -127,24 +130,74 @@ void config_register_known_key(char *name)
 
 gboolean g_key_file_save_to_file(GKeyFile *kf, const gchar *file, GError **error)
 {
-	gsize length, nr;
+	gsize length, pos = 0;
 	char *data = g_key_file_to_data(kf, &length, error);
-	GIOChannel *gio;
+	char *tmpname;
+	gboolean ok = TRUE;
+	int fd, saved_errno = 0;
 
 	if (!data)
 		return FALSE;
 
-	gio = g_io_channel_new_file(file, "w+", error);
-	if (!gio) {
-		g_free(data);
-		return FALSE;
+	/* Never leave a partially written file behind */
+	tmpname = g_strdup_printf("%s.new~", file);
+
+	fd = open(tmpname, O_WRONLY | O_CREAT | O_TRUNC, 0600);
+	if (fd == -1) {
+		saved_errno = errno;
+		ok = FALSE;
+	}
+
+	while (ok && pos < length) {
+		ssize_t nr = write(fd, data + pos, length - pos);
+		if (nr > 0) {
+			pos += nr;
+		} else if (nr == 0 || errno != EINTR) {
+			saved_errno = nr == 0?EIO:errno;
+			ok = FALSE;
+		}
+	}
+
+	if (ok && fsync(fd) != 0) {
+		saved_errno = errno;
+		ok = FALSE;
+	}
+
+	if (fd != -1 && close(fd) != 0 && ok) {
+		saved_errno = errno;
+		ok = FALSE;
 	}
 
-	g_io_channel_write_chars(gio, data, length, &nr, error);
+	if (ok && rename(tmpname, file) != 0) {
+		saved_errno = errno;
+		ok = FALSE;
+	}
+
+	if (!ok) {
+		if (fd != -1)
+			unlink(tmpname);
+		g_set_error(error, G_FILE_ERROR, g_file_error_from_errno(saved_errno),
+					"%s: %s", file, strerror(saved_errno));
+	}
 
+	g_free(tmpname);
 	g_free(data);
 
-	g_io_channel_unref(gio);
+	return ok;
+}
+
+/**
+ * Save a key file, and report when that fails.
+ */
+static gboolean config_save_file(GKeyFile *kf, const char *file)
+{
+	GError *error = NULL;
+
+	if (!g_key_file_save_to_file(kf, file, &error)) {
+		log_global(LOG_ERROR, "Unable to save configuration: %s", error->message);
+		g_error_free(error);
+		return FALSE;
+	}
 
 	return TRUE;
 }
@@ -271,7 +324,7 @@ static void config_save_tcp_servers(struct ctrlproxy_config *cfg, struct network
 	g_strfreev(values);
 }
 
-static void config_save_network(struct ctrlproxy_config *cfg,
+static gboolean config_save_network(struct ctrlproxy_config *cfg,
 								const char *dir, struct network_config *n, GList **channel_keys)
 {
 	GList *gl;
@@ -366,8 +419,10 @@ static void config_save_network(struct ctrlproxy_config *cfg,
 	g_free(autojoin_list);
 
 	if (n->filename != NULL) {
-		g_key_file_save_to_file(kf, n->filename, NULL);
+		return config_save_file(kf, n->filename);
 	}
+
+	return TRUE;
 }
 
 static void config_save_listeners(struct ctrlproxy_config *cfg, const char *path)
@@ -459,6 +514,7 @@ static void config_save_networks(struct ctrlproxy_config *cfg, const char *confi
 	char *filename;
 	GList *gl;
 	GList *channel_keys = NULL;
+	gboolean saved = TRUE;
 
 	config_remove_server_groups(cfg->keyfile);
 
@@ -472,11 +528,13 @@ static void config_save_networks(struct ctrlproxy_config *cfg, const char *confi
 		}
 
 
-		if (!n->implicit)
-			config_save_network(cfg, networksdir, n, &channel_keys);
+		if (!n->implicit && !config_save_network(cfg, networksdir, n, &channel_keys))
+			saved = FALSE;
 	}
 
-	config_cleanup_networks_dir(cfg, networksdir);
+	/* Keep the old files when there are no new ones */
+	if (saved)
+		config_cleanup_networks_dir(cfg, networksdir);
 
 	filename = g_build_filename(config_dir, "keys", NULL);
 	if (channel_keys != NULL) {
@@ -603,7 +661,7 @@ void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_
 	g_free(list);
 
 	fn = g_build_filename(configuration_dir, "config", NULL);
-	g_key_file_save_to_file(cfg->keyfile, fn, NULL);
+	config_save_file(cfg->keyfile, fn);
 	g_free(fn);
 }
 
-- 
2.43.0


From 24c7d95bddc9a3d30554bdc27a8721f5c7fe1657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:18 +0000
Subject: [PATCH 104/138] fix: settings that are not valid UTF-8 are kept and
 do not crash

---
 src/settings.c | 183 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 135 insertions(+), 48 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 4f9750f..8c762f5 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -202,6 +202,93 @@ static gboolean config_save_file(GKeyFile *kf, const char *file)
 	return TRUE;
 }
 
+/**
+ * Take back the escapes in the value of a setting.
+ */
+static char *config_unescape(const char *raw, size_t len)
+{
+	GString *ret = g_string_sized_new(len);
+	size_t i;
+
+	for (i = 0; i < len; i++) {
+		char c = raw[i];
+
+		if (c == '\\' && i + 1 < len) {
+			switch (raw[++i]) {
+			case 's': c = ' '; break;
+			case 'n': c = '\n'; break;
+			case 't': c = '\t'; break;
+			case 'r': c = '\r'; break;
+			default: c = raw[i]; break;
+			}
+		}
+		g_string_append_c(ret, c);
+	}
+
+	return g_string_free(ret, FALSE);
+}
+
+/**
+ * Retrieve a string setting. Unlike g_key_file_get_string() this also
+ * handles settings that are not valid UTF-8.
+ */
+static char *config_fetch_string(GKeyFile *kf, const char *group, const char *key, GError **error)
+{
+	char *raw, *ret;
+
+	ret = g_key_file_get_string(kf, group, key, NULL);
+	if (ret != NULL)
+		return ret;
+
+	raw = g_key_file_get_value(kf, group, key, NULL);
+	if (raw == NULL)
+		return NULL;
+
+	ret = config_unescape(raw, strlen(raw));
+	g_free(raw);
+
+	return ret;
+}
+
+/**
+ * Retrieve a list of strings. Unlike g_key_file_get_string_list() this also
+ * handles strings that are not valid UTF-8.
+ */
+static char **config_fetch_list(GKeyFile *kf, const char *group, const char *key, gsize *length, GError **error)
+{
+	char *raw, **ret;
+	GPtrArray *list;
+	size_t i, start = 0;
+
+	*length = 0;
+
+	ret = g_key_file_get_string_list(kf, group, key, length, NULL);
+	if (ret != NULL)
+		return ret;
+
+	raw = g_key_file_get_value(kf, group, key, NULL);
+	if (raw == NULL)
+		return NULL;
+
+	list = g_ptr_array_new();
+	for (i = 0; raw[i] != '\0'; i++) {
+		if (raw[i] == '\\' && raw[i+1] != '\0') {
+			i++;
+		} else if (raw[i] == ';') {
+			g_ptr_array_add(list, config_unescape(raw + start, i - start));
+			start = i + 1;
+		}
+	}
+	if (raw[start] != '\0')
+		g_ptr_array_add(list, config_unescape(raw + start, i - start));
+	g_free(raw);
+
+	*length = list->len;
+	g_ptr_array_add(list, NULL);
+
+	return (char **)g_ptr_array_free(list, FALSE);
+}
+
 /**
  * Store a string setting, or remove it when it is not set.
  */
@@ -671,7 +758,7 @@ static void config_load_channel(struct network_config *n, GKeyFile *kf, const ch
 
 	ch->name = g_strdup(name);
 	if (g_key_file_has_key(kf, name, "key", NULL))
-		ch->key = g_key_file_get_string(kf, name, "key", NULL);
+		ch->key = config_fetch_string(kf, name, "key", NULL);
 
 	if (g_key_file_has_key(kf, name, "autojoin", NULL))
 		ch->autojoin = g_key_file_get_boolean(kf, name, "autojoin", NULL);
@@ -685,7 +772,7 @@ static void config_load_servers(struct network_config *n)
 	char **servers, *group;
 	int i;
 
-	servers = g_key_file_get_string_list(n->keyfile, n->groupname, "servers", &size, NULL);
+	servers = config_fetch_list(n->keyfile, n->groupname, "servers", &size, NULL);
 
 	if (!servers) {
 		return;
@@ -705,11 +792,11 @@ static void config_load_servers(struct network_config *n)
 			group = config_server_group(n, servers[i], TRUE);
 		}
 
-		s->password = g_key_file_get_string(n->keyfile, group, "password", NULL);
+		s->password = config_fetch_string(n->keyfile, group, "password", NULL);
 		if (g_key_file_has_key(n->keyfile, group, "ssl", NULL))
 			s->ssl = g_key_file_get_boolean(n->keyfile, group, "ssl", NULL);
 
-		s->bind_address = g_key_file_get_string(n->keyfile, group, "bind", NULL);
+		s->bind_address = config_fetch_string(n->keyfile, group, "bind", NULL);
 
 		n->type_settings.tcp.servers = g_list_append(n->type_settings.tcp.servers, s);
 
@@ -754,14 +841,14 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 
 	if (g_key_file_has_key(kf, groupname, "fullname", NULL)) {
 		g_free(n->fullname);
-		n->fullname = g_key_file_get_string(kf, groupname, "fullname", NULL);
+		n->fullname = config_fetch_string(kf, groupname, "fullname", NULL);
 		if (!strcmp(n->fullname, "") || n->fullname[0] == ' ')
 			log_global(LOG_WARNING, "Invalid fullname `%s' set for network `%s'", n->fullname, n->name);
 	}
 
 	if (g_key_file_has_key(kf, groupname, "nick", NULL)) {
 		g_free(n->nick);
-		n->nick = g_key_file_get_string(kf, groupname, "nick", NULL);
+		n->nick = config_fetch_string(kf, groupname, "nick", NULL);
 		if (!strcmp(n->nick, "") || n->nick[0] == ' ')
 			log_global(LOG_WARNING, "Invalid nick name `%s' set for `%s'", n->nick, n->name);
 	}
@@ -776,7 +863,7 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 
 	if (g_key_file_has_key(kf, groupname, "username", NULL)) {
 		g_free(n->username);
-		n->username = g_key_file_get_string(kf, groupname, "username", NULL);
+		n->username = config_fetch_string(kf, groupname, "username", NULL);
 		if (!strcmp(n->username, "") || n->username[0] == ' ')
 			log_global(LOG_WARNING, "Invalid username `%s' set for network `%s'", n->username, n->name);
 	}
@@ -787,12 +874,12 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 
 	if (g_key_file_has_key(kf, groupname, "password", NULL)) {
 		g_free(n->password);
-		n->password = g_key_file_get_string(kf, groupname, "password", NULL);
+		n->password = config_fetch_string(kf, groupname, "password", NULL);
 	}
 
 	if (g_key_file_has_key(kf, groupname, "autocmd", NULL)) {
 		g_strfreev(n->autocmd);
-		n->autocmd = g_key_file_get_string_list(n->keyfile, groupname, "autocmd", &size, NULL);
+		n->autocmd = config_fetch_list(n->keyfile, groupname, "autocmd", &size, NULL);
 	}
 
 	n->name = g_strdup(networkname);
@@ -806,14 +893,14 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 
 	switch (n->type) {
 	case NETWORK_TCP:
-		n->type_settings.tcp.default_bind_address = g_key_file_get_string(kf, groupname, "bind", NULL);
+		n->type_settings.tcp.default_bind_address = config_fetch_string(kf, groupname, "bind", NULL);
 		config_load_servers(n);
 		break;
 	case NETWORK_PROGRAM:
-		n->type_settings.program_location = g_key_file_get_string(kf, groupname, "program", NULL);
+		n->type_settings.program_location = config_fetch_string(kf, groupname, "program", NULL);
 		break;
 	case NETWORK_VIRTUAL:
-		n->type_settings.virtual_name = g_key_file_get_string(kf, groupname, "virtual", NULL);
+		n->type_settings.virtual_name = config_fetch_string(kf, groupname, "virtual", NULL);
 		break;
 	case NETWORK_IOCHANNEL:
 		/* Don't store */
@@ -834,7 +921,7 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 	if (g_key_file_has_key(n->keyfile, groupname, "autojoin", NULL)) {
 		char **autojoin_channels;
 		gsize i;
-		autojoin_channels = g_key_file_get_string_list(n->keyfile, groupname, "autojoin", &size, NULL);
+		autojoin_channels = config_fetch_list(n->keyfile, groupname, "autojoin", &size, NULL);
 		for (i = 0; i < size; i++) {
 			struct channel_config *cc = config_find_add_channel(n, autojoin_channels[i]);
 
@@ -980,7 +1067,7 @@ static GList *config_load_allow_rules(GKeyFile *kf, const char *group)
 {
 	GList *ret = NULL;
 	gsize size = 0, i;
-	char **allows = g_key_file_get_string_list(kf, group, "allow", &size, NULL);
+	char **allows = config_fetch_list(kf, group, "allow", &size, NULL);
 
 	for (i = 0; allows != NULL && i < size; i++) {
 		struct allow_rule *r = g_new0(struct allow_rule, 1);
@@ -1013,7 +1100,7 @@ static void config_load_listeners_socks(struct ctrlproxy_config *cfg)
 	g_key_file_remove_key(kf, "socks", "allow", NULL);
 
 	if (g_key_file_has_key(kf, "socks", "port", NULL)) {
-		l->port = g_key_file_get_string(kf, "socks", "port", NULL);
+		l->port = config_fetch_string(kf, "socks", "port", NULL);
 	} else {
 		l->port = g_strdup_printf("%d", DEFAULT_SOCKS_PORT);
 	}
@@ -1043,10 +1130,10 @@ static void config_load_listeners(struct ctrlproxy_config *cfg)
 
 	if (g_key_file_has_key(cfg->keyfile, "listener", "password", NULL)) {
 		g_key_file_set_string(cfg->keyfile, "global", "password",
-							  g_key_file_get_string(cfg->keyfile, "listener", "password", NULL));
+							  config_fetch_string(cfg->keyfile, "listener", "password", NULL));
 		g_key_file_remove_key(cfg->keyfile, "listener", "password", NULL);
 	}
-	cfg->password = g_key_file_get_string(cfg->keyfile, "global", "password", NULL);
+	cfg->password = config_fetch_string(cfg->keyfile, "global", "password", NULL);
 
 	if (g_key_file_has_key(cfg->keyfile, "global", "listener-auto", NULL)) {
 		cfg->auto_listener = g_key_file_get_boolean(cfg->keyfile, "global", "listener-auto", NULL);
@@ -1064,9 +1151,9 @@ static void config_load_listeners(struct ctrlproxy_config *cfg)
 
 	if (g_key_file_has_key(cfg->keyfile, "global", "port", NULL)) {
 		struct listener_config *l = g_new0(struct listener_config, 1);
-		l->port = g_key_file_get_string(cfg->keyfile, "global", "port", NULL);
-		l->password = g_key_file_get_string(cfg->keyfile, "global", "password", NULL);
-		l->address = g_key_file_get_string(cfg->keyfile, "global", "bind", NULL);
+		l->port = config_fetch_string(cfg->keyfile, "global", "port", NULL);
+		l->password = config_fetch_string(cfg->keyfile, "global", "password", NULL);
+		l->address = config_fetch_string(cfg->keyfile, "global", "bind", NULL);
 		l->ssl = g_key_file_has_key(cfg->keyfile, "global", "ssl", NULL) &&
 				 g_key_file_get_boolean(cfg->keyfile, "global", "ssl", NULL);
 
@@ -1074,16 +1161,16 @@ static void config_load_listeners(struct ctrlproxy_config *cfg)
 		if (l->ssl) {
 			l->ssl_credentials = ssl_create_server_credentials(cfg->config_dir, cfg->keyfile, "global");
 			if (g_key_file_has_key(cfg->keyfile, "global", "certfile", NULL)) {
-				l->certfile = g_key_file_get_string(cfg->keyfile, "global", "certfile", NULL);
+				l->certfile = config_fetch_string(cfg->keyfile, "global", "certfile", NULL);
 			}
 			if (g_key_file_has_key(cfg->keyfile, "global", "keyfile", NULL)) {
-				l->keyfile = g_key_file_get_string(cfg->keyfile, "global", "keyfile", NULL);
+				l->keyfile = config_fetch_string(cfg->keyfile, "global", "keyfile", NULL);
 			}
 		}
 #endif
 		l->is_default = TRUE;
 
-		l->network = g_key_file_get_string(cfg->keyfile, "global", "default-network", NULL);
+		l->network = config_fetch_string(cfg->keyfile, "global", "default-network", NULL);
 		l->allow_rules = config_load_allow_rules(cfg->keyfile, "global");
 
 		cfg->listeners = g_list_append(cfg->listeners, l);
@@ -1120,7 +1207,7 @@ static void config_load_listeners(struct ctrlproxy_config *cfg)
 			l->address = NULL;
 		}
 
-		l->password = g_key_file_get_string(kf, groups[i], "password", NULL);
+		l->password = config_fetch_string(kf, groups[i], "password", NULL);
 		l->allow_rules = config_load_allow_rules(kf, groups[i]);
 
 		if (g_key_file_has_key(kf, groups[i], "ssl", NULL))
@@ -1130,16 +1217,16 @@ static void config_load_listeners(struct ctrlproxy_config *cfg)
 		if (l->ssl) {
 			l->ssl_credentials = ssl_create_server_credentials(cfg->config_dir, kf, groups[i]);
 			if (g_key_file_has_key(kf, groups[i], "certfile", NULL)) {
-				l->certfile = g_key_file_get_string(kf, groups[i], "certfile", NULL);
+				l->certfile = config_fetch_string(kf, groups[i], "certfile", NULL);
 			}
 			if (g_key_file_has_key(kf, groups[i], "keyfile", NULL)) {
-				l->keyfile = g_key_file_get_string(kf, groups[i], "keyfile", NULL);
+				l->keyfile = config_fetch_string(kf, groups[i], "keyfile", NULL);
 			}
 		}
 #endif
 
 		if (g_key_file_has_key(kf, groups[i], "network", NULL)) {
-			l->network = g_key_file_get_string(kf, groups[i], "network", NULL);
+			l->network = config_fetch_string(kf, groups[i], "network", NULL);
 		}
 
 		cfg->listeners = g_list_append(cfg->listeners, l);
@@ -1304,7 +1391,7 @@ static void config_load_networks(struct ctrlproxy_config *cfg, GList *channel_ke
 	g_strfreev(groups);
 }
 
-#define FETCH_SETTING(data, kf, section, prefix, name) (data)->name = g_key_file_get_string((kf), (section), prefix #name, NULL)
+#define FETCH_SETTING(data, kf, section, prefix, name) (data)->name = config_fetch_string((kf), (section), prefix #name, NULL)
 #define STORE_SETTING(data, kf, section, prefix, name) config_store_string((kf), (section), prefix #name, (data)->name)
 
 static void config_save_log(struct log_file_config *data,
@@ -1348,7 +1435,7 @@ static void config_load_log(struct ctrlproxy_config *config)
 	char *logging = NULL;
 
 	if (g_key_file_has_key(kf, "global", "logging", NULL)) {
-		logging = g_key_file_get_string(kf, "global", "logging", NULL);
+		logging = config_fetch_string(kf, "global", "logging", NULL);
 	}
 
 	if (g_key_file_has_group(kf, "log-custom")) {
@@ -1410,12 +1497,12 @@ static void config_load_log(struct ctrlproxy_config *config)
 		data->nickchange = "%h:%M -!- %n is now known as %r";
 
 		if (g_key_file_has_key(kf, "global", "logfile", NULL)) {
-			data->logfilename= g_key_file_get_string(kf, "global", "logfile", NULL);
+			data->logfilename= config_fetch_string(kf, "global", "logfile", NULL);
 		} else if (g_key_file_has_key(kf, "global", "logdir", NULL)) {
-			data->logbasedir = g_key_file_get_string(kf, "global", "logdir", NULL);
+			data->logbasedir = config_fetch_string(kf, "global", "logdir", NULL);
 			data->logfilename = g_strdup_printf("%s/%%N/%%@", data->logbasedir);
 		} else if (g_key_file_has_key(kf, "log-irssi", "logfile", NULL)) {
-			data->logbasedir = g_key_file_get_string(kf, "log-irssi", "logfile", NULL);
+			data->logbasedir = config_fetch_string(kf, "log-irssi", "logfile", NULL);
 			data->logfilename = g_strdup_printf("%s/%%N/%%@", data->logbasedir);
 		} else {
 			data->logbasedir = g_build_filename(config->config_dir,
@@ -1460,8 +1547,8 @@ static void config_load_auto_away(struct auto_away_config *d, GKeyFile *kf)
 {
 	if (g_key_file_has_group(kf, "auto-away")) {
 		d->enabled = TRUE;
-		d->message = g_key_file_get_string(kf, "auto-away", "message", NULL);
-		d->nick = g_key_file_get_string(kf, "auto-away", "nick", NULL);
+		d->message = config_fetch_string(kf, "auto-away", "message", NULL);
+		d->nick = config_fetch_string(kf, "auto-away", "nick", NULL);
 		if (g_key_file_has_key(kf, "auto-away", "client_limit", NULL)) {
 			d->client_limit = g_key_file_get_integer(kf, "auto-away", "client_limit", NULL);
 			if (g_key_file_has_key(kf, "auto-away", "only_noclient", NULL))
@@ -1482,8 +1569,8 @@ static void config_load_auto_away(struct auto_away_config *d, GKeyFile *kf)
 	} else {
 		if (g_key_file_has_key(kf, "global", "auto-away-enable", NULL))
 			d->enabled = g_key_file_get_boolean(kf, "global", "auto-away-enable", NULL);
-		d->message = g_key_file_get_string(kf, "global", "auto-away-message", NULL);
-		d->nick = g_key_file_get_string(kf, "global", "auto-away-nick", NULL);
+		d->message = config_fetch_string(kf, "global", "auto-away-message", NULL);
+		d->nick = config_fetch_string(kf, "global", "auto-away-nick", NULL);
 		if (g_key_file_has_key(kf, "global", "auto-away-client-limit", NULL)) {
 			d->client_limit = g_key_file_get_integer(kf, "global", "auto-away-client-limit", NULL);
 		} else
@@ -1545,7 +1632,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 
 	if (g_key_file_has_key(kf, "global", "keytab", NULL)) {
 		char *keytab;
-		keytab = g_key_file_get_string(kf, "global", "keytab", NULL);
+		keytab = config_fetch_string(kf, "global", "keytab", NULL);
 #ifdef HAVE_GSSKRB5_REGISTER_ACCEPTOR_IDENTITY
 		gsskrb5_register_acceptor_identity(keytab);
 #endif
@@ -1559,10 +1646,10 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 	}
 
 
-	cfg->replication = g_key_file_get_string(kf, "global", "replication", NULL);
+	cfg->replication = config_fetch_string(kf, "global", "replication", NULL);
 
 	if (g_key_file_has_key(kf, "global", "report-time", NULL)) {
-		char *setting = g_key_file_get_string(kf, "global", "report-time", NULL);
+		char *setting = config_fetch_string(kf, "global", "report-time", NULL);
 		if (!strcasecmp(setting, "never") || !strcasecmp(setting, "false")) {
 			cfg->report_time = REPORT_TIME_NEVER;
 		} else if (!strcasecmp(setting, "always")) {
@@ -1582,7 +1669,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 	}
 
 	if (g_key_file_has_key(kf, "global", "motd-file", NULL)) {
-		cfg->motd_file = g_key_file_get_string(kf, "global", "motd-file", NULL);
+		cfg->motd_file = config_fetch_string(kf, "global", "motd-file", NULL);
 	} else if (from_source) {
 		cfg->motd_file = g_strdup("motd");
 	} else {
@@ -1590,13 +1677,13 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 	}
 
 	if (g_key_file_has_key(kf, "client", "charset", NULL)) {
-		cfg->client_charset = g_key_file_get_string(kf, "client", "charset", NULL);
+		cfg->client_charset = config_fetch_string(kf, "client", "charset", NULL);
 		g_key_file_remove_key(cfg->keyfile, "client", "charset", NULL); /* deprecated */
 	} else if (g_key_file_has_key(kf, "global", "client-charset", NULL)) {
-		cfg->client_charset = g_key_file_get_string(kf, "global", "client-charset", NULL);
+		cfg->client_charset = config_fetch_string(kf, "global", "client-charset", NULL);
 		g_key_file_remove_key(cfg->keyfile, "global", "client-charset", NULL); /* deprecated */
 	} else if (g_key_file_has_key(kf, "global", "default-client-charset", NULL)) {
-		cfg->client_charset = g_key_file_get_string(kf, "global", "default-client-charset", NULL);
+		cfg->client_charset = config_fetch_string(kf, "global", "default-client-charset", NULL);
 	} else {
 		cfg->client_charset = NULL;
 	}
@@ -1621,7 +1708,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 
 	if (g_key_file_has_key(kf, "global", "default-username", NULL)) {
 		g_free(cfg->default_username);
-		cfg->default_username = g_key_file_get_string(kf, "global", "default-username", NULL);
+		cfg->default_username = config_fetch_string(kf, "global", "default-username", NULL);
 		if (!strcmp(cfg->default_username, "") || cfg->default_username[0] == ' ') {
 			log_global(LOG_WARNING, "Invalid default username `%s' set", cfg->default_username);
 		}
@@ -1629,7 +1716,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 
 	if (g_key_file_has_key(kf, "global", "default-fullname", NULL)) {
 		g_free(cfg->default_realname);
-		cfg->default_realname = g_key_file_get_string(kf, "global", "default-fullname", NULL);
+		cfg->default_realname = config_fetch_string(kf, "global", "default-fullname", NULL);
 		if (!strcmp(cfg->default_realname, "") || cfg->default_realname[0] == ' ') {
 			log_global(LOG_WARNING, "Invalid default fullname `%s' set", cfg->default_realname);
 		}
@@ -1637,7 +1724,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 
 	if (g_key_file_has_key(kf, "global", "default-nick", NULL)) {
 		g_free(cfg->default_nick);
-		cfg->default_nick = g_key_file_get_string(kf, "global", "default-nick", NULL);
+		cfg->default_nick = config_fetch_string(kf, "global", "default-nick", NULL);
 		if (!strcmp(cfg->default_nick, "") || cfg->default_nick[0] == ' ') {
 			log_global(LOG_WARNING, "Invalid nick name `%s' set", cfg->default_nick);
 		}
@@ -1657,7 +1744,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 	}
 
 	if (g_key_file_has_key(kf, "global", "admin-user", NULL)) {
-		cfg->admin_user = g_key_file_get_string(kf, "global", "admin-user", NULL);
+		cfg->admin_user = config_fetch_string(kf, "global", "admin-user", NULL);
 	}
 
 	cfg->admin_log = TRUE;
@@ -1703,7 +1790,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 	g_strfreev(keys);
 
 	size = 0;
-	autoconnect_list = g_key_file_get_string_list(kf, "global", "autoconnect", &size, NULL);
+	autoconnect_list = config_fetch_list(kf, "global", "autoconnect", &size, NULL);
 
 	for (i = 0; i < size; i++) {
 		struct network_config *nc = find_create_network_config(cfg, autoconnect_list[i]);
-- 
2.43.0


From b3503245f92f298dc59534e9b7cf11b3b203ac1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:48 +0000
Subject: [PATCH 105/138] fix: the order of the channels to join is kept when
 the configuration is saved

---
 src/settings.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 8c762f5..d7656da 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -497,7 +497,7 @@ static gboolean config_save_network(struct ctrlproxy_config *cfg,
 		g_key_file_remove_group(kf, c->name, NULL);
 	}
 
-	if (autojoin_list == NULL)
+	if (autojoin_list_count == 0)
 		g_key_file_remove_key(kf, n->groupname, "autojoin", NULL);
 	else
 		g_key_file_set_string_list(kf, n->groupname, "autojoin", (const gchar **)autojoin_list,
@@ -907,17 +907,6 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 		break;
 	}
 
-	for (gl = channel_keys; gl; gl = gl->next) {
-		struct keyfile_entry *ke = gl->data;
-
-		if (ke->network == NULL || !strcasecmp(ke->network, n->name)) {
-			struct channel_config *cc = config_find_add_channel(n, ke->nick);
-
-			g_free(cc->key);
-			cc->key = g_strdup(ke->pass);
-		}
-	}
-
 	if (g_key_file_has_key(n->keyfile, groupname, "autojoin", NULL)) {
 		char **autojoin_channels;
 		gsize i;
@@ -931,6 +920,17 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 		g_strfreev(autojoin_channels);
 	}
 
+	for (gl = channel_keys; gl; gl = gl->next) {
+		struct keyfile_entry *ke = gl->data;
+
+		if (ke->network == NULL || !strcasecmp(ke->network, n->name)) {
+			struct channel_config *cc = config_find_add_channel(n, ke->nick);
+
+			g_free(cc->key);
+			cc->key = g_strdup(ke->pass);
+		}
+	}
+
 	return n;
 }
 
-- 
2.43.0


From 3c17025aa9c4024eb414214006d90e8a542d5da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:44 +0000
Subject: [PATCH 106/138] fix: removed channels of networks with files of their
 own do not come back

---
 src/settings.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/settings.c b/src/settings.c
index d7656da..b494ed0 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -506,6 +506,17 @@ static gboolean config_save_network(struct ctrlproxy_config *cfg,
 	g_free(autojoin_list);
 
 	if (n->filename != NULL) {
+		char **groups = g_key_file_get_groups(kf, NULL);
+		int i;
+
+		/* Channels are no longer stored in groups of their own */
+		for (i = 0; groups[i] != NULL; i++) {
+			if (!g_ascii_isalpha(groups[i][0]))
+				g_key_file_remove_group(kf, groups[i], NULL);
+		}
+
+		g_strfreev(groups);
+
 		return config_save_file(kf, n->filename);
 	}
 
-- 
2.43.0


From cadc520dd12509628324a44fcb8c47dd43ca57ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:10 +0000
Subject: [PATCH 107/138] fix: servers with IPv6 addresses can be added,
 servers that are there already or have no address are refused

---
 src/admin.c | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index dd19426..b6f52e9 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -208,7 +208,9 @@ static void cmd_add_server (admin_handle h, const char * const *args, void *user
 	struct irc_network *n;
 	struct tcp_server_config *s;
 	struct network_config *nc;
-	char *t;
+	char *host, *port;
+	gboolean ssl;
+	GList *gl;
 
 	if (!args[1] || !args[2]) {
 		admin_out(h, "Not enough parameters");
@@ -229,16 +231,27 @@ static void cmd_add_server (admin_handle h, const char * const *args, void *user
 		return;
 	}
 
-	s = g_new0(struct tcp_server_config, 1);
+	if (!irc_parse_url(args[2], &host, &port, &ssl)) {
+		admin_out(h, "Invalid server address `%s'", args[2]);
+		return;
+	}
 
-	s->host = g_strdup(args[2]);
-	if ((t = strchr(s->host, ':'))) {
-		*t = '\0';
-		s->port = g_strdup(t+1);
-	} else {
-		s->port = g_strdup(DEFAULT_IRC_PORT);
+	for (gl = nc->type_settings.tcp.servers; gl; gl = gl->next) {
+		s = gl->data;
+		if (!g_strcasecmp(s->host, host) && !strcmp(s->port, port) &&
+			!s->ssl == !ssl) {
+			admin_out(h, "`%s' already has that server", args[1]);
+			g_free(host);
+			g_free(port);
+			return;
+		}
 	}
-	s->ssl = FALSE;
+
+	s = g_new0(struct tcp_server_config, 1);
+
+	s->host = host;
+	s->port = port;
+	s->ssl = ssl;
 	s->password = args[3]?g_strdup(args[3]):NULL;
 
 	nc->type_settings.tcp.servers = g_list_append(nc->type_settings.tcp.servers, s);
-- 
2.43.0


From 24b1b7636d023eca8e1d6487a49ef5e6e15f23a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:11 +0000
Subject: [PATCH 108/138] fix: channel keys are not forgotten while the modes
 of the channel are unknown

---
 src/gen_config.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gen_config.c b/src/gen_config.c
index 8885ada..8235bdb 100644
--- a/src/gen_config.c
+++ b/src/gen_config.c
@@ -70,10 +70,12 @@ void network_update_config(struct irc_network_state *ns, struct network_config *
 			cc->name = g_strdup(cs->name);
 			nc->channels = g_list_append(nc->channels, cc);
 		}
-		g_free(cc->key);
-		cc->key = NULL;
-		if (cs->chanmode_option['k'])
+		/* Keep the key that was configured unless the channel's modes are 
+		 * known */
+		if (cs->mode_received || cs->chanmode_option['k']) {
+			g_free(cc->key);
 			cc->key = g_strdup(cs->chanmode_option['k']);
+		}
 		cc->autojoin = TRUE;
 	}
 }
-- 
2.43.0


From cd8a3031d1fc8bbb451ea1b0735dc2ff70191c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:32 +0000
Subject: [PATCH 109/138] fix: networks and channel keys that move to other
 files are in one of them at any time

---
 src/settings.c | 98 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 65 insertions(+), 33 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index b494ed0..2c23784 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -412,7 +412,7 @@ static void config_save_tcp_servers(struct ctrlproxy_config *cfg, struct network
 }
 
 static gboolean config_save_network(struct ctrlproxy_config *cfg,
-								const char *dir, struct network_config *n, GList **channel_keys)
+								const char *dir, struct network_config *n)
 {
 	GList *gl;
 	GKeyFile *kf;
@@ -478,16 +478,6 @@ static gboolean config_save_network(struct ctrlproxy_config *cfg,
 
 	for (gl = n->channels; gl; gl = gl->next) {
 		struct channel_config *c = gl->data;
-		struct keyfile_entry *key;
-
-		if (c->key) {
-			key = g_new0(struct keyfile_entry, 1);
-			key->network = n->name;
-			key->nick = c->name;
-			key->pass = c->key;
-
-			*channel_keys = g_list_append(*channel_keys, key);
-		}
 
 		if (c->autojoin) {
 			autojoin_list[autojoin_list_count] = c->name;
@@ -606,46 +596,75 @@ static void config_save_listeners(struct ctrlproxy_config *cfg, const char *path
 	g_free(filename);
 }
 
-static void config_save_networks(struct ctrlproxy_config *cfg, const char *config_dir, GList *networks)
+static gboolean config_save_channel_keys(const char *config_dir, GList *networks)
 {
-	char *networksdir = g_build_filename(config_dir, "networks", NULL);
-	char *filename;
-	GList *gl;
+	char *filename = g_build_filename(config_dir, "keys", NULL);
+	GList *gl, *gl1;
 	GList *channel_keys = NULL;
 	gboolean saved = TRUE;
 
-	config_remove_server_groups(cfg->keyfile);
-
 	for (gl = networks; gl; gl = gl->next) {
 		struct network_config *n = gl->data;
-		if (n->filename != NULL && !g_file_test(networksdir, G_FILE_TEST_IS_DIR)) {
-			if (g_mkdir(networksdir, 0700) != 0) {
-				log_global(LOG_ERROR, "Can't create networks directory '%s': %s", networksdir, strerror(errno));
-				return;
-			}
-		}
 
+		if (n->implicit)
+			continue;
 
-		if (!n->implicit && !config_save_network(cfg, networksdir, n, &channel_keys))
-			saved = FALSE;
-	}
+		for (gl1 = n->channels; gl1; gl1 = gl1->next) {
+			struct channel_config *c = gl1->data;
+			struct keyfile_entry *key;
+
+			if (c->key == NULL)
+				continue;
 
-	/* Keep the old files when there are no new ones */
-	if (saved)
-		config_cleanup_networks_dir(cfg, networksdir);
+			key = g_new0(struct keyfile_entry, 1);
+			key->network = n->name;
+			key->nick = c->name;
+			key->pass = c->key;
+
+			channel_keys = g_list_append(channel_keys, key);
+		}
+	}
 
-	filename = g_build_filename(config_dir, "keys", NULL);
 	if (channel_keys != NULL) {
-		keyfile_write_file(channel_keys, CHANNEL_KEY_FILE_HEADER, filename);
+		saved = keyfile_write_file(channel_keys, CHANNEL_KEY_FILE_HEADER, filename);
 
 		g_list_foreach(channel_keys, (GFunc)g_free, NULL);
 		g_list_free(channel_keys);
 	} else {
 		g_unlink(filename);
 	}
+
 	g_free(filename);
 
+	return saved;
+}
+
+static gboolean config_save_networks(struct ctrlproxy_config *cfg, const char *config_dir, GList *networks)
+{
+	char *networksdir = g_build_filename(config_dir, "networks", NULL);
+	GList *gl;
+	gboolean saved = TRUE;
+
+	config_remove_server_groups(cfg->keyfile);
+
+	for (gl = networks; gl; gl = gl->next) {
+		struct network_config *n = gl->data;
+		if (n->filename != NULL && !g_file_test(networksdir, G_FILE_TEST_IS_DIR)) {
+			if (g_mkdir(networksdir, 0700) != 0) {
+				log_global(LOG_ERROR, "Can't create networks directory '%s': %s", networksdir, strerror(errno));
+				g_free(networksdir);
+				return FALSE;
+			}
+		}
+
+
+		if (!n->implicit && !config_save_network(cfg, networksdir, n))
+			saved = FALSE;
+	}
+
 	g_free(networksdir);
+
+	return saved;
 }
 
 /**
@@ -659,6 +678,7 @@ void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_
 	char *fn, **list;
 	int i;
 	GList *gl;
+	gboolean saved;
 
 	if (!g_file_test(configuration_dir, G_FILE_TEST_IS_DIR)) {
 		if (g_mkdir(configuration_dir, 0700) != 0) {
@@ -732,7 +752,11 @@ void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_
 		g_key_file_has_key(cfg->keyfile, "global", "report-time-offset", NULL))
 		g_key_file_set_integer(cfg->keyfile, "global", "report-time-offset", cfg->report_time_offset);
 
-	config_save_networks(cfg, configuration_dir, cfg->networks);
+	/* The files of networks may still contain the only copy of a key */
+	if (!config_save_channel_keys(configuration_dir, cfg->networks))
+		return;
+
+	saved = config_save_networks(cfg, configuration_dir, cfg->networks);
 
 	config_save_listeners(cfg, configuration_dir);
 
@@ -759,8 +783,16 @@ void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_
 	g_free(list);
 
 	fn = g_build_filename(configuration_dir, "config", NULL);
-	config_save_file(cfg->keyfile, fn);
+	if (!config_save_file(cfg->keyfile, fn))
+		saved = FALSE;
 	g_free(fn);
+
+	/* Networks may have moved: keep the old files when there are no new ones */
+	if (saved) {
+		fn = g_build_filename(configuration_dir, "networks", NULL);
+		config_cleanup_networks_dir(cfg, fn);
+		g_free(fn);
+	}
 }
 
 static void config_load_channel(struct network_config *n, GKeyFile *kf, const char *name)
-- 
2.43.0


From 1ecb8eaf176f7d58b4c5015dcccb0b242190c2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:20 +0000
Subject: [PATCH 110/138] fix: passwords for NickServ are kept per nick and
 network, and only sent after own nick changes

---
 src/admin.c    | 12 ++++++++++++
 src/nickserv.c | 49 ++++++++++++++++++++++++++-----------------------
 src/settings.c |  4 ++--
 3 files changed, 40 insertions(+), 25 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index b6f52e9..6c80093 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -25,6 +25,7 @@
 #include <sys/un.h>
 #include "admin.h"
 #include "help.h"
+#include "keyfile.h"
 #include "irc.h"
 
 help_t *help;
@@ -402,6 +403,7 @@ static void rename_network_helper(admin_handle h, const char *oldname,
 {
 	struct irc_network *n;
 	struct network_config *nc;
+	GList *gl;
 
 	n = find_network(admin_get_global(h)->networks, oldname);
 
@@ -422,6 +424,16 @@ static void rename_network_helper(admin_handle h, const char *oldname,
 
 	nc = n->private_data;
 
+	/* The passwords for NickServ are kept by name of network */
+	for (gl = admin_get_global(h)->nickserv_nicks; gl; gl = gl->next) {
+		struct keyfile_entry *e = gl->data;
+
+		if (e->network != NULL && !strcasecmp(e->network, n->name)) {
+			g_free(e->network);
+			e->network = g_strdup(newname);
+		}
+	}
+
 	g_free(n->name);
 	n->name = g_strdup(newname);
 	config_rename_network(admin_get_global(h)->config, nc, newname);
diff --git a/src/nickserv.c b/src/nickserv.c
index e5bfd28..8806623 100644
--- a/src/nickserv.c
+++ b/src/nickserv.c
@@ -36,6 +36,8 @@
 const char *nickserv_find_nick(struct irc_network *n, const char *nick)
 {
 	GList *gl;
+	const char *pass = NULL;
+
 	for (gl = n->global->nickserv_nicks; gl; gl = gl->next) {
 		struct keyfile_entry *e = gl->data;
 
@@ -43,15 +45,17 @@ const char *nickserv_find_nick(struct irc_network *n, const char *nick)
 			continue;
 		}
 
-		if (e->network == NULL) {
+		/* Passwords for this network take precedence over those for all */
+		if (e->network != NULL && !strcasecmp(e->network, n->name)) {
 			return e->pass;
 		}
-		if (!strcasecmp(e->network, n->name)) {
-			return e->pass;
+
+		if (e->network == NULL && pass == NULL) {
+			pass = e->pass;
 		}
 	}
 
-	return NULL;
+	return pass;
 }
 
 const char *nickserv_nick(struct irc_network *n)
@@ -93,21 +97,28 @@ static void cache_nickserv_pass(struct irc_network *n, const char *newpass)
 		return;
 	}
 
+	/* Not possible in the file of passwords */
+	if (newpass[0] == '\0' || strchr(newpass, '\t') != NULL) {
+		return;
+	}
+
 	for (gl = n->global->nickserv_nicks; gl; gl = gl->next) {
 		e = gl->data;
 
 		if (e->network && !strcasecmp(e->network, n->name) &&
-			!strcasecmp(e->nick, n->external_state->me.nick)) {
-			break;
-		}
-
-		if (!e->network && !irccmp(n->external_state->info, e->nick, n->external_state->me.nick) &&
-			!strcmp(e->pass, newpass)) {
+			!irccmp(n->info, e->nick, n->external_state->me.nick)) {
 			break;
 		}
 	}
 
 	if (gl == NULL) {
+		const char *pass = nickserv_find_nick(n, n->external_state->me.nick);
+
+		/* Known as the password for all networks */
+		if (pass != NULL && !strcmp(pass, newpass)) {
+			return;
+		}
+
 		e = g_new0(struct keyfile_entry, 1);
 		e->nick = g_strdup(n->external_state->me.nick);
 		e->network = g_strdup(n->name);
@@ -115,6 +126,7 @@ static void cache_nickserv_pass(struct irc_network *n, const char *newpass)
 	}
 
 	if (e->pass == NULL || strcmp(e->pass, newpass) != 0) {
+		g_free(e->pass);
 		e->pass = g_strdup(newpass);
 		network_log(LOG_INFO, n, "Caching NickServ password for nick %s", e->nick);
 	}
@@ -122,25 +134,15 @@ static void cache_nickserv_pass(struct irc_network *n, const char *newpass)
 
 static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum data_direction dir, void *userdata)
 {
-	static char *nickattempt = NULL;
-
 	if (l->argc < 1)
 		return TRUE;
 
 	/* User has changed his/her nick. Check whether this nick needs to be identified */
 	if (dir == FROM_SERVER && !irccmp(n->info, l->args[0], "NICK") &&
-	   l->argc > 1 && nickattempt && !irccmp(n->info, nickattempt, l->args[1])) {
+	   l->argc > 1 && !irccmp(n->info, n->external_state->me.nick, l->args[1])) {
 		nickserv_identify_me(n, l->args[1]);
 	}
 
-	/* Keep track of the last nick that the user tried to take */
-	if (dir == TO_SERVER && !irccmp(n->info, l->args[0], "NICK") && l->argc > 1) {
-		if (nickattempt) {
-			g_free(nickattempt);
-		}
-		nickattempt = g_strdup(l->args[1]);
-	}
-
 	if (dir == TO_SERVER && l->argc > 2 &&
 		(!irccmp(n->info, l->args[0], "PRIVMSG") || !irccmp(n->info, l->args[0], "NOTICE")) &&
 		(!irccmp(n->info, l->args[1], nickserv_nick(n)) &&
@@ -155,8 +157,9 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 	}
 
 	/* If we receive a nick-already-in-use message, ghost the current user */
-	if (dir == FROM_SERVER && atol(l->args[0]) == ERR_NICKNAMEINUSE) {
-		const char *pass = nickattempt?nickserv_find_nick(n, nickattempt):NULL;
+	if (dir == FROM_SERVER && atol(l->args[0]) == ERR_NICKNAMEINUSE && l->argc > 2) {
+		const char *nickattempt = l->args[2];
+		const char *pass = nickserv_find_nick(n, nickattempt);
 		if (pass) {
 			const char *nickserv_n = nickserv_nick(n);
 			char *raw;
diff --git a/src/settings.c b/src/settings.c
index 2c23784..166cece 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -1330,7 +1330,7 @@ void config_rename_network(struct ctrlproxy_config *cfg, struct network_config *
  */
 gboolean config_valid_network_name(const char *name)
 {
-	static const char * const reserved[] = { "global", "auto-away", "log-irssi", "log-custom", NULL };
+	static const char * const reserved[] = { "global", "auto-away", "log-irssi", "log-custom", "*", NULL };
 	int i;
 
 	for (i = 0; reserved[i] != NULL; i++) {
@@ -1340,7 +1340,7 @@ gboolean config_valid_network_name(const char *name)
 
 	return name[0] != '\0' && name[0] != '#' && name[0] != '&' &&
 		name[0] != '.' && name[strlen(name)-1] != '~' &&
-		strpbrk(name, "[]/") == NULL;
+		strpbrk(name, "[]/\t") == NULL;
 }
 
 void config_del_network(struct ctrlproxy_config *cfg, const char *name)
-- 
2.43.0


From d78340253082a049ee80dc926a1b37b55518f1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:43 +0000
Subject: [PATCH 111/138] fix: automatic away respects the user's own away
 status, counts clients right and restores the nick

---
 libirc/state.c   |   1 +
 libirc/state.h   |   2 +
 src/auto_away.c  | 142 +++++++++++++++++++++++++++++++++--------------
 src/gen_config.c |  10 +++-
 src/local.h      |   1 +
 src/main.c       |   3 +-
 6 files changed, 114 insertions(+), 45 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index 478c56f..532c4fb 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1362,6 +1362,7 @@ void free_network_state(struct irc_network_state *state)
 	g_free(state->me.username);
 	g_free(state->me.hostname);
 	g_free(state->me.hostmask);
+	g_free(state->nick_before_away);
 
 	while (state->nicks != NULL)
 	{
diff --git a/libirc/state.h b/libirc/state.h
index 515d5c4..4287826 100644
--- a/libirc/state.h
+++ b/libirc/state.h
@@ -131,6 +131,8 @@ struct irc_network_state
 	struct irc_network_info *info;
 	/** Whether or not the user is currently away. */
 	gboolean is_away;
+	gboolean is_auto_away; /* away on behalf of the proxy rather than the user */
+	char *nick_before_away; /* nick to return to, if it was changed as well */
 };
 
 /* state.c */
diff --git a/src/auto_away.c b/src/auto_away.c
index ba6c10d..133eddd 100644
--- a/src/auto_away.c
+++ b/src/auto_away.c
@@ -17,13 +17,6 @@
 	Foundation, Inc., 675 Mass Ave, Cambridge, MA 02139, USA.
 */
 
-/* TODO This breaks:
- *    * One client connected. User does /AWAY msg.
- *    * Client quits.
- *    * Client rejoins. If client_limit=0, the connection is set as not away
- *      => there should be distinction between auto-away and client-away?
- */
-
 #include "ctrlproxy.h"
 #include "local.h"
 #include <string.h>
@@ -33,30 +26,89 @@
  */
 struct auto_away_data {
 	struct auto_away_config *config;
-	int max_idle_time;
- 	time_t last_message;
+	time_t last_message;
 	guint timeout_id;
 	struct global *global;
+	/* Whether the message being sent is ours rather than a client's */
+	gboolean sending;
 };
 
+static gboolean is_online(struct irc_network *s)
+{
+	return s->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD &&
+		s->external_state != NULL;
+}
+
+static void send_args(struct auto_away_data *d, struct irc_network *s,
+					  const char *command, const char *arg)
+{
+	d->sending = TRUE;
+	network_send_args(s, command, arg, NULL);
+	d->sending = FALSE;
+}
+
+/**
+ * Set the user away on a network, unless she is away already.
+ */
+static void set_away(struct auto_away_data *d, struct irc_network *s)
+{
+	struct irc_network_state *state = s->external_state;
+
+	if (!d->config->enabled || !is_online(s) || state->is_away ||
+		state->is_auto_away)
+		return;
+
+	state->is_auto_away = TRUE;
+	send_args(d, s, "AWAY",
+			  d->config->message != NULL?d->config->message:"Auto Away");
+
+	if (d->config->nick != NULL && strcmp(d->config->nick, state->me.nick) != 0) {
+		g_free(state->nick_before_away);
+		state->nick_before_away = g_strdup(state->me.nick);
+		send_args(d, s, "NICK", d->config->nick);
+	}
+}
+
+/**
+ * Change the nick back, if it was changed.
+ */
+static void restore_nick(struct auto_away_data *d, struct irc_network *s)
+{
+	char *nick = s->external_state->nick_before_away;
+
+	s->external_state->nick_before_away = NULL;
+	if (nick != NULL && d->config->nick != NULL &&
+		!irccmp(s->info, s->external_state->me.nick, d->config->nick))
+		send_args(d, s, "NICK", nick);
+	g_free(nick);
+}
+
+/**
+ * Set the user back on a network, if it was not she who set herself away.
+ */
+static void set_back(struct auto_away_data *d, struct irc_network *s)
+{
+	if (!is_online(s) || !s->external_state->is_auto_away)
+		return;
+
+	s->external_state->is_auto_away = FALSE;
+	send_args(d, s, "AWAY", NULL);
+	restore_nick(d, s);
+}
+
 static gboolean check_time(gpointer user_data)
 {
 	struct auto_away_data *d = (struct auto_away_data *)user_data;
+	int max_idle_time = d->config->max_idle_time != -1?d->config->max_idle_time:AUTO_AWAY_DEFAULT_TIME;
 
-	if (time(NULL) - d->last_message > d->max_idle_time) {
+	if (max_idle_time >= AUTO_AWAY_MIN_TIME &&
+		time(NULL) - d->last_message > max_idle_time) {
 		GList *sl;
 		for (sl = d->global->networks; sl; sl = sl->next) {
 			struct irc_network *s = (struct irc_network *)sl->data;
-			if (s->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD &&
-				s->external_state != NULL && !s->external_state->is_away &&
-			    (d->config->client_limit < 0 || g_list_length(s->clients) <= d->config->client_limit)) {
-				network_send_args(s, "AWAY",
-								  d->config->message != NULL?d->config->message:"Auto Away",
-								  NULL);
-				if (d->config->nick != NULL) {
-					network_send_args(s, "NICK", d->config->nick, NULL);
-				}
-			}
+			if (d->config->client_limit < 0 ||
+				(int)g_list_length(s->clients) <= d->config->client_limit)
+				set_away(d, s);
 		}
 	}
 
@@ -69,20 +121,24 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l,
 	struct auto_away_data *d = userdata;
 	GList *sl;
 
-	if (dir == TO_SERVER && !base_strcmp(l->args[0], "AWAY")) {
+	/* Without clients it is the proxy that answers requests */
+	if (dir != TO_SERVER || d->sending || n->clients == NULL)
+		return TRUE;
+
+	if (!base_strcmp(l->args[0], "AWAY")) {
 		d->last_message = time(NULL);
+		/* The user decides from now on */
+		if (is_online(n) && n->external_state->is_auto_away) {
+			n->external_state->is_auto_away = FALSE;
+			restore_nick(d, n);
+		}
 	}
 
-	if (dir == TO_SERVER &&
-	   (!base_strcmp(l->args[0], "PRIVMSG") ||
-		!base_strcmp(l->args[0], "NOTICE"))) {
+	if (!base_strcmp(l->args[0], "PRIVMSG") ||
+		!base_strcmp(l->args[0], "NOTICE")) {
 		d->last_message = time(NULL);
-		for (sl = d->global->networks; sl; sl = sl->next) {
-			struct irc_network *s = (struct irc_network *)sl->data;
-			if (s->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD &&
-				s->external_state != NULL && s->external_state->is_away)
-				network_send_args(s, "AWAY", NULL);
-		}
+		for (sl = d->global->networks; sl; sl = sl->next)
+			set_back(d, (struct irc_network *)sl->data);
 	}
 	return TRUE;
 }
@@ -91,8 +147,9 @@ static gboolean new_client(struct irc_client *c, void *userdata)
 {
 	struct auto_away_data *d = userdata;
 
-	if (d->config->client_limit >= 0 && d->config->client_limit < g_list_length(c->network->clients)+1)
-		network_send_args(c->network, "AWAY", NULL);
+	if (d->config->client_limit >= 0 &&
+		d->config->client_limit < (int)g_list_length(c->network->clients))
+		set_back(d, c->network);
 
 	return TRUE;
 }
@@ -101,10 +158,14 @@ static void lose_client(struct irc_client *c, void *userdata)
 {
 	struct auto_away_data *d = userdata;
 
-	if (d->config->client_limit >= 0 && d->config->client_limit >= g_list_length(c->network->clients))
-		network_send_args(c->network, "AWAY",
-								  d->config->message != NULL?d->config->message:"Auto Away",
-								  NULL);
+	/* Only those that finished logging in count, and this one is still 
+	 * there */
+	if (c->network == NULL || g_list_find(c->network->clients, c) == NULL)
+		return;
+
+	if (d->config->client_limit >= 0 &&
+		d->config->client_limit >= (int)g_list_length(c->network->clients)-1)
+		set_away(d, c->network);
 }
 
 void auto_away_add(struct global *global, struct auto_away_config *config)
@@ -113,12 +174,11 @@ void auto_away_add(struct global *global, struct auto_away_config *config)
 
 	d->config = config;
 	d->last_message = time(NULL);
-	d->max_idle_time = config->max_idle_time != -1?config->max_idle_time:AUTO_AWAY_DEFAULT_TIME;
 	d->global = global;
-	if (d->max_idle_time >= 30)
-		d->timeout_id = g_timeout_add(1000, check_time, d);
-	else
-		log_global(LOG_WARNING, "Ignoring auto-away time %d because it is too low", d->max_idle_time);
+	if (config->enabled && config->max_idle_time != -1 &&
+		config->max_idle_time < AUTO_AWAY_MIN_TIME)
+		log_global(LOG_WARNING, "Ignoring auto-away time %d because it is too low", config->max_idle_time);
+	d->timeout_id = g_timeout_add(1000, check_time, d);
 	add_new_client_hook("auto-away", new_client, d);
 	add_lose_client_hook("auto-away", lose_client, d);
 	add_server_filter("auto-away", log_data, d, -1);
diff --git a/src/gen_config.c b/src/gen_config.c
index 8235bdb..e23346b 100644
--- a/src/gen_config.c
+++ b/src/gen_config.c
@@ -43,14 +43,20 @@ void network_update_config(struct irc_network_state *ns, struct network_config *
 						   struct ctrlproxy_config *cfg)
 {
 	GList *gl;
+	const char *nick;
 
 	if (ns == NULL)
 		return;
 	
 	/* nick */
-	if (cfg->default_nick == NULL || nc->nick != NULL || strcmp(cfg->default_nick, ns->me.nick) != 0) {
+	nick = ns->me.nick;
+	/* The one used while away is not the one to start with */
+	if (ns->nick_before_away != NULL && cfg->auto_away.nick != NULL &&
+		irccmp(ns->info, nick, cfg->auto_away.nick) == 0)
+		nick = ns->nick_before_away;
+	if (cfg->default_nick == NULL || nc->nick != NULL || strcmp(cfg->default_nick, nick) != 0) {
 		g_free(nc->nick);
-		nc->nick = g_strdup(ns->me.nick);
+		nc->nick = g_strdup(nick);
 	}
 
 	for (gl = nc->channels; gl; gl = gl->next) {
diff --git a/src/local.h b/src/local.h
index 50c832b..64c13f4 100644
--- a/src/local.h
+++ b/src/local.h
@@ -35,5 +35,6 @@
 /* Standard auto-away time if auto-away is enabled but
  * no time was specified. In seconds. */
 #define AUTO_AWAY_DEFAULT_TIME (10 * 60)
+#define AUTO_AWAY_MIN_TIME 30
 
 #endif /* _CTRLPROXY_LOCAL_H_ */
diff --git a/src/main.c b/src/main.c
index 3073cd2..5032525 100644
--- a/src/main.c
+++ b/src/main.c
@@ -380,8 +380,7 @@ int main(int argc, char **argv)
 				   "Failed to start one or more listeners, exiting...");
 		return 1;
 	}
-	if (my_global->config->auto_away.enabled)
-		auto_away_add(my_global, &my_global->config->auto_away);
+	auto_away_add(my_global, &my_global->config->auto_away);
 	g_option_context_free(pc);
 
 	atexit(clean_exit);
-- 
2.43.0


From 57d2e5dd390f4c6f0cb21fa905d984241ab6b24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:28 +0000
Subject: [PATCH 112/138] fix: replies to CTCP requests go to the client that
 asked, PING and FINGER are answered in full

---
 src/client.c        |   2 +
 src/ctcp.c          |  26 +++++++-
 src/ctcp.h          |   1 +
 src/ctcp_redirect.c | 151 ++++++++++++++++++++++++++++++++------------
 src/network.c       |   9 +--
 5 files changed, 141 insertions(+), 48 deletions(-)

diff --git a/src/client.c b/src/client.c
index 337046f..cb3bb78 100644
--- a/src/client.c
+++ b/src/client.c
@@ -325,6 +325,8 @@ static void handle_client_disconnect(struct irc_client *c)
 		d->hook(c, d->userdata);
 	}
 
+	ctcp_client_forget(c);
+
 	if (c->network != NULL) {
 		c->network->clients = g_list_remove(c->network->clients, c);
 	}
diff --git a/src/ctcp.c b/src/ctcp.c
index e67f05e..a9a0d9e 100644
--- a/src/ctcp.c
+++ b/src/ctcp.c
@@ -96,7 +96,17 @@ static void handle_time(struct ctcp_handle *h, const char **args)
 
 static void handle_finger(struct ctcp_handle *h, const char **args)
 {
-	ctcp_reply(h, "FINGER", h->network->external_state->me.fullname, NULL);
+	struct irc_login_details *details;
+
+	if (h->network->external_state->me.fullname != NULL) {
+		ctcp_reply(h, "FINGER", h->network->external_state->me.fullname, NULL);
+		return;
+	}
+
+	/* The server never told what it is, so use what it was told */
+	details = h->network->callbacks->get_login_details(h->network);
+	ctcp_reply(h, "FINGER", details->realname, NULL);
+	free_login_details(details);
 }
 
 static void handle_source(struct ctcp_handle *h, const char **args)
@@ -122,7 +132,13 @@ static void handle_version(struct ctcp_handle *h, const char **args)
 
 static void handle_ping(struct ctcp_handle *h, const char **args)
 {
-	ctcp_reply(h, "PING", args[1], NULL);
+	if (args[1] != NULL) {
+		char *msg = g_strjoinv(" ", (char **)args+1);
+		ctcp_reply(h, "PING", msg, NULL);
+		g_free(msg);
+	} else {
+		ctcp_reply(h, "PING", NULL);
+	}
 }
 
 static void handle_clientinfo(struct ctcp_handle *h, const char **args);
@@ -189,6 +205,12 @@ gboolean ctcp_process_request (struct irc_network *n, const struct irc_line *l)
 	h.network = n;
 	h.nick = line_get_nick(l);
 
+	if (h.nick[0] == '\0') {
+		network_log(LOG_WARNING, n, "Ignoring CTCP request without nick");
+		g_free(h.nick);
+		return FALSE;
+	}
+
 	data = g_strdup(l->args[2]+1);
 	t = strchr(data, '\001');
 	if (!t) {
diff --git a/src/ctcp.h b/src/ctcp.h
index 7113c43..1283ad5 100644
--- a/src/ctcp.h
+++ b/src/ctcp.h
@@ -36,6 +36,7 @@ struct ctcp_handler {
 
 gboolean ctcp_network_redirect_response(struct irc_network *, const struct irc_line *);
 gboolean ctcp_client_request_record(struct irc_client *, struct irc_line *);
+void ctcp_client_forget(struct irc_client *);
 gboolean ctcp_process_request(struct irc_network *, const struct irc_line *);
 G_MODULE_EXPORT void ctcp_register_handler(const struct ctcp_handler *);
 G_MODULE_EXPORT G_GNUC_NULL_TERMINATED void ctcp_send(struct irc_network *, const char *, ...);
diff --git a/src/ctcp_redirect.c b/src/ctcp_redirect.c
index a44622e..5b684c8 100644
--- a/src/ctcp_redirect.c
+++ b/src/ctcp_redirect.c
@@ -19,28 +19,21 @@
 
 #include "internals.h"
 
+/* Requests that were not answered are forgotten after this time (in seconds) */
+#define CTCP_REQUEST_EXPIRE_TIME 300
+
 char *get_ctcp_command(const char *data)
 {
-	char *tmp;
-	char *p;
+	size_t len;
 	g_assert(data[0] == '\001');
 
-	tmp = g_strdup(data+1);
-
-	p = strchr(tmp, ' ');
-	if (p) {
-		*p = '\0';
-		return tmp;
-	}
+	data++;
+	len = strcspn(data, " \001");
 
-	p = strrchr(tmp, '\001');
-	if (p) {
-		*p = '\0';
-		return tmp;
-	}
+	if (data[len] == '\0')
+		return NULL;
 
-	g_free(tmp);
-	return NULL;
+	return g_strndup(data, len);
 }
 
 /**
@@ -48,42 +41,106 @@ char *get_ctcp_command(const char *data)
  */
 struct ctcp_request {
 	struct irc_client *client;
+	/* NULL if anybody on a channel may answer */
 	char *destination;
 	char *command;
+	/* the whole request; some replies repeat it */
+	char *text;
+	time_t time;
 };
 
 static GList *ctcp_request_queue = NULL;
 
+static void ctcp_request_free(struct ctcp_request *req)
+{
+	ctcp_request_queue = g_list_remove(ctcp_request_queue, req);
+	g_free(req->command);
+	g_free(req->text);
+	g_free(req->destination);
+	g_free(req);
+}
+
+static void ctcp_requests_expire(void)
+{
+	GList *gl, *next;
+	time_t now = time(NULL);
+
+	for (gl = ctcp_request_queue; gl; gl = next) {
+		struct ctcp_request *req = gl->data;
+		next = gl->next;
+		if (now - req->time > CTCP_REQUEST_EXPIRE_TIME)
+			ctcp_request_free(req);
+	}
+}
+
+/**
+ * Forget the requests of a client that goes away.
+ *
+ * @param c Client
+ */
+void ctcp_client_forget(struct irc_client *c)
+{
+	GList *gl, *next;
+
+	for (gl = ctcp_request_queue; gl; gl = next) {
+		struct ctcp_request *req = gl->data;
+		next = gl->next;
+		if (req->client == c)
+			ctcp_request_free(req);
+	}
+}
+
 gboolean ctcp_client_request_record (struct irc_client *c, struct irc_line *l)
 {
-	struct ctcp_request *req;
 	char *command = get_ctcp_command(l->args[2]);
+	char **targets;
+	int i;
 
 	if (command == NULL) {
 		client_log(LOG_WARNING, c, "Received malformed CTCP request");
 		return FALSE;
 	}
 
-	req = g_new0(struct ctcp_request, 1);
+	ctcp_requests_expire();
 
 	/* store client and command in table */
-	req->client = c;
-	if (!is_channelname(l->args[1], c->network->info))
-		req->destination = g_strdup(l->args[1]);
-	req->command = command;
+	targets = g_strsplit(l->args[1], ",", 0);
+	for (i = 0; targets[i] != NULL; i++) {
+		struct ctcp_request *req = g_new0(struct ctcp_request, 1);
+
+		req->client = c;
+		if (!is_channelname(targets[i], c->network->info) &&
+			!is_prefix(targets[i][0], c->network->info))
+			req->destination = g_strdup(targets[i]);
+		req->command = g_strdup(command);
+		req->text = g_strdup(l->args[2]);
+		req->time = time(NULL);
 
-	client_log(LOG_TRACE, c, "Tracking CTCP request '%s' to %s", req->command, req->destination);
+		client_log(LOG_TRACE, c, "Tracking CTCP request '%s' to %s", req->command, targets[i]);
 
-	ctcp_request_queue = g_list_append(ctcp_request_queue, req);
+		ctcp_request_queue = g_list_append(ctcp_request_queue, req);
+	}
+	g_strfreev(targets);
+	g_free(command);
 
 	return TRUE;
 }
 
+/**
+ * Send the reply to a CTCP request to the client that sent the request.
+ *
+ * @param n Network the reply was received from
+ * @param l Reply
+ * @return whether the client was found
+ */
 gboolean ctcp_network_redirect_response(struct irc_network *n, const struct irc_line *l)
 {
 	GList *gl;
 	char *nick;
 	char *command;
+	struct ctcp_request *found = NULL;
+	int found_score = 0;
+	gboolean ret;
 
 	if (l->origin == NULL) {
 		network_log(LOG_WARNING, n, "Ignoring CTCP reply without origin");
@@ -95,42 +152,52 @@ gboolean ctcp_network_redirect_response(struct irc_network *n, const struct irc_
 	nick = line_get_nick(l);
 
 	if (command == NULL) {
-		network_log(LOG_WARNING, n, "Received malformed CTCP request from `%s'", nick);
+		network_log(LOG_WARNING, n, "Received malformed CTCP reply from `%s'", nick);
 		g_free(nick);
 		return FALSE;
 	}
 
+	ctcp_requests_expire();
 
-	/* look in table */
-	/* if found send to specified client, remove entry from table */
+	/* look in table for the oldest request this answers best */
 	for (gl = ctcp_request_queue; gl; gl = gl->next) {
 		struct ctcp_request *req = gl->data;
+		int score = 1;
 
 		if (req->client->network != n)
 			continue;
 
-		if (req->destination && strcmp(req->destination, nick) != 0)
+		if (g_ascii_strcasecmp(req->command, command) != 0)
 			continue;
 
-		if (strcmp(req->command, command) != 0)
-			continue;
+		if (req->destination != NULL) {
+			if (irccmp(n->info, req->destination, nick) != 0)
+				continue;
+			score += 1;
+		}
 
-		client_send_line(req->client, l, NULL);
+		if (strcmp(req->text, l->args[2]) == 0)
+			score += 2;
 
-		g_free(req->command);
-		g_free(req->destination);
-		ctcp_request_queue = g_list_remove(ctcp_request_queue, req);
-		g_free(req);
-		g_free(nick);
-		g_free(command);
-
-		return TRUE;
+		if (score > found_score) {
+			found = req;
+			found_score = score;
+		}
 	}
 
-	/* otherwise, inform user */
-	network_log(LOG_WARNING, n, "Don't know where to send unknown CTCP reply '%s'", command);
+	/* if found send to specified client, remove entry from table,
+	 * unless others on the channel may still reply */
+	ret = (found != NULL);
+	if (found != NULL) {
+		client_send_line(found->client, l, NULL);
+		if (found->destination != NULL)
+			ctcp_request_free(found);
+	} else {
+		network_log(LOG_TRACE, n, "Don't know where to send unknown CTCP reply '%s'", command);
+	}
 
+	g_free(nick);
 	g_free(command);
 
-	return TRUE;
+	return ret;
 }
diff --git a/src/network.c b/src/network.c
index c4d6751..0df0d06 100644
--- a/src/network.c
+++ b/src/network.c
@@ -322,12 +322,13 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 					l->args[2][0] == '\001' &&
 					base_strncmp(l->args[2], "\001ACTION", 7) != 0) {
 					network_process_ctcp_request(n, l);
-				} else if (!base_strcmp(l->args[0], "NOTICE") && l->argc > 2 &&
-					l->args[2][0] == '\001') {
-					ctcp_network_redirect_response(n, l);
 				}
 			} else if (run_server_filter(n, l, FROM_SERVER)) {
-				if (!strcmp(l->args[0], "PRIVMSG") &&
+				if (!base_strcmp(l->args[0], "NOTICE") && l->argc > 2 &&
+					l->args[2][0] == '\001' &&
+					ctcp_network_redirect_response(n, l)) {
+					/* Only the client that asked gets the reply */
+				} else if (!strcmp(l->args[0], "PRIVMSG") &&
 					n->global->config->report_time == REPORT_TIME_ALWAYS) {
 					struct irc_line *nl = linedup(l);
 					line_prefix_time(nl, time(NULL)+n->global->config->report_time_offset);
-- 
2.43.0


From d1cc23ae4c654bb617aa0cb99901d4ac6cf17a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:34 +0000
Subject: [PATCH 113/138] fix: log files stay in their directory, get each
 event once with its text and survive errors, many names and long modes

---
 src/log_custom.c  | 34 +++-------------------------------
 src/log_subst.c   | 34 +++++++++++++++++++++++++++-------
 src/log_support.c | 25 ++++++++++++++-----------
 src/settings.c    |  2 +-
 4 files changed, 45 insertions(+), 50 deletions(-)

diff --git a/src/log_custom.c b/src/log_custom.c
index 5cb7e8a..017c0d5 100644
--- a/src/log_custom.c
+++ b/src/log_custom.c
@@ -172,7 +172,7 @@ static void file_write_channel_query(struct log_custom_data *data,
 
 	nn = find_network_nick(network->external_state, nick);
 	if (nn == NULL) {
-		network_log(LOG_WARNING, network,
+		network_log(LOG_TRACE, network,
 			    "Unable to find query with %s", nick);
 		g_free(nick);
 		return;
@@ -247,38 +247,10 @@ static gboolean log_custom_data(struct irc_network *network,
 		file_write_channel_query(data, network, data->config->quit, l);
 	} else if (!base_strcmp(l->args[0], "KICK") && l->args[1] != NULL &&
 			   l->args[2] != NULL && dir == FROM_SERVER) {
-		if (strchr(l->args[1], ',') == NULL) {
-			file_write_channel_only(data, network, data->config->kick, l);
-		} else {
-			char *channels = g_strdup(l->args[1]);
-			char *nicks = g_strdup(l->args[1]);
-			char *p,*n; gboolean cont = TRUE;
-			char *_nick;
-
-			p = channels;
-			_nick = nicks;
-			while (cont) {
-				n = strchr(p, ',');
-
-				if (n == NULL)
-					cont = FALSE;
-				else
-					*n = '\0';
-
-				file_write_channel_only(data, network, data->config->kick, l);
-
-				p = n+1;
-				_nick = strchr(_nick, ',');
-				if (!_nick)break;
-				_nick++;
-			}
-
-			g_free(channels);
-			g_free(nicks);
-		}
+		file_write_channel_only(data, network, data->config->kick, l);
 	} else if (!base_strcmp(l->args[0], "TOPIC") && dir == FROM_SERVER &&
 		l->args[1] != NULL) {
-		if (l->args[2] != NULL) {
+		if (l->args[2] != NULL && l->args[2][0] != '\0') {
 			file_write_channel_only(data, network, data->config->topic, l);
 		} else {
 			file_write_channel_only(data, network, data->config->notopic, l);
diff --git a/src/log_subst.c b/src/log_subst.c
index 154b65e..b5c9972 100644
--- a/src/log_subst.c
+++ b/src/log_subst.c
@@ -95,6 +95,9 @@ static char *get_user(struct subst_context *subst_ctx, const struct irc_line *li
 			user++;
 	}
 
+	if (user == NULL)
+		return g_strdup("");
+
 	if (case_sensitive)
 		return g_ascii_strdown(user, -1);
 	else
@@ -131,7 +134,10 @@ static char *get_network(struct subst_context *subst_ctx, const struct irc_line
 
 static char *get_server(struct subst_context *subst_ctx, const struct irc_line *line, gboolean case_sensitive)
 {
-	if (subst_ctx->network->connection.data.tcp.current_server)
+	struct network_config *nc = subst_ctx->network->private_data;
+
+	if (nc->type == NETWORK_TCP &&
+		subst_ctx->network->connection.data.tcp.current_server)
 		return g_strdup(subst_ctx->network->connection.data.tcp.current_server->host);
 	return g_strdup("");
 }
@@ -149,15 +155,18 @@ static char *get_identifier(struct subst_context *subst_ctx, const struct irc_li
 
 static char *get_modechanges(struct subst_context *subst_ctx, const struct irc_line *line, gboolean case_sensitive)
 {
-	char buf[512] = "";
+	GString *buf = g_string_new(NULL);
 	int i;
 
 	for (i = 3 ; i < line->argc && line->args[i] != NULL; i++) {
-		if (i > 3) strncat(buf, " ", sizeof(buf)-1);
-		strncat(buf, line->args[i], sizeof(buf)-1);
+		if (i > 3) g_string_append_c(buf, ' ');
+		g_string_append(buf, line->args[i]);
 	}
 
-	return g_strdup(buf);
+	if (case_sensitive)
+		g_string_ascii_down(buf);
+
+	return g_string_free(buf, FALSE);
 }
 
 static struct log_mapping mappings[] = {
@@ -222,7 +231,7 @@ static char *find_mapping(struct subst_context *subst_ctx,
 {
 	int i;
 	for (i = 0; mappings[i].subst; i++) {
-		if (mappings[i].command && strcmp(mappings[i].command, l->args[0]))
+		if (mappings[i].command && base_strcmp(mappings[i].command, l->args[0]))
 			continue;
 
 		if (mappings[i].subst != c)
@@ -243,6 +252,10 @@ static char *find_mapping(struct subst_context *subst_ctx,
 
 void convertslashes(char *a)
 {
+	/* Never the current or the parent directory, nor a hidden file */
+	if (*a == '.')
+		*a = '_';
+
 	while (*a) {
 		if (*a == '/')
 			*a = '_';
@@ -283,7 +296,14 @@ char *custom_subst(struct irc_network *network,
 												case_sensitive);	
 			if (subst[i] == NULL)
 				subst[i] = g_strdup("");
-			if (noslash) convertslashes(subst[i]);
+			if (noslash) {
+				convertslashes(subst[i]);
+				/* Don't turn a relative path into an absolute one */
+				if (i == 0 && subst[i][0] == '\0') {
+					g_free(subst[i]);
+					subst[i] = g_strdup("_");
+				}
+			}
 			exp_len += strlen(subst[i]);
 		}
 	}
diff --git a/src/log_support.c b/src/log_support.c
index 0956505..219626a 100644
--- a/src/log_support.c
+++ b/src/log_support.c
@@ -90,21 +90,20 @@ gboolean log_support_write(struct log_support_context *ctx,
 {
 	struct log_file_info *fi;
 
-	if (ctx->num_opened > MAX_OPEN_LOGFILES)
-		log_support_cleanup(ctx);
-	
 	/* First, check if the file is still present in the hash table */
 	fi = g_hash_table_lookup(ctx->files, path);
 
 	if (fi == NULL) {
-		fi = g_new0(struct log_file_info, 1);
-		g_assert(fi != NULL);
-		g_hash_table_insert(ctx->files, g_strdup(path), fi);
-	}
-
-	if (fi->file == NULL) {
+		FILE *file;
 		char *dirpath;
 
+		if (ctx->num_opened >= MAX_OPEN_LOGFILES)
+			log_support_cleanup(ctx);
+
+		/* All of them are used at the moment */
+		if (ctx->num_opened >= MAX_OPEN_LOGFILES)
+			log_support_reopen(ctx);
+
 		dirpath = g_path_get_dirname(path);
 		if (g_mkdir_with_parents(dirpath, 0700) == -1) {
 			log_global(LOG_ERROR, "Unable to create directory `%s'!", dirpath);
@@ -114,12 +113,15 @@ gboolean log_support_write(struct log_support_context *ctx,
 		g_free(dirpath);
 
 		/* Then open the correct filename */
-		fi->file = fopen(path, "a+");
-		if (fi->file == NULL) {
+		file = fopen(path, "a+");
+		if (file == NULL) {
 			log_global(LOG_ERROR, "Couldn't open file %s for logging!", path);
 			return FALSE;
 		}
 
+		fi = g_new0(struct log_file_info, 1);
+		fi->file = file;
+		g_hash_table_insert(ctx->files, g_strdup(path), fi);
 		ctx->num_opened++;
 	}
 
@@ -139,5 +141,6 @@ void log_support_writef(struct log_support_context *ctx,
 	va_start(ap, fmt);
 	ret = g_strdup_vprintf(fmt, ap);
 	log_support_write(ctx, path, ret);
+	g_free(ret);
 	va_end(ap);
 }
diff --git a/src/settings.c b/src/settings.c
index 166cece..c3e7b0e 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -1534,7 +1534,7 @@ static void config_load_log(struct ctrlproxy_config *config)
 		data->action = "%h:%M  * %n %m";
 		data->mode = "%h:%M -!- mode/%t [%p %c] by %n";
 		data->quit = "%h:%M -!- %n [%u] has quit [%m]";
-		data->kick = "%h:%M -!- %t has been kicked by %n [%m]";
+		data->kick = "%h:%M -!- %t has been kicked by %n [%r]";
 		data->topic = "%h:%M -!- %n has changed the topic to %t";
 		data->notopic = "%h:%M -!- %n has removed the topic";
 		data->nickchange = "%h:%M -!- %n is now known as %r";
-- 
2.43.0


From dfe27fa410f180bfabc39eb4324f6acd1c309d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:06 +0000
Subject: [PATCH 114/138] fix: administration commands validate the character
 set, keep listeners in step with networks, know their client on the
 administration network; all commands of a socket are run

---
 src/admin.c   | 55 ++++++++++++++++++++++++++++++++++++++++++++++++---
 src/network.c |  2 +-
 2 files changed, 53 insertions(+), 4 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index 6c80093..0ec3e95 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -434,6 +434,16 @@ static void rename_network_helper(admin_handle h, const char *oldname,
 		}
 	}
 
+	/* So are the networks of listeners */
+	for (gl = admin_get_global(h)->config->listeners; gl; gl = gl->next) {
+		struct listener_config *l = gl->data;
+
+		if (l->network != NULL && !strcasecmp(l->network, n->name)) {
+			g_free(l->network);
+			l->network = g_strdup(newname);
+		}
+	}
+
 	g_free(n->name);
 	n->name = g_strdup(newname);
 	config_rename_network(admin_get_global(h)->config, nc, newname);
@@ -443,6 +453,8 @@ static void del_network_helper(admin_handle h, const char *name)
 {
 	struct irc_network *n = find_network(admin_get_global(h)->networks, name);
 	struct network_config *nc;
+	GList *gl;
+
 	if (n == NULL) {
 		admin_out(h, "No such network `%s'", name);
 		return;
@@ -454,6 +466,16 @@ static void del_network_helper(admin_handle h, const char *name)
 
 	config_del_network(admin_get_global(h)->config, nc->name);
 
+	/* Nobody can be sent there any more */
+	for (gl = admin_get_global(h)->listeners; gl; gl = gl->next) {
+		struct irc_listener *l = gl->data;
+
+		if (l->network == n) {
+			irc_network_unref(l->network);
+			l->network = NULL;
+		}
+	}
+
 	unload_network(n);
 
 	admin_out(h, "Network `%s' deleted", name);
@@ -1184,7 +1206,7 @@ static void cmd_stop_listener(admin_handle h, const char * const *args, void *us
 			continue;
 		}
 
-		if (l->config->port == NULL || strcmp(p, l->config->port) != 0) {
+		if (strcmp(p, l->config->port?l->config->port:DEFAULT_IRC_PORT) != 0) {
 			continue;
 		}
 
@@ -1681,6 +1703,22 @@ static gboolean default_client_charset_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
+	if (value != NULL) {
+		GIConv conv = (GIConv)-1;
+
+		if (*value != '\0') {
+			conv = g_iconv_open(value, "UTF-8");
+		}
+
+		if (conv == (GIConv)-1) {
+			admin_out(h, "Unknown character set `%s'", value);
+			return FALSE;
+		}
+
+		g_iconv_close(conv);
+	}
+
+	g_free(g->config->client_charset);
 	g->config->client_charset = g_strdup(value);
 
 	return TRUE;
@@ -1948,8 +1986,15 @@ static gboolean handle_client_data(GIOChannel *channel,
 	ah.send_fn = iochannel_admin_out;
 
 	if (condition & G_IO_IN) {
-		status = g_io_channel_read_line(channel, &raw, NULL, &eol, &error);
-		if (status == G_IO_STATUS_NORMAL) {
+		/* There may be more than one command, also when the other side has
+		 * been closed already */
+		while ((status = g_io_channel_read_line(channel, &raw, NULL, &eol,
+												&error)) == G_IO_STATUS_NORMAL) {
+			if (raw[eol] == '\0') {
+				/* Unfinished command before the end */
+				g_free(raw);
+				continue;
+			}
 			raw[eol] = '\0';
 			process_cmd(&ah, raw);
 			g_free(raw);
@@ -1958,6 +2003,10 @@ static gboolean handle_client_data(GIOChannel *channel,
 		if (error != NULL) {
 			g_error_free(error);
 		}
+
+		if (status != G_IO_STATUS_AGAIN) {
+			return FALSE;
+		}
 	}
 
 	if (condition & G_IO_HUP) {
diff --git a/src/network.c b/src/network.c
index 0df0d06..09e2f45 100644
--- a/src/network.c
+++ b/src/network.c
@@ -704,7 +704,7 @@ gboolean network_forward_line(struct irc_network *s, struct irc_client *c,
 		}
 	}
 
-	return network_send_line(s, NULL, l);
+	return network_send_line(s, c, l);
 }
 
 #define LINESTACK_README_CONTENTS  \
-- 
2.43.0


From fe41d5a081007e7440a283e9b018c60aafc45069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:20 +0000
Subject: [PATCH 115/138] fix: ctrlproxyd: user names can not point outside of
 configdir

---
 daemon/user.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/daemon/user.c b/daemon/user.c
index 93d6476..92f2abd 100644
--- a/daemon/user.c
+++ b/daemon/user.c
@@ -23,6 +23,7 @@
 #include "internals.h"
 #include "daemon/user.h"
 #include <pwd.h>
+#include <string.h>
 #include "daemon/daemon.h"
 
 gboolean daemon_user_exists(struct daemon_user *user)
@@ -57,6 +58,15 @@ struct daemon_user *get_daemon_user(struct ctrlproxyd_config *config, const char
 	user->child_watch = -1;
 
 	if (config->configdir != NULL) {
+		/* The user may not choose anything but a directory in configdir */
+		if (username[0] == '\0' || !strcmp(username, ".") ||
+			!strcmp(username, "..") ||
+			strchr(username, G_DIR_SEPARATOR) != NULL) {
+			g_free(user->username);
+			g_free(user);
+			return NULL;
+		}
+
 		user->configdir = g_build_filename(config->configdir, username, NULL);
 		user->uid = -1;
 	} else {
-- 
2.43.0


From 287527b86254596c62ff65fcc8c2e10129d1bf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:20 +0000
Subject: [PATCH 116/138] fix: ctrlproxyd: set the groups of system users,
 change nothing for others

---
 daemon/user.c | 14 ++++++++++++++
 daemon/user.h |  1 +
 2 files changed, 15 insertions(+)

diff --git a/daemon/user.c b/daemon/user.c
index 92f2abd..bec4b2d 100644
--- a/daemon/user.c
+++ b/daemon/user.c
@@ -22,6 +22,7 @@
 #endif
 #include "internals.h"
 #include "daemon/user.h"
+#include <grp.h>
 #include <pwd.h>
 #include <string.h>
 #include "daemon/daemon.h"
@@ -80,6 +81,7 @@ struct daemon_user *get_daemon_user(struct ctrlproxyd_config *config, const char
 
 		user->configdir = g_build_filename(pwd->pw_dir, ".ctrlproxy", NULL);
 		user->uid = pwd->pw_uid;
+		user->gid = pwd->pw_gid;
 	}
 
 	user->socketpath = g_build_filename(user->configdir, "socket", NULL);
@@ -95,6 +97,18 @@ struct spawn_data {
 static void user_setup(gpointer user_data)
 {
 	struct spawn_data *data = user_data;
+
+	/* Not a system user */
+	if (data->user->uid == (uid_t)-1)
+		return;
+
+	if (initgroups(data->user->username, data->user->gid) < 0 ||
+		setgid(data->user->gid) < 0) {
+		listener_log(LOG_WARNING, data->listener, "Unable to change groups to those of %s: %s",
+					 data->user->username, strerror(errno));
+		exit(1);
+	}
+
 	if (setuid(data->user->uid) < 0) {
 		listener_log(LOG_WARNING, data->listener, "Unable to change effective user id to %s (%d): %s",
 					 data->user->username, data->user->uid,
diff --git a/daemon/user.h b/daemon/user.h
index 8e8fd12..6977273 100644
--- a/daemon/user.h
+++ b/daemon/user.h
@@ -30,6 +30,7 @@ struct daemon_user {
 	 gint last_status;
 	 gint child_watch;
 	 uid_t uid; /* -1 if not a system user */
+	 gid_t gid;
 	 GPid pid;
 	 struct irc_listener *listener;
 };
-- 
2.43.0


From bd54232b6aff4d868b21432b6b5785967f4522a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:20 +0000
Subject: [PATCH 117/138] fix: ctrlproxyd: a user can be forgotten before its
 instance exits

---
 daemon/user.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/daemon/user.c b/daemon/user.c
index bec4b2d..8f7799a 100644
--- a/daemon/user.c
+++ b/daemon/user.c
@@ -39,10 +39,20 @@ gboolean daemon_user_running(struct daemon_user *user)
 	return (user->pid != -1);
 }
 
+static void daemon_user_reap(GPid pid, gint status, gpointer data)
+{
+	g_spawn_close_pid(pid);
+}
+
 void daemon_user_free(struct daemon_user *user)
 {
 	if (user == NULL)
 		return;
+	if (user->child_watch != -1) {
+		/* Nobody is interested in how it ends any more */
+		g_source_remove(user->child_watch);
+		g_child_watch_add(user->pid, daemon_user_reap, NULL);
+	}
 	g_free(user->pidpath);
 	g_free(user->socketpath);
 	g_free(user->configdir);
-- 
2.43.0


From a615f4c0fe70f1fdf7f10bf95db4fe9bce5fd6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:20 +0000
Subject: [PATCH 118/138] fix: ctrlproxyd: do not truncate socket paths, close
 sockets of backends

---
 daemon/backend.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/daemon/backend.c b/daemon/backend.c
index d1fa6de..fd308b2 100644
--- a/daemon/backend.c
+++ b/daemon/backend.c
@@ -94,10 +94,19 @@ struct daemon_backend *daemon_backend_open(const char *socketpath,
 	struct sockaddr_un un;
 	GIOChannel *ch;
 
+	if (strlen(socketpath) >= sizeof(un.sun_path)) {
+		listener_log(LOG_WARNING, listener, "socket path %s is too long", socketpath);
+		return NULL;
+	}
+
 	sock = socket(PF_UNIX, SOCK_STREAM, 0);
+	if (sock < 0) {
+		listener_log(LOG_WARNING, listener, "unable to create socket: %s", strerror(errno));
+		return NULL;
+	}
 
 	un.sun_family = AF_UNIX;
-	strncpy(un.sun_path, socketpath, sizeof(un.sun_path));
+	strcpy(un.sun_path, socketpath);
 
 	if (connect(sock, (struct sockaddr *)&un, sizeof(un)) < 0) {
 		listener_log(LOG_INFO, listener, "unable to connect to %s: %s", un.sun_path, strerror(errno));
@@ -108,6 +117,7 @@ struct daemon_backend *daemon_backend_open(const char *socketpath,
 	backend = g_new0(struct daemon_backend, 1);
 	ch = g_io_channel_unix_new(sock);
 
+	g_io_channel_set_close_on_unref(ch, TRUE);
 	g_io_channel_set_encoding(ch, NULL, NULL);
 	g_io_channel_set_flags(ch, G_IO_FLAG_NONBLOCK, NULL);
 
-- 
2.43.0


From 6faa64dd9ed6c72a6623d11ed1589989cc7352d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:11 +0000
Subject: [PATCH 119/138] fix: ctrlproxyd: do not leak users at startup

---
 daemon/user.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/daemon/user.c b/daemon/user.c
index 8f7799a..3c981a5 100644
--- a/daemon/user.c
+++ b/daemon/user.c
@@ -170,6 +170,7 @@ gboolean daemon_user_start(struct daemon_user *user, const char *ctrlproxy_path,
 		listener_log(LOG_WARNING, l, "Unable to start ctrlproxy for %s (%s): %s", user->username,
 					 user->configdir, error->message);
 		g_error_free(error);
+		g_strfreev(command);
 		return FALSE;
 	}
 	g_strfreev(command);
@@ -194,7 +195,11 @@ void foreach_daemon_user(struct ctrlproxyd_config *config, struct irc_listener *
 		setpwent();
 		while ((pwent = getpwent()) != NULL) {
 			user = get_daemon_user(config, pwent->pw_name);
+			if (user == NULL)
+				continue;
 			fn(user, config->ctrlproxy_path, listener);
+			if (user->child_watch == -1)
+				daemon_user_free(user);
 		}
 		endpwent();
 	} else {
@@ -204,7 +209,11 @@ void foreach_daemon_user(struct ctrlproxyd_config *config, struct irc_listener *
 			return;
 		while ((name = g_dir_read_name(dir)) != NULL) {
 			user = get_daemon_user(config, name);
+			if (user == NULL)
+				continue;
 			fn(user, config->ctrlproxy_path, listener);
+			if (user->child_watch == -1)
+				daemon_user_free(user);
 		}
 		g_dir_close(dir);
 	}
-- 
2.43.0


From 3d40f0881b798dba3bce8fa682fac055c18c3591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:11 +0000
Subject: [PATCH 120/138] fix: ctrlproxyd: do not start instances for users
 without an account

---
 daemon/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/main.c b/daemon/main.c
index 655caf9..1cc5121 100644
--- a/daemon/main.c
+++ b/daemon/main.c
@@ -273,7 +273,7 @@ static gboolean daemon_client_connect_backend(struct daemon_client *cd, struct p
 {
 	daemon_user_free(cd->user);
 	cd->user = get_daemon_user(cd->config, username);
-	if (cd->user == NULL) {
+	if (cd->user == NULL || !daemon_user_exists(cd->user)) {
 		listener_log(LOG_INFO, cd->listener, "Unable to find user %s", username);
 		irc_sendf(cl->connection, cl->listener->iconv, NULL, "ERROR :Unknown user %s", username);
 		return FALSE;
-- 
2.43.0


From 1145b15c544cde5b4ee61e4178f2caf9b8ec133e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:11 +0000
Subject: [PATCH 121/138] fix: ctrlproxyd: closing either side of a connection
 at any time is safe

---
 daemon/backend.c  | 48 +++++++++++++++++++++++--------
 daemon/backend.h  |  1 +
 daemon/client.c   | 28 ++++++++++++------
 daemon/main.c     | 72 +++++++++++++++++++++++++++++++++++++++++------
 libirc/listener.c |  5 +++-
 libirc/listener.h |  4 ++-
 6 files changed, 127 insertions(+), 31 deletions(-)

diff --git a/daemon/backend.c b/daemon/backend.c
index fd308b2..8ba4ee3 100644
--- a/daemon/backend.c
+++ b/daemon/backend.c
@@ -30,6 +30,9 @@ static gboolean daemon_backend_error(struct irc_transport *transport, const char
 {
 	struct daemon_backend *backend = transport->userdata;
 
+	if (backend->killed)
+		return FALSE;
+
 	return backend->callbacks->error(backend, message);
 }
 
@@ -38,25 +41,26 @@ static gboolean daemon_backend_recv(struct irc_transport *transport, const struc
 	struct daemon_backend *backend = transport->userdata;
 
 	if (!backend->authenticated) {
+		void (*pass_check_cb) (struct daemon_backend *, gboolean) = backend->pass_check_cb;
 		gboolean ok;
 		if (irc_line_respcode(line) == ERR_PASSWDMISMATCH) {
 			ok = FALSE;
-		} else if (!strcmp(line->args[0], "NOTICE") &&
+		} else if (line->argc > 2 && !strcmp(line->args[0], "NOTICE") &&
 				   !strcmp(line->args[1], "AUTH") &&
 				   !strcmp(line->args[2], "PASS OK")) {
 			ok = TRUE;
 		} else {
 			char *msg = g_strdup_printf("Unexpected response %s", line->args[0]);
-			if (!backend->callbacks->error(backend, msg))
-				return FALSE;
+			ok = backend->callbacks->error(backend, msg);
 			g_free(msg);
+			if (!ok)
+				return FALSE;
 			ok = FALSE;
 		}
-		if (backend->pass_check_cb != NULL) {
-			backend->pass_check_cb(backend, ok);
-			backend->pass_check_cb = NULL;
-		}
+		backend->pass_check_cb = NULL;
 		backend->authenticated = ok;
+		if (pass_check_cb != NULL)
+			pass_check_cb(backend, ok);
 		return TRUE;
 	} else {
 		return backend->callbacks->recv(backend, line);
@@ -67,7 +71,8 @@ static void on_daemon_backend_disconnect(struct irc_transport *transport)
 {
 	struct daemon_backend *backend = transport->userdata;
 
-	backend->callbacks->disconnect(backend);
+	if (!backend->killed)
+		backend->callbacks->disconnect(backend);
 }
 
 static void charset_error_not_called(struct irc_transport *transport, const char *error_msg)
@@ -75,9 +80,15 @@ static void charset_error_not_called(struct irc_transport *transport, const char
 	g_assert_not_reached();
 }
 
+static void daemon_backend_log(struct irc_transport *transport, const struct irc_line *l, const GError *error)
+{
+	log_global(LOG_WARNING, "Error sending to backend: %s",
+			   error != NULL?error->message:"Unknown error");
+}
+
 static const struct irc_transport_callbacks daemon_backend_callbacks = {
 	.hangup = irc_transport_disconnect,
-	.log = NULL,
+	.log = daemon_backend_log,
 	.disconnect = on_daemon_backend_disconnect,
 	.recv = daemon_backend_recv,
 	.charset_error = charset_error_not_called,
@@ -154,11 +165,26 @@ gboolean daemon_backend_authenticate(struct daemon_backend *backend,
 	return TRUE;
 }
 
+static gboolean daemon_backend_free(gpointer data)
+{
+	struct daemon_backend *backend = data;
+
+	free_irc_transport(backend->transport);
+	g_free(backend);
+
+	return FALSE;
+}
+
 void daemon_backend_kill(struct daemon_backend *backend)
 {
+	if (backend->killed)
+		return;
+
+	backend->killed = TRUE;
 	irc_transport_disconnect(backend->transport);
-	free_irc_transport(backend->transport);
-	backend->transport = NULL;
+
+	/* It may still be in use by the caller */
+	g_idle_add(daemon_backend_free, backend);
 }
 
 gboolean daemon_backend_send_line (struct daemon_backend *backend, const struct irc_line *line)
diff --git a/daemon/backend.h b/daemon/backend.h
index 188059e..0116475 100644
--- a/daemon/backend.h
+++ b/daemon/backend.h
@@ -27,6 +27,7 @@ struct daemon_backend_callbacks;
 struct daemon_backend {
 	struct irc_transport *transport;
 	gboolean authenticated;
+	gboolean killed;
 	void (*pass_check_cb) (struct daemon_backend *backend, gboolean accepted);
 	gpointer pass_check_data;
 	gpointer userdata;
diff --git a/daemon/client.c b/daemon/client.c
index b4b04cc..0ad0d22 100644
--- a/daemon/client.c
+++ b/daemon/client.c
@@ -29,6 +29,23 @@
 
 static GList *daemon_clients = NULL;
 
+static gboolean daemon_client_free(gpointer data)
+{
+	struct daemon_client *dc = data;
+
+	if (dc->client_transport != NULL)
+		free_irc_transport(dc->client_transport);
+
+	daemon_user_free(dc->user);
+	free_login_details(dc->login_details);
+	g_free(dc->servername);
+	g_free(dc->servicename);
+	g_free(dc->description);
+	g_free(dc);
+
+	return FALSE;
+}
+
 void daemon_client_kill(struct daemon_client *dc)
 {
 	daemon_clients = g_list_remove(daemon_clients, dc);
@@ -44,21 +61,14 @@ void daemon_client_kill(struct daemon_client *dc)
 
 	if (dc->client_transport != NULL) {
 		irc_transport_disconnect(dc->client_transport);
-		free_irc_transport(dc->client_transport);
-		dc->client_transport = NULL;
 	}
 
-	daemon_user_free(dc->user);
-	free_login_details(dc->login_details);
-	g_free(dc->servername);
-	g_free(dc->servicename);
-	g_free(dc->description);
-
 	if (dc->inetd) {
 		exit(0);
 	}
 
-	g_free(dc);
+	/* It may still be in use by the caller */
+	g_idle_add(daemon_client_free, dc);
 }
 
 void daemon_client_forward_credentials(struct daemon_client *dc)
diff --git a/daemon/main.c b/daemon/main.c
index 1cc5121..3fe8697 100644
--- a/daemon/main.c
+++ b/daemon/main.c
@@ -197,9 +197,17 @@ static gboolean daemon_client_error(struct irc_transport *transport, const char
 	return FALSE;
 }
 
+static void daemon_client_log(struct irc_transport *transport, const struct irc_line *l, const GError *error)
+{
+	struct daemon_client *cd = transport->userdata;
+
+	listener_log(LOG_WARNING, cd->listener, "Error sending to %s: %s",
+				 cd->description, error != NULL?error->message:"Unknown error");
+}
+
 static const struct irc_transport_callbacks daemon_client_callbacks = {
 	.hangup = irc_transport_disconnect,
-	.log = NULL,
+	.log = daemon_client_log,
 	.disconnect = on_daemon_client_disconnect,
 	.recv = daemon_client_recv,
 	.charset_error = charset_error_not_called,
@@ -233,13 +241,33 @@ static gboolean daemon_socks_gssapi (struct pending_client *pc, gss_name_t usern
 }
 #endif
 
+/**
+ * The backend of a client went away or can't be used.
+ */
+static void backend_lost(struct daemon_client *cd)
+{
+	gboolean waiting;
+
+	if (cd->client_transport != NULL) {
+		daemon_client_kill(cd);
+		return;
+	}
+
+	/* Still pending */
+	waiting = (cd->backend->pass_check_cb != NULL);
+	daemon_backend_kill(cd->backend);
+	cd->backend = NULL;
+	if (waiting && cd->pending_client != NULL)
+		cd->socks_accept_fn(cd->pending_client, FALSE);
+}
+
 static gboolean backend_error(struct daemon_backend *backend, const char *error_message)
 {
 	struct daemon_client *cd = backend->userdata;
 	listener_log(LOG_INFO, cd->listener, "%s", error_message);
 	if (cd->client_transport != NULL)
 		transport_send_args(cd->client_transport, NULL, "ERROR", error_message, NULL);
-	daemon_client_kill(cd);
+	backend_lost(cd);
 	return FALSE;
 }
 
@@ -247,9 +275,10 @@ static void backend_disconnect(struct daemon_backend *backend)
 {
 	struct daemon_client *cd = backend->userdata;
 
-	listener_log(LOG_INFO, cd->listener, "Backend of %s disconnected", cd->description);
+	listener_log(LOG_INFO, cd->listener, "Backend of %s disconnected",
+				 cd->description?cd->description:"pending client");
 
-	daemon_client_kill(cd);
+	backend_lost(cd);
 }
 
 static gboolean backend_recv(struct daemon_backend *backend, const struct irc_line *line)
@@ -271,6 +300,12 @@ const static struct daemon_backend_callbacks backend_callbacks = {
 
 static gboolean daemon_client_connect_backend(struct daemon_client *cd, struct pending_client *cl, const char *username)
 {
+	if (cd->backend != NULL) {
+		/* From an earlier attempt */
+		daemon_backend_kill(cd->backend);
+		cd->backend = NULL;
+	}
+
 	daemon_user_free(cd->user);
 	cd->user = get_daemon_user(cd->config, username);
 	if (cd->user == NULL || !daemon_user_exists(cd->user)) {
@@ -298,7 +333,8 @@ static void daemon_backend_pass_checked(struct daemon_backend *backend, gboolean
 {
 	struct daemon_client *cd = backend->userdata;
 
-	cd->socks_accept_fn(cd->pending_client, accepted);
+	if (cd->pending_client != NULL)
+		cd->socks_accept_fn(cd->pending_client, accepted);
 }
 
 
@@ -306,7 +342,11 @@ static gboolean daemon_socks_auth_simple(struct pending_client *cl, const char *
 										 gboolean (*on_finished) (struct pending_client *, gboolean))
 {
 	struct daemon_client *cd = cl->private_data;
-	
+
+	/* Wait for the answer to the previous one */
+	if (cd->backend != NULL && cd->backend->pass_check_cb != NULL)
+		return FALSE;
+
 	if (!daemon_client_connect_backend(cd, cl, username))
 		return FALSE;
 
@@ -321,7 +361,9 @@ static gboolean daemon_socks_connect_fqdn (struct pending_client *cl, const char
 	char portstr[20];
 	char data[0x200];
 
-	/* Only called after authentication */
+	/* Only called after authentication, but the backend may be gone by now */
+	if (cd->backend == NULL || !cd->backend->authenticated)
+		return listener_socks_error(cl, REP_GENERAL_FAILURE);
 
 	cd->description = g_io_channel_ip_get_description(cl->connection);
 	listener_log(LOG_INFO, cl->listener, "Accepted new socks client %s for user %s", cd->description, cd->user->username);
@@ -391,10 +433,10 @@ static gboolean handle_client_line(struct pending_client *pc, const struct irc_l
 
 		cd->client_transport = irc_transport_new_iochannel(pc->connection);
 
-		daemon_backend_authenticate(cd->backend, cd->login_details->password, plain_handle_auth_finish);
-
 		irc_transport_set_callbacks(cd->client_transport, &daemon_client_callbacks, cd);
 
+		daemon_backend_authenticate(cd->backend, cd->login_details->password, plain_handle_auth_finish);
+
 		return FALSE;
 	}
 
@@ -412,6 +454,17 @@ static void daemon_new_client(struct pending_client *pc)
 	cd->inetd = inetd;
 }
 
+static void daemon_pending_client_gone(struct pending_client *pc)
+{
+	struct daemon_client *cd = pc->private_data;
+
+	cd->pending_client = NULL;
+
+	/* Unless it became a real client */
+	if (cd->client_transport == NULL)
+		daemon_client_kill(cd);
+}
+
 struct irc_listener_ops daemon_ops = {
 	.new_client = daemon_new_client,
 	.socks_auth_simple = daemon_socks_auth_simple,
@@ -419,6 +472,7 @@ struct irc_listener_ops daemon_ops = {
 #ifdef HAVE_GSSAPI
 	.socks_gssapi = daemon_socks_gssapi,
 #endif
+	.pending_client_gone = daemon_pending_client_gone,
 	.handle_client_line = handle_client_line,
 };
 
diff --git a/libirc/listener.c b/libirc/listener.c
index 3b0bd55..4daa715 100644
--- a/libirc/listener.c
+++ b/libirc/listener.c
@@ -58,6 +58,9 @@ static gboolean kill_pending_client(struct pending_client *pc)
 
 	pc->listener->pending = g_list_remove(pc->listener->pending, pc);
 
+	if (pc->listener->ops->pending_client_gone != NULL)
+		pc->listener->ops->pending_client_gone(pc);
+
 	g_source_remove(pc->watch_id);
 
 #ifdef HAVE_GSSAPI
@@ -490,7 +493,7 @@ gboolean listener_start_tcp(struct irc_listener *l, const char *address, const c
  *  - support for ident method
  */
 
-gboolean listener_socks_reply(struct pending_client *pc, guint8 err, guint8 atyp, guint8 data_len, gchar *data, guint16 port)
+gboolean listener_socks_reply(struct pending_client *pc, guint8 err, guint8 atyp, gsize data_len, gchar *data, guint16 port)
 {
 	gchar *header = g_new0(gchar, 7 + data_len);
 	GIOStatus status;
diff --git a/libirc/listener.h b/libirc/listener.h
index 3a002f0..2fba773 100644
--- a/libirc/listener.h
+++ b/libirc/listener.h
@@ -27,6 +27,8 @@ struct pending_client;
 struct irc_listener_ops {
 	/* Signal a new client has connected. */
 	void (*new_client) (struct pending_client *pc);
+	/* The pending client is about to be freed */
+	void (*pending_client_gone) (struct pending_client *pc);
 	/* Forward line from unaccepted pending client */
 	gboolean (*handle_client_line) (struct pending_client *pc, const struct irc_line *l);
 	/* Check authentication + authorization of a socks client by password */
@@ -132,7 +134,7 @@ G_MODULE_EXPORT void listener_add_iochannel(struct irc_listener *l, GIOChannel *
 G_MODULE_EXPORT void listener_log(enum log_level l, const struct irc_listener *listener,
 				 const char *fmt, ...);
 G_MODULE_EXPORT gboolean listener_socks_error(struct pending_client *pc, guint8 err);
-G_MODULE_EXPORT gboolean listener_socks_reply(struct pending_client *pc, guint8 err, guint8 atyp, guint8 data_len, gchar *data, guint16 port);
+G_MODULE_EXPORT gboolean listener_socks_reply(struct pending_client *pc, guint8 err, guint8 atyp, gsize data_len, gchar *data, guint16 port);
 G_MODULE_EXPORT struct pending_client *listener_new_pending_client(struct irc_listener *listener, GIOChannel *c);
 
 #ifdef HAVE_GSSAPI
-- 
2.43.0


From c8e0a671da7978c78e62d1ab934e8d493946a5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:11 +0000
Subject: [PATCH 122/138] fix: ctrlproxyd: repeat long host names to SOCKS
 clients correctly

---
 daemon/main.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/daemon/main.c b/daemon/main.c
index 3fe8697..7871d0d 100644
--- a/daemon/main.c
+++ b/daemon/main.c
@@ -359,7 +359,8 @@ static gboolean daemon_socks_connect_fqdn (struct pending_client *cl, const char
 {
 	struct daemon_client *cd = cl->private_data;
 	char portstr[20];
-	char data[0x200];
+	gchar data[0x100];
+	size_t len = strlen(hostname);
 
 	/* Only called after authentication, but the backend may be gone by now */
 	if (cd->backend == NULL || !cd->backend->authenticated)
@@ -374,12 +375,12 @@ static gboolean daemon_socks_connect_fqdn (struct pending_client *cl, const char
 	snprintf(portstr, sizeof(portstr), "%d", port);
 	transport_send_args(cd->backend->transport, NULL, "CONNECT", hostname, portstr, NULL);
 
-	g_assert(strlen(hostname) < 0x100);
+	g_assert(len < 0x100);
 
-	data[0] = strlen(hostname);
-	strncpy(data+1, hostname, data[0]);
+	data[0] = len;
+	memcpy(data+1, hostname, len);
 
-	listener_socks_reply(cl, REP_OK, ATYP_FQDN, strlen(hostname)+2, data, port);
+	listener_socks_reply(cl, REP_OK, ATYP_FQDN, len+1, data, port);
 	return FALSE;
 }
 
-- 
2.43.0


From 11212e72c199ad69dd23ba6aba773954ed4b6da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:11 +0000
Subject: [PATCH 123/138] fix: ctrlproxyd: do not leak repeated login details

---
 daemon/main.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/daemon/main.c b/daemon/main.c
index 7871d0d..7e117a9 100644
--- a/daemon/main.c
+++ b/daemon/main.c
@@ -406,16 +406,24 @@ static gboolean handle_client_line(struct pending_client *pc, const struct irc_l
 	}
 
 	if (!base_strcmp(l->args[0], "PASS")) {
+		g_free(cd->login_details->password);
 		cd->login_details->password = g_strdup(l->args[1]);
 	} else if (!base_strcmp(l->args[0], "CONNECT")) {
+		g_free(cd->servername);
+		g_free(cd->servicename);
 		cd->servername = g_strdup(l->args[1]);
 		cd->servicename = g_strdup(l->args[2]);
 	} else if (!base_strcmp(l->args[0], "USER") && l->argc > 4) {
+		g_free(cd->login_details->username);
+		g_free(cd->login_details->mode);
+		g_free(cd->login_details->unused);
+		g_free(cd->login_details->realname);
 		cd->login_details->username = g_strdup(l->args[1]);
 		cd->login_details->mode = g_strdup(l->args[2]);
 		cd->login_details->unused = g_strdup(l->args[3]);
 		cd->login_details->realname = g_strdup(l->args[4]);
 	} else if (!base_strcmp(l->args[0], "NICK")) {
+		g_free(cd->login_details->nick);
 		cd->login_details->nick = g_strdup(l->args[1]);
 	} else if (!base_strcmp(l->args[0], "QUIT")) {
 		return FALSE;
-- 
2.43.0


From d11860199d888d5074e1d98144c0934471ed2cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:57 +0000
Subject: [PATCH 124/138] fix: ctrlproxyd: CONNECT without a port does not read
 beyond the arguments

---
 daemon/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/main.c b/daemon/main.c
index 7e117a9..26a85c4 100644
--- a/daemon/main.c
+++ b/daemon/main.c
@@ -412,7 +412,7 @@ static gboolean handle_client_line(struct pending_client *pc, const struct irc_l
 		g_free(cd->servername);
 		g_free(cd->servicename);
 		cd->servername = g_strdup(l->args[1]);
-		cd->servicename = g_strdup(l->args[2]);
+		cd->servicename = g_strdup(l->argc > 2?l->args[2]:NULL);
 	} else if (!base_strcmp(l->args[0], "USER") && l->argc > 4) {
 		g_free(cd->login_details->username);
 		g_free(cd->login_details->mode);
-- 
2.43.0


From 5b3c7887261905573979aef1c50636075d542660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:44 +0000
Subject: [PATCH 125/138] fix: ctrlproxyd: SOCKS clients can not pass more than
 one line to the backend

---
 daemon/main.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/daemon/main.c b/daemon/main.c
index 26a85c4..cd1cb93 100644
--- a/daemon/main.c
+++ b/daemon/main.c
@@ -343,6 +343,10 @@ static gboolean daemon_socks_auth_simple(struct pending_client *cl, const char *
 {
 	struct daemon_client *cd = cl->private_data;
 
+	/* These would be more than one line for the backend */
+	if (strpbrk(username, "\r\n") != NULL || strpbrk(password, "\r\n") != NULL)
+		return FALSE;
+
 	/* Wait for the answer to the previous one */
 	if (cd->backend != NULL && cd->backend->pass_check_cb != NULL)
 		return FALSE;
@@ -366,6 +370,10 @@ static gboolean daemon_socks_connect_fqdn (struct pending_client *cl, const char
 	if (cd->backend == NULL || !cd->backend->authenticated)
 		return listener_socks_error(cl, REP_GENERAL_FAILURE);
 
+	/* These would be more than one argument or line for the backend */
+	if (strpbrk(hostname, " \r\n") != NULL)
+		return listener_socks_error(cl, REP_HOST_UNREACHABLE);
+
 	cd->description = g_io_channel_ip_get_description(cl->connection);
 	listener_log(LOG_INFO, cl->listener, "Accepted new socks client %s for user %s", cd->description, cd->user->username);
 
-- 
2.43.0


From 176d546666a388ec341439fdfeeeb7e138cad981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:32 +0000
Subject: [PATCH 126/138] fix: report-time is never unless set, as documented

---
 src/settings.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/settings.c b/src/settings.c
index c3e7b0e..a0b66fa 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -1691,6 +1691,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 
 	cfg->replication = config_fetch_string(kf, "global", "replication", NULL);
 
+	cfg->report_time = REPORT_TIME_NEVER;
 	if (g_key_file_has_key(kf, "global", "report-time", NULL)) {
 		char *setting = config_fetch_string(kf, "global", "report-time", NULL);
 		if (!strcasecmp(setting, "never") || !strcasecmp(setting, "false")) {
-- 
2.43.0


From 7d4b7a9cbfcf084c1ce1119ef095f6506b24e259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:26 +0000
Subject: [PATCH 127/138] fix: STARTLISTENER and STOPLISTENER take IPv6
 addresses

---
 src/admin.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index 0ec3e95..ce1f831 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1146,7 +1146,7 @@ static void cmd_start_listener(admin_handle h, const char * const *args, void *u
 	cfg = g_new0(struct listener_config, 1);
 
 	b = g_strdup(args[1]);
-	if ((p = strchr(b, ':'))) {
+	if ((p = strrchr(b, ':'))) {
 		*p = '\0';
 		p++;
 		cfg->address = b;
@@ -1185,7 +1185,7 @@ static void cmd_stop_listener(admin_handle h, const char * const *args, void *us
 	}
 
 	b = g_strdup(args[1]);
-	if ((p = strchr(b, ':'))) {
+	if ((p = strrchr(b, ':'))) {
 		*p = '\0';
 		p++;
 	} else {
-- 
2.43.0


From 7717a74151854dcf64863a40e522f70dab2ffeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:27 +0000
Subject: [PATCH 128/138] fix: the own host is also replaced in USERHOST
 replies for an operator

---
 src/client.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/client.c b/src/client.c
index cb3bb78..73915ce 100644
--- a/src/client.c
+++ b/src/client.c
@@ -433,8 +433,17 @@ struct irc_line *irc_line_replace_hostmask(const struct irc_line *l,
 			for (i = 0; users[i]; i++) {
 				gchar** tmp302 = g_strsplit(users[i], "=", 2);
 				if (g_strv_length(tmp302) > 1) {
-					/* FIXME: strip *'s from the end of tmp302[0] */
-					if (!irccmp(info, tmp302[0], old->nick)) {
+					size_t nicklen = strlen(tmp302[0]);
+					gboolean is_me;
+
+					/* IRC operators are marked with an asterisk */
+					if (nicklen > 0 && tmp302[0][nicklen-1] == '*')
+						nicklen--;
+
+					is_me = (strlen(old->nick) == nicklen &&
+							 !ircncmp(info, tmp302[0], old->nick, nicklen));
+
+					if (is_me) {
 						g_free(users[i]);
 						users[i] = g_strdup_printf("%s=%c%s@%s",
 								tmp302[0], tmp302[1][0],
-- 
2.43.0


From 4d2dff8d86726f30ebd59b460d964cc8dcb72cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:12 +0000
Subject: [PATCH 129/138] fix: the sockets of a program that can not be started
 are closed

---
 libirc/connection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libirc/connection.c b/libirc/connection.c
index 278f1ef..b05d7dc 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -662,6 +662,8 @@ static pid_t piped_child(struct irc_network *s, char* const command[], int *f_in
 
 	if (pid == -1) {
 		network_log(LOG_ERROR, s, "fork: %s", strerror(errno));
+		close(sock[0]);
+		close(sock[1]);
 		return -1;
 	}
 
-- 
2.43.0


From 97dfee2c46518a173fef6e3c7ffcda995ad9be24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:52 +0000
Subject: [PATCH 130/138] fix: programs used as a network do not stay as
 zombies

---
 libirc/connection.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libirc/connection.c b/libirc/connection.c
index b05d7dc..ae14d48 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -644,6 +644,11 @@ static gboolean close_server(struct irc_network *n)
 	return TRUE;
 }
 
+static void program_exited(GPid pid, gint status, gpointer data)
+{
+	g_spawn_close_pid(pid);
+}
+
 static pid_t piped_child(struct irc_network *s, char* const command[], int *f_in)
 {
 	pid_t pid;
@@ -681,6 +686,9 @@ static pid_t piped_child(struct irc_network *s, char* const command[], int *f_in
 
 	close(sock[1]);
 
+	/* Don't leave a zombie behind when the program exits */
+	g_child_watch_add(pid, program_exited, NULL);
+
 	return pid;
 }
 
-- 
2.43.0


From 5faa94188e19de8946ac4b7ba9740a7f9b5dd8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:31 +0000
Subject: [PATCH 131/138] fix: the newer replies to WHOIS go to the client that
 asked only

---
 libirc/irc.h      | 4 ++++
 libirc/redirect.c | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/libirc/irc.h b/libirc/irc.h
index 4a20568..a34be1c 100644
--- a/libirc/irc.h
+++ b/libirc/irc.h
@@ -183,6 +183,10 @@
 #define RPL_LOCALUSERS 265
 #define RPL_GLOBALUSERS 266
 #define RPL_WHOISSSL 275
+#define RPL_WHOISCERTFP 276
+#define RPL_WHOISHOST 378
+#define RPL_WHOISMODES 379
+#define RPL_WHOISSECURE 671
 
 /* These are obsolete */
 #define RPL_STATSQLINE 217
diff --git a/libirc/redirect.c b/libirc/redirect.c
index 37ebe44..5eb10d2 100644
--- a/libirc/redirect.c
+++ b/libirc/redirect.c
@@ -48,7 +48,8 @@ static struct query queries[] = {
  * WHOIS [<server>] <nickmask>[,<nickmask>[,...]] */
 	{"WHOIS",
 		{ RPL_WHOISUSER, RPL_WHOISCHANNELS, RPL_AWAY,
-		  RPL_WHOISIDLE, RPL_WHOISCHANNELS, RPL_WHOISIP,
+		  RPL_WHOISIDLE, RPL_WHOISIP, RPL_WHOISCERTFP,
+		  RPL_WHOISHOST, RPL_WHOISMODES, RPL_WHOISSECURE,
 		  RPL_WHOISSERVER, RPL_WHOISOPERATOR, RPL_WHOISACTUALLY,
 		  RPL_WHOISSSL, RPL_WHOISACCOUNT, RPL_WHOISIDENTIFIED,
 		  RPL_WHOISSERVEROPERATOR, RPL_WHOISNETWORKSERVICE,
-- 
2.43.0


From bd82de0846971a1bd118d93f04e49c0e7e546117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:12 +0000
Subject: [PATCH 132/138] fix: what a client says while there is no connection
 is refused, not swallowed

---
 src/client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client.c b/src/client.c
index 73915ce..678c50a 100644
--- a/src/client.c
+++ b/src/client.c
@@ -118,7 +118,7 @@ static gboolean process_from_client(struct irc_client *c, const struct irc_line
 			 * to the server, though unlikely to occur often */
 			network_forward_line(c->network, c, l, FALSE);
 		}
-	} else if (c->network->connection.state == NETWORK_CONNECTION_STATE_NOT_CONNECTED) {
+	} else {
 		char *msg;
 		if (c->network->connection.data.tcp.last_disconnect_reason == NULL) {
 			msg = g_strdup("Currently not connected to server...");
-- 
2.43.0


From e733e5a047cf6daa852a3ff1ff19b2583e517037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:17 +0000
Subject: [PATCH 133/138] fix: a control socket is not opened under part of its
 path

When the path of the administration socket or of the socket for clients
is too long for a socket address, strncpy() leaves it unterminated: some
other file may be removed, and the socket ends up under the first part of
the name, from where it is not removed again.
---
 src/admin.c    | 5 +++++
 src/listener.c | 9 ++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/admin.c b/src/admin.c
index ce1f831..1ce8d4e 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -2050,6 +2050,11 @@ gboolean start_admin_socket(struct global *global)
 	int sock;
 	struct sockaddr_un un;
 
+	if (strlen(global->config->admin_socket) >= sizeof(un.sun_path)) {
+		log_global(LOG_ERROR, "unable to bind to %s: path too long", global->config->admin_socket);
+		return FALSE;
+	}
+
 	sock = socket(PF_UNIX, SOCK_STREAM, 0);
 	if (sock < 0) {
 		log_global(LOG_ERROR, "error creating unix socket: %s", strerror(errno));
diff --git a/src/listener.c b/src/listener.c
index 6854c2b..e292305 100644
--- a/src/listener.c
+++ b/src/listener.c
@@ -402,9 +402,16 @@ gboolean start_unix_domain_socket_listener(struct global *global)
 {
 	int sock;
 	struct sockaddr_un un;
-	struct irc_listener *l = g_new0(struct irc_listener, 1);
+	struct irc_listener *l;
 	GIOChannel *ioc;
 
+	if (strlen(global->config->network_socket) >= sizeof(un.sun_path)) {
+		log_global(LOG_ERROR, "unable to bind to %s: path too long", global->config->network_socket);
+		return FALSE;
+	}
+
+	l = g_new0(struct irc_listener, 1);
+
 	sock = socket(PF_UNIX, SOCK_STREAM, 0);
 	if (sock < 0) {
 		log_global(LOG_ERROR, "error creating unix socket: %s", strerror(errno));
-- 
2.43.0


From 38862362da0ad796a2b4b9d30f888c5fbcba794b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:00 +0000
Subject: [PATCH 134/138] fix: say that the configuration can not be loaded
 instead of crashing

---
 src/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 5032525..a8eb0ae 100644
--- a/src/main.c
+++ b/src/main.c
@@ -311,7 +311,6 @@ int main(int argc, char **argv)
 		g_free(rcfile);
 	} else {
 		my_global = load_global(config_dir, from_sourcedir);
-		my_global->restricted = restricted;
 	}
 	g_free(config_dir);
 	g_free(tmp);
@@ -321,6 +320,8 @@ int main(int argc, char **argv)
 		return 1;
 	}
 
+	my_global->restricted = restricted;
+
 	pidfile = pid_file(my_global);
 	pid = read_pidfile(pidfile);
 
-- 
2.43.0


From 0a4bc4bcab302237c23f3348686fc0416f412448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:08 +0000
Subject: [PATCH 135/138] fix: reopen the log file in use on SIGHUP, and close
 it only once at exit

Every SIGHUP registered another fini_log() to run at exit: after one the
proxy crashed at exit, after two it did so before the configuration was
saved.  The file opened was always "log" in the configuration directory,
also if another or none was in use, and the old one was kept open.
---
 src/log.c  | 21 +++++++++++++++++----
 src/main.c |  4 +---
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/log.c b/src/log.c
index d67fc89..b8ee832 100644
--- a/src/log.c
+++ b/src/log.c
@@ -128,7 +128,7 @@ static void log_handler(const gchar *log_domain, GLogLevelFlags flags, const gch
 static void fini_log(void)
 {
 	log_global(LOG_INFO, "Closing log file");
-	if (flog != stderr) {
+	if (flog != NULL && flog != stderr) {
 		fclose(flog);
 	}
 	flog = NULL;
@@ -136,6 +136,9 @@ static void fini_log(void)
 
 gboolean init_log(const char *lf)
 {
+	static gboolean registered = FALSE;
+	FILE *f;
+
 	g_log_set_handler ("GLib", G_LOG_LEVEL_MASK | G_LOG_FLAG_FATAL | G_LOG_FLAG_RECURSION, log_handler, NULL);
 
 	if (!lf) {
@@ -143,13 +146,23 @@ gboolean init_log(const char *lf)
 		return TRUE;
 	}
 
-	flog = fopen(lf, "a+");
-	if (!flog) {
+	f = fopen(lf, "a+");
+	if (!f) {
 		perror("Opening log file");
 		return FALSE;
 	}
 
-	atexit(fini_log);
+	/* Not again when reopening: the log file is closed once, and after
+	 * everything else */
+	if (!registered) {
+		atexit(fini_log);
+		registered = TRUE;
+	}
+
+	if (flog != NULL && flog != stderr) {
+		fclose(flog);
+	}
+	flog = f;
 
 	log_global(LOG_INFO, "Opening log file");
 	return TRUE;
diff --git a/src/main.c b/src/main.c
index a8eb0ae..a61f6f1 100644
--- a/src/main.c
+++ b/src/main.c
@@ -35,6 +35,7 @@
 
 /* globals */
 static GMainLoop *main_loop;
+static char *logfile = NULL;
 extern char my_hostname[];
 extern struct global *my_global;
 extern help_t *help;
@@ -55,8 +56,6 @@ void register_hup_handler(hup_handler_fn fn, void *userdata)
 static void signal_hup(int sig)
 {
 	GList *gl;
-	char *logfile;
-	logfile = g_build_filename(my_global->config->config_dir, "log", NULL);
 	init_log(logfile);
 	for (gl = hup_handlers; gl; gl = gl->next) {
 		struct hup_handler *hh = gl->data;
@@ -166,7 +165,6 @@ static void signal_save(int sig)
 int main(int argc, char **argv)
 {
 	int isdaemon = 0;
-	char *logfile = NULL;
 	extern enum log_level current_log_level;
 	extern gboolean no_log_timestamp;
 	char *config_dir = NULL;
-- 
2.43.0


From 02c225129a769bb0eb238e8f923aca4a121f8a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:06 +0000
Subject: [PATCH 136/138] fix: end with the client on standard input
 (--inetd-client)

client_init(), client_init_iochannel() and listener_init() return objects
that others know already, but were declared G_GNUC_MALLOC: main() setting
exit_on_close was optimised away as a store nobody can see.
---
 src/internals.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/internals.h b/src/internals.h
index 1afe4dc..e8cbd0e 100644
--- a/src/internals.h
+++ b/src/internals.h
@@ -93,12 +93,12 @@ gboolean run_log_filter(struct irc_network *s, const struct irc_line *l, enum da
  * @param io IO Channel to use for communication.
  * @param desc Description of the client.
  */
-G_GNUC_WARN_UNUSED_RESULT G_MODULE_EXPORT G_GNUC_MALLOC struct irc_client *client_init_iochannel(
+G_GNUC_WARN_UNUSED_RESULT G_MODULE_EXPORT struct irc_client *client_init_iochannel(
 										   struct irc_network *net,
 										   GIOChannel *io,
 										   const char *desc);
 
-G_GNUC_WARN_UNUSED_RESULT G_MODULE_EXPORT G_GNUC_MALLOC struct irc_client *client_init(
+G_GNUC_WARN_UNUSED_RESULT G_MODULE_EXPORT struct irc_client *client_init(
 										   struct irc_network *net,
 										   struct irc_transport *transport,
 										   const char *desc);
@@ -170,7 +170,7 @@ gboolean stop_unix_domain_socket_listener(struct global *);
 void log_custom_load(struct log_file_config *config);
 
 /* listener.c */
-G_GNUC_MALLOC G_MODULE_EXPORT struct irc_listener *listener_init(struct global *global, struct listener_config *);
+G_MODULE_EXPORT struct irc_listener *listener_init(struct global *global, struct listener_config *);
 void free_listeners(struct global *global);
 
 /* auto_away.c */
-- 
2.43.0


From 087539ad53e8db9bb68c19f769bbf52c35233791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:46 +0000
Subject: [PATCH 137/138] fix: finish exiting also with a client on standard
 input

Closing its connection called exit() again, from within the exit handler:
without it being registered yet, nothing was saved.
---
 src/main.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index a61f6f1..7afe8b8 100644
--- a/src/main.c
+++ b/src/main.c
@@ -36,6 +36,7 @@
 /* globals */
 static GMainLoop *main_loop;
 static char *logfile = NULL;
+static struct irc_client *stdio_client = NULL;
 extern char my_hostname[];
 extern struct global *my_global;
 extern help_t *help;
@@ -103,6 +104,11 @@ static void signal_crash(int sig)
 static void clean_exit()
 {
 	char *path;
+
+	/* Exiting already */
+	if (stdio_client != NULL)
+		stdio_client->exit_on_close = FALSE;
+
 	kill_pending_clients("Server exiting");
 
 	g_main_loop_quit(main_loop);
@@ -387,7 +393,6 @@ int main(int argc, char **argv)
 	if (inetd_client) {
 		GIOChannel *io = g_io_channel_unix_new(0);
 		struct irc_network *n;
-		struct irc_client *client;
 
 		if (!strcmp(inetd_client, "")) {
 			n = NULL;
@@ -401,8 +406,8 @@ int main(int argc, char **argv)
 			}
 		}
 
-		client = client_init_iochannel(n, io, "Standard I/O");
-		client->exit_on_close = TRUE;
+		stdio_client = client_ref(client_init_iochannel(n, io, "Standard I/O"));
+		stdio_client->exit_on_close = TRUE;
 	}
 
 	g_main_loop_run(main_loop);
-- 
2.43.0


From 2893f022f43a68f8e0321d30accd4ad3bce18c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:30 +0000
Subject: [PATCH 138/138] fix: do not crash on a configuration file without
 [global]

---
 src/settings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/settings.c b/src/settings.c
index a0b66fa..8c5cc46 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -1826,7 +1826,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 
 	/* Check for unknown parameters */
 	keys = g_key_file_get_keys(kf, "global", NULL, NULL);
-	for (i = 0; keys[i] != NULL; i++) {
+	for (i = 0; keys != NULL && keys[i] != NULL; i++) {
 		if (!config_known_key(keys[i])) {
 			log_global(LOG_WARNING, "Unknown setting `%s' in configuration file", keys[i]);
 		}
-- 
2.43.0

