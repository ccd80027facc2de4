"""Source of properties.jsonl (run tools/gen.py to regenerate)."""
P = []


def prop(id, title, statement, over, q, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": [over], "text": q}, "why_tests_cant": why, "anchors": a})


prop("P01", "IRC messages pass through parsing and serialisation unchanged",
     "For every message text, parsing it and writing it out again yields the same bytes up to the line terminator (extra blanks after the origin collapse), and reading that again yields the same origin, command and parameters. "
     "A message built from an origin and a list of parameters whose last one is free text (empty, with blanks, or starting with a colon) is read back with exactly those parameters, also after being duplicated or time-stamped; a time stamp only adds the bracketed time before the text and never touches CTCP requests other than actions. "
     "Adding parameters to a message until it is refused never produces a message longer than 512 bytes and never drops or alters a parameter.",
     "inputs", "all wire texts, all parameter lists, all stamped texts",
     "The grammar has many corner cases (colon placement, empty parameters, terminators inside, control characters) whose product no example list covers.",
     ["libirc/line.c", "libirc/line.h"],
     [("parser", "libirc/line.c irc_parse_line"), ("serialiser", "libirc/line.c irc_line_string, requires_colon"), ("time stamps", "libirc/line.c line_prefix_time"), ("append", "libirc/line.c line_add_arg")])

prop("P02", "Names are compared by the server's case mapping, and only as far as asked",
     "Two nick or channel names are treated as the same exactly when they are equal after folding letters, and the additional bracket/tilde pairs, as the announced case mapping says; without an announcement the traditional mapping applies. "
     "A comparison limited to the first n characters looks at no character after the n-th, and command words are compared ignoring ASCII case only.",
     "inputs", "all pairs of names, lengths and mappings",
     "Equality must be right for every pair of bytes in every position under every mapping; tests compare a few words.",
     ["libirc/util.c", "libirc/isupport.c"],
     [("folding comparison", "libirc/util.c str_cmphelper and callers"), ("dispatch on the mapping", "libirc/isupport.c irccmp, ircncmp")])

prop("P03", "Server feature announcements are understood and passed on faithfully",
     "Whatever sequence of feature tokens a server announces (valueless, empty, malformed and unknown ones included), the proxy survives, answers every question about channel prefixes, status prefixes and modes, channel mode types and case mapping according to the last valid announcement or the protocol default, and ignores what is malformed. "
     "What it announces to its own clients repeats every understood token with its value and means the same when parsed again.",
     "inputs", "all sequences of announcement tokens and all queried characters",
     "The parser has about sixty tokens with optional values that interact through shared tables; tests feed single well-formed tokens.",
     ["libirc/isupport.c", "libirc/isupport.h"],
     [("token parser", "libirc/isupport.c network_info_parse"), ("regeneration", "libirc/isupport.c network_info_string"), ("queries", "libirc/isupport.c is_channelname, is_prefix, get_prefix_from_modes, network_chanmode_type")])

prop("P04", "The tracked network state equals what the server has told us",
     "After any sequence of server messages about joins, parts, kicks, quits, renames, modes, topics, names, who, userhost and list replies, away status and our own nick and modes, the proxy's record of channels, members and their status, topics with setter and time, channel modes with key and limit, ban/exception/invite lists, hostmasks and own modes is exactly what those messages say. "
     "Records of different people never merge, nobody who left remains, and names are matched by the case mapping.",
     "histories", "all sequences of server events visible to the user",
     "State errors show only after particular sequences (rename after unseen rename, mode strings mixing parameters, names reply after partial knowledge).",
     ["libirc/state.c", "libirc/state.h"],
     [("message handlers", "libirc/state.c irc_commands table and handlers"), ("mode changes", "libirc/state.c channel_state_change_mode"), ("nick records", "libirc/state.c find_add_network_nick, free_channel_nick")],
     state=[{"name": "tracked record", "meaning": "channels, people, own nick and modes", "where": "libirc/state.h struct irc_network_state"}])

prop("P05", "No message from a server can crash the proxy or corrupt its records",
     "Whatever message a server sends, in whatever state the connection and the records are (missing, empty or surplus parameters, missing or odd origin, unknown channels or people, unsolicited replies, listings out of order), the proxy does not crash or corrupt memory, and goes on serving its clients. "
     "Its records stay consistent: every member of a channel is a known person who knows the channel, every person has a non-empty nick without status prefix, and releasing everything afterwards is clean.",
     "inputs", "all short sequences of well-formed and malformed server messages in every phase",
     "Each of about eighty message kinds times each missing parameter times each prior state is a separate code path; tests feed mostly valid traffic.",
     ["libirc/state.c", "src/network.c", "src/redirect.c", "libirc/redirect.c", "libirc/connection.c", "src/ctcp.c", "src/nickserv.c", "src/log_custom.c", "libirc/client.c"],
     [("server message processing", "src/network.c process_from_server"), ("state handlers", "libirc/state.c"), ("reply routing", "libirc/redirect.c"), ("hooks", "src/hooks.c server filters")])

prop("P06", "No message from a client can crash the proxy",
     "Whatever an attached client sends, with missing, empty or surplus parameters, in any phase (before registration, without a network, while connecting, connected, reconnecting) and including every administration command with any number of parameters, the proxy does not crash or corrupt memory. "
     "Other clients and the server connection remain usable afterwards.",
     "inputs", "all short sequences of client messages and administration commands in every phase",
     "Commands times arity times connection phase is far beyond hand-written cases, and failures are memory errors that need an instrumented run to see.",
     ["src/client.c", "src/admin.c", "src/nickserv.c", "src/ctcp.c", "src/cache.c", "libirc/client.c", "src/redirect.c"],
     [("client message processing", "src/client.c process_from_client"), ("administration", "src/admin.c process_cmd, admin_to_server"), ("cache answers", "src/cache.c client_try_cache")])

prop("P07", "A client that attaches gets an accurate picture of the network state",
     "Whenever a client attaches to a connected network, the registration greeting, feature announcement, joins, topics, names lists, user modes, away status and nick it is sent make an independent IRC client's record equal to the proxy's own record: same nick, channels, members with their highest status, topics with setter and time, and modes. "
     "Names lists of any size are split into messages that fit the protocol's length limit without losing or repeating anybody, and what it then asks for (modes, lists) matches too.",
     "histories", "all reachable tracked states and member list sizes at the time of attaching",
     "The greeting depends on the whole reachable state space of the tracker; tests use one empty or hand-built state.",
     ["libirc/client.c", "src/client.c", "libirc/state.c"],
     [("state transmission", "libirc/client.c client_send_state, client_send_channel_state, client_send_nameslist"), ("greeting", "libirc/client.c, src/client.c")],
     observe=["client connection"])

prop("P08", "Attached clients stay in step with the network, also across reconnects",
     "An attached client that applies the messages it is sent always has the same nick, own user modes, channels, members with their prefixes, topics and network features as somebody reading the server itself, after every server message. "
     "When the connection to the server is lost, it is told in IRC terms that everybody else is gone; once a new connection is logged in and the channels are rejoined, it is back in step: its nick and user modes are those of the new connection, channels that cannot be joined again are parted, and joining again a channel it still had is the only repetition.",
     "histories", "all sequences of server events, disconnects and reconnects",
     "Divergence between two records needs event sequences around disconnects that a test does not enumerate.",
     ["libirc/client.c", "libirc/connection.c", "src/network.c", "src/client.c"],
     [("state difference", "libirc/client.c client_send_state_diff"), ("disconnect", "libirc/connection.c close_server"), ("netsplit", "src/network.c handle_network_state_change and friends")])

prop("P09", "The backlog returns exactly the messages stored, in order",
     "For every sequence of stored messages, markers and range limits, walking the backlog between two markers yields exactly the messages stored in between, in order, unchanged and with their time; a walk restricted to one conversation yields exactly the messages addressed to that channel or nick (also as one of several targets, in any case). "
     "What is kept is everything said by others or the user, except CTCP other than actions, and the events that change channels and people. Time-stamped replays only differ by the stamp.",
     "histories", "all sequences of stores, markers and ranged walks",
     "Off-by-one and boundary errors depend on the position of markers relative to stored messages and index blocks.",
     ["libirc/linestack.c", "libirc/linestack.h"],
     [("storage", "libirc/linestack.c linestack_insert_line"), ("traversal", "libirc/linestack.c linestack_traverse, linestack_traverse_object"), ("markers", "libirc/linestack.c linestack_get_marker")])

prop("P10", "The state at any point of the backlog can be reconstructed",
     "For every point of a stored history, reconstructing the network state at that point gives the state that held when the message there was stored: channels, members and status, topics, modes, lists and people, as far as the kinds of messages the backlog keeps determine them. "
     "This also holds with what was learnt while logging in, across the periodic full snapshots, for names of any length and contents, and after features of the server were announced.",
     "histories", "all stored histories and reconstruction points",
     "Snapshots are taken every thousand messages and serialised field by field; tests never cross a snapshot with interesting state.",
     ["libirc/linestack.c", "libirc/state.c"],
     [("snapshots", "libirc/linestack.c marshall_network_state and friends"), ("replay from snapshot", "libirc/linestack.c linestack_get_state")])

prop("P11", "Backlog storage faults cost at most the backlog",
     "When storing or reading the backlog hits a disk error, a full disk, a short write or a truncated file at any point, the proxy keeps forwarding messages and does not crash, hang or return messages that were never stored. "
     "Messages stored before the fault that are still on disk remain readable.",
     "fault_sequences", "every storage call of a history failing in every way",
     "Error paths run only when a particular system call fails at a particular time.",
     ["libirc/linestack.c", "src/network.c"],
     [("storage calls", "libirc/linestack.c linestack_insert_line, linestack_read_entry, linestack_insert_state, marshall_*")])

prop("P12", "A returning client is replayed exactly the backlog it should get",
     "With each replication method, a client that attaches is sent exactly the messages that method promises: nothing (none), everything since the last message the user said on this connection (simple), everything since the last time a client left (lastdisconnect), or of what was stored since the last attach only the texts containing a configured word (highlight); in order, each once, stamped with the time as configured. "
     "The state it is sent first and the joins and other events replayed leave it with the current nick, channels, members, status and topics. "
     "This holds for every history of messages, attaches, detaches and reconnects; a backlog ends with its server connection, and automatic CTCP replies or connections that never register do not count as the user.",
     "histories", "all sequences of messages, attaches, detaches and reconnects per replication method",
     "Which messages are due depends on the interleaving of client and server events before the attach.",
     ["src/repl_backends.c", "src/repl.c", "libirc/linestack.c", "src/client.c"],
     [("replication methods", "src/repl_backends.c"), ("selection", "src/repl.c client_replicate")])

prop("P13", "Replies reach the client that asked, and only that client",
     "With several clients attached, every reply or error the server gives to a query (who, whois, list, mode, names, topic, stats and so on) is delivered to the client whose query it answers, in order, and not to the others; unsolicited messages go to all (queries naming one target, as clients send them). "
     "This holds when queries of several clients interleave, fail, are of unknown kind, or their client leaves before the answer.",
     "schedules", "all interleavings of queries of several clients, replies and departures",
     "Misrouting needs two outstanding queries and a specific order of replies or a client that has left.",
     ["libirc/redirect.c", "src/redirect.c", "src/client.c"],
     [("outstanding query record", "libirc/redirect.c query_stack_record, query_stack_match_response"), ("delivery", "libirc/redirect.c, src/network.c")])

prop("P14", "Every message is delivered exactly once to everybody concerned",
     "A message from the server reaches every attached client exactly once and unaltered (own nick prefix adapted, texts time-stamped where configured), and a message from a client is sent to the server exactly once and echoed to every other client with the user's full hostmask, not to the sender. "
     "Commands for the proxy itself, probes and CTCP requests are not shown to other clients, and a client that is gone or does not read never costs the others a message.",
     "histories", "all sequences of client and server messages with several clients",
     "Duplicate or missing copies depend on which clients are attached and on the message kind.",
     ["src/network.c", "src/client.c", "libirc/client.c", "libirc/connection.c"],
     [("to clients", "libirc/connection.c, src/network.c clients_send"), ("to server", "src/client.c process_from_client")])

prop("P15", "Answers given from the proxy's own record equal what the server would say",
     "When the proxy answers a client's query itself (channel mode, ban list, names, who, topic), the answer lists exactly what the server reported (user details in WHO may be as old as the configured maximum age), and it is only given when the complete information is known; every other query reaches the server once and unchanged. "
     "Switching the cache off sends every query to the server.",
     "histories", "all tracked states and all queries",
     "A wrong cached answer needs a state in which the information is partial or has changed since.",
     ["src/cache.c", "src/client.c"],
     [("cached answers", "src/cache.c client_try_cache and handlers")])

prop("P16", "Output survives short writes, blocking and disconnection intact",
     "However the operating system accepts the bytes written to a connection (all, some, none for now, or an error), the peer receives every queued message completely, in order and once, as long as the connection lives; and when a write fails, what the peer has received stays an unaltered beginning of it, and the loss is reported at most once. "
     "Closing a connection with unsent messages, from any callback, is memory safe.",
     "fault_sequences", "all patterns of write results and closing points",
     "Kernel buffering outcomes are not controllable in a test and the failures are timing dependent.",
     ["libirc/transport.c", "libirc/transport_ioc.c", "libirc/line.c"],
     [("queue and flush", "libirc/transport_ioc.c transport_send_queue, irc_transport_iochannel_send_line"), ("teardown", "libirc/transport.c, libirc/transport_ioc.c")])

prop("P17", "Input means the same however it is cut into packets",
     "The messages received from a peer depend only on the byte stream, not on how it is cut into reads: each message ends at the line feed (a preceding carriage return is not part of it), no other byte sequence splits a message, empty and malformed lines are skipped, and text is converted as the configured character set says. "
     "A connection closed in the middle of a message delivers the complete messages before it; whether the unfinished rest counts is left open.",
     "schedules", "all byte streams over the relevant bytes and all segmentations",
     "Segmentation is decided by the network; tests write whole lines.",
     ["libirc/transport_ioc.c", "libirc/line.c"],
     [("reading", "libirc/transport_ioc.c handle_transport_receive, libirc/line.c irc_recv_line")])

prop("P18", "Nobody gets through a password-protected listener without the password",
     "On a listener with a password, no sequence of messages gives a connection access to a network or any of its traffic unless it presented the right password, and a right password (with an optional network selection) gives access to exactly the chosen network. "
     "Wrong, missing and repeated passwords are refused with an error, whatever their order and segmentation, and never crash the proxy.",
     "inputs", "all sequences of registration messages and their segmentations",
     "An authentication bypass is a particular sequence of messages; tests try the plain right and wrong cases.",
     ["libirc/listener.c", "src/listener.c"],
     [("password check", "libirc/listener.c handle_client_receive, src/listener.c"), ("network selection", "src/listener.c")])

prop("P19", "The SOCKS front door only opens to allowed users and hosts",
     "On a listener with SOCKS support, every byte sequence leads either to a protocol-conforming refusal or, only after an allowed method and, where required, right credentials, to a connection to the network that serves the requested host. "
     "Messages of any length, cut anywhere, are handled without reading outside them or crashing.",
     "inputs", "all SOCKS byte sequences over the relevant values and segmentations",
     "The protocol is binary with length fields and several states; tests send one canonical exchange.",
     ["libirc/listener.c", "src/listener.c"],
     [("negotiation", "libirc/listener.c handle_client_socks_data and helpers")])

prop("P20", "Client registration completes exactly when it is complete",
     "A new client is registered exactly when it has given both nick and user data (and the password where required), in any order and with any repetitions and other messages in between; before that it sees no traffic and nothing it sends reaches the server. "
     "Its later nick differences are reconciled so that the client knows the nick in use.",
     "schedules", "all orders of registration messages, including failing and repeated ones",
     "The order of messages is up to the client; tests use one order.",
     ["libirc/client.c", "src/client.c"],
     [("registration", "libirc/client.c process_from_pending_client")])

prop("P21", "A network connection is kept up as configured, once, and without leaks",
     "For every sequence of connect, disconnect and next-server requests, connection failures and losses, timeouts and configuration changes, each network has at most one connection (attempt) at a time, an enabled network always has a connection or a pending retry on the servers in turn (one that a client asked for ad hoc and that never logged in may be given up), and a disconnected one stays disconnected. "
     "Sockets, timers and processes (of a network that is a program) of earlier attempts are released.",
     "histories", "all sequences of requests, failures and timer expiries",
     "The connection state machine has four states and asynchronous events; wrong combinations only happen in rare orders.",
     ["libirc/connection.c", "src/network.c"],
     [("state machine", "libirc/connection.c connect_network, disconnect_network, reconnect, close_server")])

prop("P22", "Logging in to a server follows the protocol and ends in the configured state",
     "On every connection the proxy registers with password, nick and user data, tries other nicks as long as the server says that they are in use or unavailable, and once accepted runs the configured commands, joins exactly the channels marked for joining with their keys, and reports the connection as usable; never before. "
     "A change of features, nick or channels during login is respected.",
     "histories", "all sequences of server answers during login",
     "Servers answer in many orders (nick in use several times, no motd, early modes), tests use one.",
     ["libirc/connection.c", "src/network.c"],
     [("login", "libirc/connection.c server_send_login, process_from_server"), ("autojoin", "src/network.c")])

prop("P23", "Dead connections are noticed, live ones are left alone",
     "As long as the server answers, the connection is probed regularly and kept for ever; when nothing arrives for the allowed time it is given up and a reconnect is started. "
     "Server probes are answered immediately with the same text.",
     "schedules", "all orders of traffic and timer expiries",
     "It takes minutes of real time and unlucky timing to see.",
     ["libirc/connection.c"],
     [("keepalive", "libirc/connection.c ping_server")])

prop("P24", "Saving the configuration and loading it again changes nothing",
     "Whatever configuration is in effect, writing it out and reading it back yields the same effective configuration, for every network, server, channel with key, listener with its rules, replication, logging and away setting, including values with special characters and removed settings. "
     "Saving twice yields the same files.",
     "configurations", "all combinations of settings and values, and sequences of change, save and load",
     "The save and load code handles about fifty settings separately; a forgotten or stale one only shows for particular values and histories.",
     ["src/settings.c", "src/keyfile.c", "src/nickserv.c"],
     [("save", "src/settings.c save_configuration"), ("load", "src/settings.c load_configuration")])

prop("P25", "A crash or full disk while saving does not destroy the configuration",
     "If the process or the machine dies, or the disk fills up or fails, at any point while the configuration is being saved, each configuration file on disk is afterwards completely the old or the new one, together they can be loaded, and every network, channel key and password that is in both the old and the new configuration is still there. Saving again later completes. ",
     "crash_points", "every system call of a save as crash or failure point",
     "A test cannot stop the process between two system calls.",
     ["src/settings.c", "src/keyfile.c", "src/nickserv.c"],
     [("writing", "src/settings.c save_configuration, src/nickserv.c nickserv_save, src/keyfile.c")])

prop("P26", "Passwords for the nick service are kept right and sent only to it",
     "With learning on, a password is learned exactly from the IDENTIFY commands the user's clients send to the nick service, kept per nick and network (names compared as on that network, entries for the network before those for all), and sent only to the nick service of a network, as identification for the user's own nick there, after logging in and after the user's own nick changes, unless already registered. "
     "Messages and nick changes of other people, and other texts, never make the proxy disclose a password, and saved passwords are read back unchanged.",
     "histories", "all sequences of identify, register, rename and service messages",
     "Disclosure depends on who sent which text after which history.",
     ["src/nickserv.c", "src/keyfile.c"],
     [("learning and answering", "src/nickserv.c log_data, identify_me, nickserv_find_nick"), ("storage", "src/keyfile.c")])

prop("P27", "The user is marked away when nobody is there, and only then",
     "With automatic away switched on, the user is set away once no client has sent a message (PRIVMSG, NOTICE or AWAY) for the configured time, or at once when a client leaves and no more than the configured number remain, with the configured message and nick; and is set back, with the former nick, as soon as a client is active again or more than that number are attached. "
     "An away status the user set is never changed or lifted. Networks, clients and settings coming and going never confuse this, and the nick for being away is never saved as the user's own.",
     "schedules", "all orders of client activity, attaches, detaches, timer expiries and setting changes",
     "It depends on timers and the order of attaches.",
     ["src/auto_away.c"],
     [("auto away", "src/auto_away.c")])

prop("P28", "CTCP requests and replies are answered or routed correctly",
     "Every well-formed CTCP request from the network is answered by the proxy exactly when no client is there to do so, once, to the sender, with the protocol's answer (PING repeats the whole argument), and handed to all clients otherwise. "
     "A reply goes only to the client that asked that nick (or a channel) for it: if several did, to the one whose request it repeats or else the first; to all clients if none did, it has left, or it asked more than five minutes ago. "
     "Malformed, empty and unknown requests from anybody are harmless.",
     "histories", "all CTCP texts and sequences of requests, replies and departures",
     "Texts come from strangers and requests of departed clients leave records behind.",
     ["src/ctcp.c", "src/ctcp_redirect.c"],
     [("answers", "src/ctcp.c ctcp_process_request"), ("routing", "src/ctcp_redirect.c")])

prop("P29", "Logs record what happened, where configured, and never interfere",
     "Each message from the server, and each text the user sends, that has a format is written to the log once per channel or person concerned (people quitting or changing nick: once per channel shared and for an open query), in the file the name pattern gives (expansions in lower case, without slashes), with the actual sender, target and text in place of each documented letter, empty for what the message does not have; nothing is written for others. "
     "Text from the network never chooses a file outside the configured place, and no message, number of names or file error makes logging crash, alter traffic, keep too many files open or stop later logging.",
     "inputs", "all events, formats and file failures",
     "Formats and event parameters combine freely, and contents come from strangers.",
     ["src/log_custom.c", "src/log_subst.c", "src/log_support.c", "src/log.c"],
     [("events", "src/log_custom.c"), ("substitution", "src/log_subst.c"), ("files", "src/log_support.c")])

prop("P30", "Filters run in priority order and a stopped message goes no further",
     "For every set of registered filters and hooks, a message passes those registered for its kind in order of priority, each exactly once, until one stops it; a stopped message is not processed further and others always are. "
     "Adding and removing filters by name affects only that filter.",
     "histories", "all sequences of registration, removal and messages",
     "Order and removal errors need particular sets of priorities.",
     ["src/hooks.c"],
     [("hooks", "src/hooks.c")])

prop("P31", "Administration commands do what they say",
     "Every administration command with valid parameters has exactly its documented effect on the running configuration (setting, showing and unsetting each setting; adding, removing and switching networks, servers and listeners), visible afterwards in the settings, the listings and (apart from listeners started by hand and the log level, which last until the proxy ends) the saved configuration. "
     "With invalid parameters it reports an error and changes nothing. It does so for every way commands are given: CTRLPROXY, messages to the administration user or channel, and the administration socket. "
     "The sockets in the configuration directory are at their configured path or not opened at all, and no other file is removed for them.",
     "histories", "all sequences of administration commands over the settings",
     "There are about forty commands and settings whose effects interact; few are tested.",
     ["src/admin.c", "src/settings.c"],
     [("commands", "src/admin.c"), ("settings table", "src/admin.c")])

prop("P32", "Users of the shared daemon are confined to their own account",
     "In the multi-user daemon a connection gets access to exactly the user it named and authenticated as; no user name, password or message sequence reads or runs another user's configuration or files outside that user's directory. "
     "Closing either side at any time is safe.",
     "inputs", "all user names, passwords and message sequences",
     "A bypass is one particular string or order.",
     ["daemon/main.c", "daemon/user.c", "daemon/client.c", "daemon/backend.c"],
     [("user lookup", "daemon/user.c"), ("authentication", "daemon/main.c")])

prop("P33", "Server addresses are read and written back consistently",
     "Every server address written as a URL is taken apart into protocol, host, port and encryption as it says (also numeric IPv6 hosts), what is malformed is refused, and writing the address of a server and reading it again gives the same server.",
     "inputs", "all short URLs over the relevant tokens",
     "Tests use a handful of addresses.",
     ["libirc/url.c"],
     [("parse", "libirc/url.c irc_parse_url"), ("create", "libirc/url.c irc_create_url")])

prop("P34", "Key, help and message-of-the-day files are read and written exactly",
     "Key files are read and written such that every entry (nick, network, password) is kept, also after entries were removed and whatever the file looked like; help topics show exactly the text of the help file for that topic and report unknown ones; message-of-the-day files give exactly their lines. "
     "Missing, empty and truncated files are handled without crashing.",
     "inputs", "all small file contents and entry lists",
     "File contents vary in ways (no final newline, comments, empty lines) tests do not enumerate.",
     ["src/keyfile.c", "src/help.c", "src/motd.c"],
     [("key file", "src/keyfile.c"), ("help", "src/help.c"), ("motd", "src/motd.c")])

prop("P35", "A configuration file means what the documentation says",
     "Every setting in the main configuration file, in a network's own file, in the listener file and in the key file takes effect as documented, whichever other settings stand next to it; former names and forms of settings mean what they always meant; and everything that is left out has its documented default. "
     "Hidden and backup files are not networks, and a key for one network is not used on another.",
     "configurations", "all pairs of settings, in all forms",
     "There are about eighty forms of settings, most of which no test loads; a wrong one shows only to the user who uses it.",
     ["src/settings.c", "src/keyfile.c"],
     [("load", "src/settings.c load_configuration"), ("networks", "src/settings.c config_load_networks"), ("listeners", "src/settings.c config_load_listeners"), ("logging", "src/settings.c config_load_log")])

prop("P36", "What can not be sent is refused, never swallowed",
     "Whenever there is no logged-in connection to the server (never connected, connecting, logging in, lost, refused, disconnected) every message and command of a client that would have to go there is answered with exactly one error naming its target or command, to that client alone. None of it is sent later, and what the proxy handles itself keeps working. Once logged in, nothing is refused.",
     "states", "all states of the connection x short sequences of messages",
     "Every state of the connection matters, and what is swallowed is noticed by nobody.",
     ["src/client.c", "src/network.c"],
     [("offline", "src/client.c handle_offline_command"), ("dispatch", "src/client.c process_from_client")])

prop("P37", "Starting, signals and exiting do what they should",
     "With a usable configuration and no other instance running the proxy starts: pid file, both control sockets, listeners and autoconnected networks, each once. With an unusable configuration, a live instance or a listener that can not be opened it says so and exits with an error, without touching the other instance's files; it never crashes. "
     "While it runs, SIGUSR1 saves the present state, SIGHUP reopens the log file in use and tells whoever asked. However it ends (SIGTERM, SIGINT, DIE, the client on standard input leaving), connected servers are told, the sockets are removed, the log is kept to the end, and the configuration is saved exactly if autosave is on, otherwise left as last saved.",
     "histories", "all start situations; all sequences of events up to a depth followed by every way to end",
     "No test runs main(); what is lost at exit depends on what happened before.",
     ["src/main.c", "src/log.c", "src/user.c"],
     [("main", "src/main.c main"), ("exit", "src/main.c clean_exit"), ("log file", "src/log.c init_log")])
