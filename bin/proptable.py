NOT_APPLICABLE = []
RT = ["inputs"]

prop("P01", "IRC lines parse and serialise faithfully and stay within the line limit",
     "Any byte string is either rejected or parsed into the origin, command and parameters that the IRC message grammar gives it, and serialising a parsed or composed line and parsing it again yields the same origin and parameters. A composed line leaves as exactly one protocol line, at most 512 bytes including its terminator, and an appended parameter is either carried whole or refused. The nickname of an origin is the part before the '!'.",
     ["inputs"], "every byte string up to several kilobytes, every composition of origin, command and parameters, every sequence of appended parameters",
     "the unit tests parse a few dozen fixed lines; the grammar has to hold for all bytes, lengths and parameter counts",
     ["libirc/line.c", "libirc/line.h"], [("parser and serialiser", "libirc/line.c"), ("bounded append", "libirc/line.c")],
     "property-based testing: reference parser, round trip, metamorphic composition",
     "Assumes lines without NUL bytes; the reference grammar is RFC 1459/2812 with this parser's documented leniency.")

prop("P02", "Server-announced parameters are the ones used and re-advertised",
     "After any sequence of server feature announcements, channel types, membership prefixes, channel mode classes and case mapping are the announced ones (the documented defaults where nothing was announced). What the proxy re-advertises to its own clients says the same: no announced parameter it understands is lost, altered or invented, and reading the advertisement back gives the same answers.",
     ["inputs", "histories"], "every sequence of feature announcements, well-formed or not",
     "the tests try single parameters; combinations, repeats and malformed values are not covered",
     ["libirc/isupport.c", "libirc/isupport.h"], [("announcement parser", "libirc/isupport.c network_info_parse"), ("advertisement", "libirc/isupport.c network_info_string")],
     "property-based testing: reference model of announcements, read-back relation",
     "Parameters contain no blanks.")

prop("P03", "Names are compared under the network's case mapping everywhere",
     "Two nicknames, channels or masks are the same exactly when they are equal after folding with the network's announced case mapping (ascii, rfc1459 or strict-rfc1459), for full and length-limited comparison alike. Comparison is an equivalence consistent with an ordering, and looking up a channel or nickname in the tracked state finds it under every equivalent spelling and under no other.",
     ["inputs"], "every pair and triple of byte strings, every length limit, every case mapping",
     "the tests compare a handful of literal pairs",
     ["libirc/isupport.c", "libirc/state.c"], [("comparison functions", "libirc/isupport.c"), ("lookups", "libirc/state.c find_channel, find_network_nick, find_channel_nick")],
     "property-based testing: fold-based reference, algebraic laws",
     "Bytes outside ASCII fold to themselves.")

prop("P04", "Tracked network state is what a client watching the same lines knows",
     "After any history of server lines, the tracked channels, members, their prefix modes, known nicks with host and real name, channel modes with settings, ban/exception/invite lists, topics, own user modes, away flag and own nick are those a reference IRC client derives from the same lines. Lines no sane server would send never corrupt the tracked state: membership links stay mutual and nothing is tracked twice.",
     ["histories"], "every history of joins, parts, kicks, quits, nick changes, mode and topic changes, names/who/list replies, including rejoins, nick reuse and case variants; every malformed line",
     "the tests feed a few lines each; the state after a line depends on the whole history before it",
     ["libirc/state.c", "libirc/state.h"], [("event handlers", "libirc/state.c state_handle_data"), ("mode changes", "libirc/state.c state_handle_mode"), ("list replies", "libirc/state.c handle_353 and friends")],
     "model-based property testing: simulated server against a reference client model",
     "Replies of the simulated server arrive in one piece; information about someone who changed out of sight is not compared.")

prop("P05", "Nothing a server or a client sends crashes the proxy or stops it from serving",
     "Whatever bytes and lines servers and clients send, in whatever order, connection state and configuration, the proxy neither crashes nor stops serving: afterwards the state it tracks is still consistent, a new client is welcomed, a message from the server reaches it and a command of it reaches the server. A connection that is lost is made again.",
     ["inputs", "histories"], "every sequence of lines and byte strings from the server and up to four clients, interleaved with time passing, clients coming and going and the server connection breaking, for every combination of logging, replication, time reporting, away and charset settings",
     "the tests send a few well-formed lines; crashes need malformed or oddly timed lines in particular states",
     ["src/network.c", "src/client.c", "libirc/state.c", "libirc/connection.c", "src/log_support.c"], [("server lines", "src/network.c process_from_server"), ("client lines", "src/client.c process_from_client"), ("state tracking", "libirc/state.c"), ("logging", "src/log_custom.c")],
     "property-based fuzzing of a whole proxy with grammar-aware lines; sanitizers and a service probe as oracle",
     "Commands that stop the proxy or delete the network on request are not sent; TLS connections are not used.")

prop("P06", "A client that attaches is brought up to date with the session",
     "Whenever a client attaches, in whatever state the session is, it is told enough to know its own nick and modes, the channels the user is on with their topics and members with prefixes, and the server's features; following the lines relayed afterwards it keeps knowing what the proxy knows. Clients attached before the server login completes get the same once it does. Nobody else hears of it.",
     ["histories", "schedules"], "every session history before, between and after clients attach and detach, for every combination of client capabilities and announced server features",
     "the tests attach a client to one fixed state",
     ["libirc/client.c", "src/client.c", "libirc/state.c"], [("sending state", "libirc/client.c client_send_state"), ("welcome", "src/client.c welcome_client"), ("features", "src/client.c client_send_features")],
     "model-based property testing: reference client fed what the attached client receives, compared with the session",
     "Clients attached before the login only under default server features.")

prop("P07", "Every client sees the same session: lines relayed once, in order, unaltered",
     "Each line the server sends reaches every attached client exactly once, in order and with its content unaltered except for the documented ones: lines of the user's own show the client's hostname, and time stamps are added when configured. What a client sends reaches the server once and in order, and messages are shown to the other clients as if they came from the user, but not to the sender. How the bytes were cut up in transit makes no difference.",
     ["histories", "schedules"], "every sequence of server events and client commands with one to four clients that come and go, every way the bytes are split",
     "the tests look at one client and one line",
     ["src/network.c", "src/client.c", "libirc/transport_ioc.c", "src/redirect.c"], [("relaying", "src/network.c process_from_server, network_forward_line"), ("hostname replacement", "src/client.c irc_line_replace_hostmask"), ("time stamps", "libirc/line.c line_prefix_time")],
     "model-based property testing: exact expected stream per connection",
     "Without the reply cache; replies to queries are P08's and P09's. Notices of the proxy itself are not compared.")

prop("P08", "Answers to a client's queries reach that client and no other",
     "When several clients ask the server questions, each reply or error of the server reaches the client whose command it answers, in order, and is not shown to the others; replies that concern everybody may reach everybody. A client that left, a reconnection, or commands that got no reply do not divert later answers.",
     ["histories", "schedules"], "every interleaving of queries and commands of up to five clients with the replies, clients coming and going, and the server connection being made again",
     "the tests feed single numerics to an empty table",
     ["libirc/redirect.c", "src/redirect.c", "src/network.c"], [("matching", "libirc/redirect.c query_stack_match_response"), ("recording", "libirc/redirect.c query_stack_record"), ("delivery", "src/redirect.c redirect_response")],
     "model-based property testing: simulated server answering in order, exact expected delivery",
     "The server answers in order; the first reply is not one an earlier unanswered command could have had as an error (the protocol cannot tell).")

prop("P09", "What the proxy answers from memory is what the server would answer",
     "A query for names, topic, channel modes, bans or who is on a channel is either passed on to the server unchanged or answered to the asking client alone, never both and never neither. An answer given from memory is complete and says what the server would say at that moment, apart from away flags that may be as old as configured; queries the proxy cannot answer are passed on.",
     ["histories"], "every session history before a query, every spelling of channel names, every query form, every cache age setting",
     "the tests do not exercise the cache; whether memory is still accurate depends on the whole history",
     ["src/cache.c", "libirc/client.c", "libirc/state.c"], [("cache decisions", "src/cache.c client_try_cache"), ("answers", "libirc/client.c client_send_*")],
     "model-based property testing: simulated network as the truth for every answer",
     "Membership prefixes hidden by the last list of names are not compared.")

prop("P10", "The stored history gives back what was stored, and nothing else",
     "Every line stored is returned once, in order and byte for byte, between any two remembered positions, for all objects or for one; a position remembered earlier still denotes the same place after any later storing and reading. Opening an existing history again gives what had been stored, and a history cut off at any byte by a crash never makes a read fail wildly or give lines that were never stored.",
     ["histories", "inputs", "crash points"], "every sequence of stored lines, remembered positions and reads by range, limit and object; closing and opening again; files cut at any byte",
     "the tests store a handful of lines in one session",
     ["libirc/linestack.c"], [("storing", "libirc/linestack.c linestack_insert_line"), ("reading", "libirc/linestack.c linestack_traverse, linestack_traverse_object"), ("opening", "libirc/linestack.c create_linestack")],
     "model-based property testing: a plain list of stored lines as the reference",
     "A position after a cut is only required not to invent lines.")

prop("P11", "The state stored with a history is the state at that position",
     "For any remembered position, the session state derived from the history (nick, channels, topics, modes, members, network features) is the state the session really had there, however many lines were stored before or after and also after the history is opened again. Replaying stored lines on it gives the later states.",
     ["histories"], "every session history long enough to cross the points where full states are stored, with positions at and around them",
     "the tests never store enough lines for a full state to be written",
     ["libirc/linestack.c", "libirc/state.c", "src/network.c"], [("state at a position", "libirc/linestack.c linestack_get_state"), ("full states", "libirc/linestack.c linestack_insert_state, marshall_network_state"), ("replay", "libirc/linestack.c linestack_replay_state")],
     "metamorphic property testing: state derived from the history against a copy of the live state taken then",
     "Replies to queries, which are not stored, do not count as state changes; spelling of names is folded.")

prop("P12", "A client that attaches is sent the past the configuration promises",
     "On attaching, a client is sent the messages since a client last left, since the user last said something, the highlighted ones, or none, as configured: each once, in order, unaltered except for the time in front and the user's own hostname; afterwards it knows the present session. Asking for the backlog, of the network or of one channel or nick, gives the messages since it was last asked for. A new login starts a new history.",
     ["histories", "schedules"], "every sequence of messages, clients coming and going, own messages, requests and reconnections, with every replication method and time setting",
     "no existing test involves replication",
     ["src/repl_backends.c", "src/repl.c", "src/client.c", "src/admin.c", "libirc/linestack.c"], [("methods", "src/repl_backends.c *_replicate"), ("sending", "src/client.c client_send_history"), ("on request", "src/admin.c cmd_backlog")],
     "model-based property testing: list of messages with positions as the reference; reference client for the state afterwards",
     "Member modes are not compared after a replay.")

prop("P13", "Only who knows the password gets a session, and gets the one asked for",
     "A connection to a listener gets a session exactly when it gives credentials the configuration accepts (the listener's rules or password, else the general password), by PASS or by SOCKS, and then on the network it asked for or the listener's own. Until then it is told nothing but the errors of the protocol. How its bytes are cut up, what was sent along with the password, and what other connections do makes no difference.",
     ["inputs", "schedules", "configurations"], "every byte sequence of a login, well formed or not, every cutting into packets, several connections at once, every combination of passwords, rules and networks",
     "the tests do not cover the listener",
     ["src/listener.c", "libirc/listener.c", "libirc/client.c"], [("checking", "src/listener.c listener_check_username_password"), ("PASS", "src/listener.c handle_client_line"), ("SOCKS", "libirc/listener.c handle_client_socks_data")],
     "model-based property testing: protocol model predicting every reply and the network of the session",
     "GSSAPI cannot succeed in the sandbox; passwords without colons.")

prop("P14", "Lines get through whole, once and in order, however slow the other side",
     "Every line sent on a connection that stays open arrives completely, once, unaltered and after the lines sent before it, whatever the other side reads and when; closing delivers first what was sent. Incoming lines are the same however the bytes were cut up, none is handled after the session was closed, and the other side leaving is noticed once. A client or server that does not read holds up nobody else.",
     ["schedules", "inputs", "fault points"], "every sequence of sending, partial reading, pausing, closing and leaving; every cutting of incoming bytes; lines of any length",
     "the tests never fill a socket; whether anything is lost depends on where exactly writing had to stop",
     ["libirc/transport_ioc.c", "libirc/transport.c", "libirc/line.c"], [("sending", "libirc/transport_ioc.c irc_transport_iochannel_send_line, transport_send_queue"), ("receiving", "libirc/transport_ioc.c handle_transport_receive"), ("closing", "libirc/transport_ioc.c irc_transport_iochannel_disconnect")],
     "stateful property testing over real sockets with small buffers: the bytes received must be the bytes sent",
     "An unfinished line at the end of a connection may be handled as a line or not.")

prop("P15", "Everybody reads the same text, each in a character set of their own",
     "A line sent by one side arrives at every other side with the same text, written in the character set that side uses, or in the default one if it never chose. A line that is not valid in the sender's character set is refused with an error and handled by nobody; one that cannot be written in the receiver's is left out for that receiver only. Neither affects any other line, and choosing an unknown character set changes nothing.",
     ["inputs", "histories"], "every mix of character sets among clients, every text and byte sequence, changes of the character set at any point, stateful encodings",
     "no test sets a character set; a conversion error shows only in the lines after it",
     ["libirc/line.c", "libirc/transport_ioc.c", "src/client.c", "src/admin.c", "src/network.c"], [("conversion", "libirc/line.c irc_send_line, irc_recv_line"), ("setting", "libirc/transport_ioc.c irc_transport_iochannel_set_charset"), ("default", "src/client.c client_init"), ("choosing", "src/admin.c cmd_charset")],
     "differential property testing: a fresh conversion of every single line as the reference",
     "Conversions are iconv's own; only character sets that contain ASCII.")

prop("P16", "CTCP requests are answered for the user exactly while nobody is attached",
     "While no client is attached, every well formed CTCP request is answered once, to the one who asked, with the right content, and unknown ones with an error; malformed or anonymous ones and replies are never answered. While a client is attached the proxy answers nothing and passes requests and replies to the clients unchanged. What clients themselves ask is passed on once, and answers arriving after they left do no harm.",
     ["histories", "inputs"], "every sequence of requests and replies of any form, clients coming and going, and reconnections",
     "the tests cover only the parsing of the command word",
     ["src/ctcp.c", "src/ctcp_redirect.c", "src/network.c", "src/client.c"], [("answers", "src/ctcp.c ctcp_process_request"), ("replies", "src/ctcp_redirect.c ctcp_network_redirect_response"), ("who answers", "src/network.c process_from_server")],
     "model-based property testing: reference answers",
     "An unknown request may be answered with an error of any text.")

prop("P17", "Passwords for nicks are learnt, kept and used for the right nick and network",
     "A password the user gives to the nick service is learnt for the current nick on that network, if enabled; it replaces the earlier one, goes before one known for all networks, and survives saving and loading byte for byte in a file nobody else can read. It is given to the service after login, and when the user gets the nick asked for, unless identified already; never for another nick or network, and never because of what somebody else does.",
     ["histories", "inputs"], "every sequence of identifying, nick changes by the user, by the server and by others, reconnections, saving and loading; every content of the file",
     "no existing test covers it",
     ["src/nickserv.c", "src/keyfile.c"], [("using", "src/nickserv.c nickserv_identify_me, nickserv_find_nick"), ("learning", "src/nickserv.c cache_nickserv_pass, log_data"), ("keeping", "src/keyfile.c keyfile_read_file, keyfile_write_file")],
     "model-based and round-trip property testing",
     "Fields without tabs and line ends; after login only while a client is attached.")

prop("P18", "What is configured is what is loaded, and what is saved is loaded next time",
     "Loading a configuration gives what its files say, and saving it and loading it again gives the same settings, networks, servers, channels, listeners and logging, whatever was changed, added, renamed, unset or deleted in between. A save that fails says so and loses nothing saved before; a file with arbitrary content is loaded or refused but never stops the proxy. Server addresses given as a URL mean the same host, port and kind of connection after being saved.",
     ["inputs", "histories", "fault points"], "every configuration, every sequence of edits, saves and loads, every point at which writing runs out of space, every file content",
     "the tests load a handful of fixed settings; most settings are never saved and read back",
     ["src/settings.c", "libirc/url.c", "src/keyfile.c"], [("loading", "src/settings.c load_configuration, config_load_networks"), ("saving", "src/settings.c save_configuration, config_save_networks"), ("addresses", "libirc/url.c irc_parse_url, irc_create_url")],
     "model-based round-trip property testing with injected write failures",
     "One section per server address and file; no listeners using TLS; values without form feeds and vertical tabs; a setting given twice may take either value.")

prop("P19", "The log files hold what happened, once, where it belongs",
     "With logging enabled, every message and channel event is written exactly once to the file of each channel and conversation it belongs to, formatted as configured, and nothing else is. Names and texts taken from the network never lead outside the log directory; after a SIGHUP new files are used. A file that cannot be written affects no other, and only a limited number of files is held open.",
     ["inputs", "histories", "fault points"], "every sequence of messages and events in any number of channels and conversations, every format and file name pattern, every text and name, rotation and unwritable directories at any point",
     "the tests expand three formats and write no file",
     ["src/log_custom.c", "src/log_subst.c", "src/log_support.c", "src/settings.c"], [("where", "src/log_custom.c log_custom_data"), ("formats", "src/log_subst.c custom_subst"), ("files", "src/log_support.c log_support_write")],
     "model-based property testing: the expected content of every file",
     "Lines of one event in one file may come in any order; names differing only in []\\~ and {}|^ are not treated as one.")

prop("P22", "Connections to servers come up, log in, are watched and come back",
     "A network that is to be connected gets exactly one connection: servers are tried in turn, each after the configured interval, until one answers, and again when a connection is lost or the server has been silent for too long; a responsive server is never dropped. Each login uses the password, address and nick that apply, then sends the configured commands and joins every channel the user was in or configured, with its key. After the user disconnects nothing is connected until asked for.",
     ["histories", "schedules", "fault points"], "every sequence of losses, silences, refused and failing servers, requests by the user, changes of nick and channels, at every moment of logging in",
     "the tests never lose a connection, and never let time pass",
     ["libirc/connection.c", "src/network.c", "src/gen_config.c", "src/admin.c"], [("connecting", "libirc/connection.c connect_network, connect_server, network_disconnected"), ("watching", "libirc/connection.c ping_server"), ("logging in", "libirc/connection.c server_finish_connect; src/network.c process_from_server"), ("remembering", "src/gen_config.c network_update_config")],
     "model-based stateful property testing under virtual time, over real loopback connections",
     "Which server is used at the user's request and whether a first attempt failing at once is repeated are not laid down; only loopback addresses.")

prop("P21", "Administration commands do what they are told, through every interface",
     "A command given by a client, by a message to the administration user, on the administration network or over the control socket has the same effect and the same answer, and the answer goes to the one asking only. Networks, servers, listeners and settings afterwards are exactly those the commands so far give, refused commands change nothing, and saving writes that, in a restricted proxy only to its own directory. Nothing said by others on a network is taken for a command, and no command with any arguments stops the proxy, not even one removing what it was given through.",
     ["histories", "inputs"], "every sequence of commands through all interfaces in turn, every argument, commands in pieces and several at once, removal and renaming of networks and clients in use, every help file",
     "the tests give a dozen commands without any client or network, each once",
     ["src/admin.c", "src/network.c", "src/help.c", "src/listener.c"], [("commands", "src/admin.c process_cmd and the cmd_ functions"), ("interfaces", "src/admin.c admin_process_command, admin_to_server, handle_client_data"), ("settings", "src/admin.c cmd_set, cmd_unset"), ("removal", "src/network.c unload_network")],
     "model-based stateful property testing, one model for four interfaces, and fuzzing of arguments and help files",
     "DIE is not given; the wording of complaints about refused settings is not laid down; changing logging is not implemented.")

prop("P24", "The user is marked away when idle and back on saying something",
     "With automatic away enabled, every network is marked away, with the configured text and nick, once the user has said nothing anywhere for longer than the configured time, and not before; while more clients are attached than the limit allows it is not marked, and a client attaching beyond it ends it. When the user says something on any network, every network is marked as back, once. Nothing that others, servers or the proxy itself do counts as the user being there.",
     ["histories", "schedules"], "every sequence of messages by the user and others, clients coming and going, connections lost and made, over any number of networks, limits and times",
     "no existing test covers it; it takes the passing of time",
     ["src/auto_away.c", "src/network.c", "src/client.c"], [("idle", "src/auto_away.c check_time"), ("back", "src/auto_away.c auto_away_user_line; src/network.c network_forward_line"), ("limit", "src/auto_away.c new_client, lose_client")],
     "model-based stateful property testing under virtual time",
     "Servers confirm AWAY at once; a client leaving may set the user away at once if a limit is set; saying something ends an AWAY set by the user too.")

prop("P23", "Clients survive the loss of the server, and know the truth afterwards",
     "When the connection to the server is lost, attached clients stay attached and are shown everybody else leaving. Until it is back, every command for the server is answered with an error and reaches neither a server nor another client. Once connected again each client, whenever it attached, knows the nick, modes, channels and members as one newly attached does.",
     ["histories", "fault points"], "every history of a channel population, the connection lost at every point of it and of logging in again, clients attaching, leaving and giving commands meanwhile, any nick, modes and channels after reconnecting",
     "no existing test loses a connection with clients attached",
     ["src/network.c", "src/client.c", "libirc/client.c"], [("loss", "src/network.c handle_network_disconnect; libirc/client.c client_send_netsplit"), ("meanwhile", "src/client.c process_from_client, handle_offline_command"), ("back", "src/network.c process_from_server; libirc/client.c client_send_state")],
     "model-based stateful property testing over real connections: a reference client compared with the server's truth, with injected connection loss",
     "PING, CTRLPROXY and the other commands the proxy answers itself are answered as always.")

prop("P25", "The daemon leads everybody to their own proxy, and only there",
     "A client logging in at the daemon, directly or by SOCKS, is connected to the proxy of exactly the user it names, which decides on the password; once accepted, every line passes unchanged, in order and once in both directions, and when either side goes the other is told. Names that are no user's lead nowhere, no matter how they are spelled, and start nothing; the proxy of an existing user is started when it is not running. Nothing a client or a proxy sends or leaves out affects the other sessions.",
     ["inputs", "histories", "schedules"], "every sequence of logins, refusals, messages and departures of several clients and proxies at every moment, every user name, password and host name, and arbitrary bytes from both sides, in any pieces",
     "no existing test starts the daemon",
     ["daemon/main.c", "daemon/backend.c", "daemon/client.c", "daemon/user.c", "libirc/listener.c"], [("logging in", "daemon/main.c handle_client_line, daemon_socks_auth_simple; daemon/backend.c daemon_backend_recv"), ("users", "daemon/user.c get_daemon_user, daemon_user_start"), ("relaying", "daemon/main.c daemon_client_recv, backend_recv"), ("ending", "daemon/client.c daemon_client_kill")],
     "model-based stateful property testing of the daemon process, with stand-in proxies and with the real one, and fuzzing of both protocols",
     "What a client sends between its login and the answer is not laid down; GSSAPI, TLS and system accounts are not used.")

prop("P26", "The proxy ends in good order and starts again as it was left",
     "Told to end, at whatever moment and however often, the proxy ends, tells servers and clients and leaves nothing behind but what is to be saved; a signal to save or to reopen the logs loses no line, and the log goes on in the file of its name. Started again after having saved, even after being killed, it connects to the same networks with the same nick, channels, keys and settings; started while it is running it refuses and disturbs nothing. A first configuration made with --init is what was asked for, and no configuration, wrong as it may be, makes it crash or touch what is not its own.",
     ["histories", "schedules", "fault points"], "every sequence of messages, joining and leaving, changes of nick and settings, signals in bursts, saving, losing the server, killing and starting again, with or without a client on standard input, a log file and logging of channels",
     "no existing test starts the program",
     ["src/main.c", "src/log.c", "src/gen_config.c", "src/util.c", "src/listener.c"], [("ending", "src/main.c clean_exit, signal_quit"), ("saving", "src/main.c signal_save; src/gen_config.c global_update_config"), ("logs", "src/main.c signal_hup; src/log.c init_log"), ("one at a time", "src/util.c read_pidfile, write_pidfile; src/listener.c start_unix_domain_socket_listener")],
     "model-based stateful property testing of the whole program over signals, kills and restarts",
     "Reuse of a process number after a crash is not covered; running in the background is not used; the IRC server does as it is asked.")

prop("P27", "Encrypted connections carry the same as plain ones and nothing in the clear",
     "Over TLS, to a server or from a client, every line gets through whole, once and in order, in any records and pieces, through changes of keys and however slow the other side is. To a server or client without TLS, or sending nonsense, nothing is ever said unencrypted and nothing it says is obeyed; the proxy goes on and tries again, keeping no files open. A listener presents the certificate it was given, or one it made and keeps; one that cannot be used does not crash the proxy or open a listener without encryption.",
     ["inputs", "schedules", "fault points"], "every sequence of lines both ways, cut into records and the records into pieces at any byte, several versions and ciphers, slow handshakes, blocked readers, changes of keys, peers without TLS, lost connections and refused ones, and missing, damaged or swapped certificate files",
     "no existing test uses encryption",
     ["libirc/gnutls.c", "src/tlscert.c", "libirc/connection.c", "libirc/listener.c", "libirc/transport_ioc.c", "src/listener.c"], [("reading and writing", "libirc/gnutls.c _gnutls_read, _gnutls_write, gnutls_create_watch"), ("connecting", "libirc/connection.c connect_current_tcp_server"), ("listening", "libirc/listener.c listener_new_pending_client; src/listener.c listener_init"), ("certificate", "src/tlscert.c ssl_create_server_credentials")],
     "stateful property testing with an own TLS peer whose records are cut at any byte, against the lists of lines sent, and fuzzing of the certificate files",
     "Certificates of servers are not verified by the proxy; Diffie-Hellman parameters are taken from RFC 7919 rather than generated.")

prop("P28", "The administration network is a network like any other",
     "Every client on an administration network at all times sees itself and the proxy's own user on the administration channel with its topic, whatever anybody sends and however clients come and go. Every command is answered as a server would, whatever the case of the names in it, to who gave it only, and what one client says on the channel the others are shown once. With administration logging on, whatever is logged of at least informational weight is shown on the channel of every such network once and in order; nothing else is ever shown there unasked.",
     ["histories", "inputs"], "every sequence of clients coming and going, of JOIN, PART, WHO, ISON, USERHOST, WHOIS, AWAY, NAMES, TOPIC, messages and unknown or incomplete commands, and of things logged at any weight, with one or two such networks, any level of the log, with and without a cache",
     "no existing test has a client on the administration network",
     ["src/admin.c", "src/log.c", "libirc/connection.c"], [("commands", "src/admin.c admin_to_server"), ("channel", "src/admin.c admin_net_init"), ("logging", "src/admin.c admin_log; src/log.c log_entry")],
     "model-based stateful property testing: exact answers, a reference client per connection and the log file as the model of what is shown",
     "MODE is not answered by the administration network and not used; what is logged has no line breaks in it.")
