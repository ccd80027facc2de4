"""Per-property build and run configuration of the harnesses."""
VT = ["time", "g_timeout_add", "g_timeout_add_seconds", "g_timeout_add_full", "g_source_remove"]
MEM = ["mem.c"]
NETW = VT + ["getaddrinfo", "freeaddrinfo", "socket", "connect", "bind", "listen", "setsockopt", "getsockname", "close", "g_io_channel_unix_new", "ssl_get_client_credentials", "ssl_free_client_credentials"]
WORLD = ["mem.c", "vtime.c", "world.c"]
TABLE = {
    "P01": dict(src="p01_line.c"),
    "P02": dict(src="p02_casemap.c"),
    "P03": dict(src="p03_isupport.c"),
    "P04": dict(src="p04_state.c", wrap=["time"]),
    "P05": dict(src="p05_server.c", lib=WORLD, wrap=NETW),
    "P06": dict(src="p06_client.c", lib=WORLD, wrap=NETW),
    "P07": dict(src="p07_attach.c", lib=WORLD, wrap=NETW),
    "P08": dict(src="p08_follow.c", lib=WORLD, wrap=NETW),
    "P09": dict(src="p09_backlog.c", lib=WORLD, wrap=NETW),
    "P10": dict(src="p10_history.c", lib=WORLD, wrap=NETW),
    "P11": dict(src="p11_faults.c", lib=WORLD + ["fsi.c"], wrap=NETW),
    "P12": dict(src="p12_replay.c", lib=WORLD, wrap=NETW),
    "P13": dict(src="p13_replies.c", lib=WORLD, wrap=NETW),
    "P14": dict(src="p14_fanout.c", lib=WORLD, wrap=NETW),
    "P15": dict(src="p15_cache.c", lib=WORLD, wrap=NETW),
    "P16": dict(src="p16_send.c", lib=MEM),
    "P17": dict(src="p17_recv.c", lib=MEM),
    "P18": dict(src="p18_password.c", lib=WORLD, wrap=NETW),
    "P19": dict(src="p19_socks.c", lib=WORLD, wrap=NETW + ["getnameinfo"]),
    "P20": dict(src="p20_register.c", lib=WORLD, wrap=NETW),
    "P21": dict(src="p21_conn.c", lib=WORLD, wrap=NETW + ["socketpair", "fork", "waitpid", "g_child_watch_add", "g_child_watch_add_full"]),
    "P22": dict(src="p22_login.c", lib=WORLD, wrap=NETW),
    "P23": dict(src="p23_keepalive.c", lib=WORLD, wrap=NETW),
    "P24": dict(src="p24_config.c", lib=WORLD, wrap=NETW + ["log_custom_load", "ssl_create_server_credentials"]),
    "P35": dict(src="p24_config.c", cflags="-DMEANING", lib=WORLD, wrap=NETW + ["log_custom_load", "ssl_create_server_credentials"]),
    "P25": dict(src="p25_crash.c", lib=WORLD + ["fsi.c"], wrap=NETW + ["log_custom_load", "ssl_create_server_credentials"]),
    "P26": dict(src="p26_nickserv.c", lib=WORLD, wrap=NETW),
    "P27": dict(src="p27_away.c", lib=WORLD, wrap=NETW),
    "P28": dict(src="p28_ctcp.c", lib=WORLD, wrap=NETW),
    "P29": dict(src="p29_logs.c", lib=WORLD, wrap=NETW + ["fopen", "fopen64", "g_mkdir_with_parents"]),
    "P30": dict(src="p30_hooks.c", lib=WORLD, wrap=NETW),
    "P31": dict(src="p31_admin.c", lib=WORLD, wrap=NETW + ["log_custom_load"]),
    "P32": dict(src="p32_daemon.c", lib=MEM, daemon=["main.c", "user.c", "client.c", "backend.c"],
                wrap=["socket", "connect", "close", "g_io_channel_unix_new", "read_pidfile", "write_pidfile", "exit", "setuid", "setgid", "initgroups", "setgroups",
                      "g_spawn_async_with_pipes", "g_child_watch_add", "g_source_remove", "getpwnam", "setpwent", "getpwent", "endpwent", "signal", "listener_start_tcp", "g_main_loop_run"]),
    "P36": dict(src="p36_offline.c", lib=WORLD, wrap=NETW),
    "P37": dict(src="p37_main.c", lib=WORLD, wrap=NETW + ["g_main_loop_run"], proxy_main=True),
    "P34": dict(src="p34_files.c", lib=WORLD, wrap=NETW),
    "P33": dict(src="p33_url.c"),
}

NOT_APPLICABLE = {}
