F = 'src/proxyd.c'
bad('D01', F, '''			  opts.config_path, -ret, strerror(-ret));
		goto proxyd_exit;
''', '''			  opts.config_path, -ret, strerror(-ret));
''')
bad('D01', F, '''			  opts.config_path, -ret, strerror(-ret));
		goto proxyd_exit;
''', '''			  opts.config_path, -ret, strerror(-ret));
		return ret;
''')
bad('D01', F, '''			  "Failed to open proxy (%d): %s\\n",
			  -ret, strerror(-ret));
''', '''			  "Failed to open proxy (%d): %s\\n",
			  -ret, strerror(-ret));
		ret = 0;
''')
bad('D01', F, '''			ret = pid;
			goto proxyd_exit;
''', '''			goto proxyd_exit;
''')
bad('D01', F, '''		if (pid > 0)
			exit(0);
''', '''		if (pid > 1)
			exit(0);
''')
bad('D01', F, '''	if (!opts.foreground) {
''', '''	if (!opts.foreground && !opts.debug) {
''')
bad('D01', F, '''		if (sid < 0) {
			ret = errno;
''', '''		if (sid < 0) {
''')
bad('D01', F, '''		if (chdir("/") < 0) {
			ret = errno;
''', '''		if (chdir("/") < 0) {
			ret = 0;
''')
bad('D01', F, '''						if (opts->eventlog ||
						    opts->log_path) {
							fprintf(stderr,
								"ERROR: Only one logging mechanism is allowed\\n");
							exit(-EINVAL);
						}

						opts->syslog = 1;
''', '''						opts->syslog = 1;
''')
bad('D01', F, '''						if (opts->eventlog ||
						    opts->syslog) {
							fprintf(stderr,
								"ERROR: Only one logging mechanism is allowed\\n");
							exit(-EINVAL);
						} else if (arg_len > j + 1) {
''', '''						if (opts->eventlog) {
							fprintf(stderr,
								"ERROR: Only one logging mechanism is allowed\\n");
							exit(-EINVAL);
						} else if (arg_len > j + 1) {
''')
bad('D01', F, '''				fprintf(stderr,
					"ERROR: Config path already specified\\n");
				exit(-EINVAL);
''', '''				fprintf(stderr,
					"ERROR: Config path already specified\\n");
				continue;
''')
bad('D01', F, '''							argv[i][j]);
						exit(-EINVAL);
''', '''							argv[i][j]);
						break;
''')
bad('D01', F, '''		fprintf(stderr, "ERROR: Invalid option '%s'\\n", argv[i]);
		exit(-EINVAL);
''', '''		fprintf(stderr, "ERROR: Invalid option '%s'\\n", argv[i]);
		exit(0);
''')
bad('D01', F, '''		fprintf(stderr, "ERROR: Invalid option '%s'\\n", argv[i]);
		exit(-EINVAL);
''', '''		fprintf(stderr, "ERROR: Invalid option '%s'\\n", argv[i]);
''')
bad('D01', F, '''				for (j = 1; j < arg_len; j++) {
''', '''				for (j = 1; j < 2; j++) {
''')
bad('D01', F, '''				if (strcmp(&argv[i][2], "debug") == 0) {
''', '''				if (strncmp(&argv[i][2], "debug", 3) == 0) {
''')
bad('D01', F, '''							opts->log_path =
								&argv[i][j + 1];
''', '''							opts->log_path =
								&argv[i][j];
''')
bad('D01', 'src/proxy.c', '''	priv->num_clients = 1 + ph->conf.bind_addr_ext_add_len;
''', '''	priv->num_clients = 1 + ph->conf.bind_addr_ext_add_len;
	registration_service_start(&priv->reg_service, &ph->conf);
''')
same('D01', F, '''		if (sid < 0) {
			ret = errno;
''', '''		if (sid == -1) {
			ret = -errno;
''')
same('D01', F, '''	ret = proxy_start(&ph);
	if (ret < 0) {
''', '''	ret = proxy_start(&ph);
	if (ret != 0) {
''')
same('D01', F, '''						} else if (arg_len > j + 1) {
''', '''						} else if (argv[i][j + 1] != '\\0') {
''')
same('D01', F, '''		if (arg_len > 1 && argv[i][0] == '-') {
''', '''		if (argv[i][0] == '-' && argv[i][1] != '\\0') {
''')
same('D01', F, '''	parse_args(argc, argv, &opts);
	if (opts.config_path == NULL) {
''', '''	parse_args(argc, argv, &opts);
	if (!opts.config_path) {
''')
