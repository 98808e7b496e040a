F = 'src/proxyd.c'
P = 'src/proxy.c'
bad('D02', F, '''	sigaction(SIGTERM, &sigact, NULL);
''', '')
bad('D02', F, '''	if (signum == SIGTERM || signum == SIGINT)
		sentinel = 1;
''', '''	if (signum == SIGTERM)
		sentinel = 1;
''')
bad('D02', F, '''	if (signum == SIGTERM || signum == SIGINT || signum == SIGUSR1)
		proxy_shutdown''', '''	if (signum == SIGTERM || signum == SIGUSR1)
		proxy_shutdown''')
bad('D02', F, '''	while (ret == 0 && sentinel == 0) {
''', '''	while (ret == 0) {
''')
bad('D02', F, '''				while (!sentinel) {
''', '''				while (1) {
''')
bad('D02', F, '''			default:
				proxy_log(&ph, LOG_LEVEL_FATAL,
''', '''			default:
				sentinel = 0;
				ret = 0;
				proxy_log(&ph, LOG_LEVEL_FATAL,
''')
bad('D02', F, '''	proxy_log(&ph, LOG_LEVEL_INFO, "Shutting down...\\n");
''', '''	proxy_log(&ph, LOG_LEVEL_INFO, "Shutting down...\\n");
	if (sentinel)
		return 0;
''')
bad('D02', P, '''	proxy_update_registration(ph);

	conn_shutdown(&priv->conn_listen);
''', '''	proxy_update_registration(ph);
''')
bad('D02', P, '''	if (ret == -ECONNABORTED) {
''', '''	if (ret == -ECONNRESET) {
''')
bad('D02', P, '''			  "Dropping client because there are no available slots.\\n");
		ret = 0;
''', '''			  "Dropping client because there are no available slots.\\n");
		ret = -EBUSY;
''')
bad('D02', 'src/conn.c', '''	if (priv->conn_fd != INVALID_SOCKET)
		shutdown(priv->conn_fd, SHUT_RDWR);

	if (priv->sock_fd != INVALID_SOCKET) {
''', '''	if (priv->conn_fd != INVALID_SOCKET) {
		shutdown(priv->conn_fd, SHUT_RDWR);
	} else if (priv->sock_fd > 2) {
''')
bad('D02', 'src/conn.c', '''	apriv->remote_addr_len = sizeof(apriv->remote_addr);

	mutex_lock_shared(&priv->mutex);
''', '''	apriv->remote_addr_len = sizeof(apriv->remote_addr);

	mutex_lock(&priv->mutex);
''')
bad('D02', 'src/conn.c', '''	mutex_unlock_shared(&priv->mutex);

	if (apriv->conn_fd == INVALID_SOCKET)
		return SOCK_ERRNO;
''', '''	mutex_unlock_shared(&priv->mutex);

	if (apriv->conn_fd == INVALID_SOCKET)
		return -EIO;
''')
same('D02', F, '''			case -EINTR:
				ret = 0;
''', '''			case -EINTR:
				ret = 0;
				if (sentinel)
					break;
''')
same('D02', F, '''	if (signum == SIGTERM || signum == SIGINT)
		sentinel = 1;

	if (signum == SIGTERM || signum == SIGINT || signum == SIGUSR1)
		proxy_shutdown(&ph);
''', '''	switch (signum) {
	case SIGTERM:
	case SIGINT:
		sentinel = 1;
		/* fallthrough */
	case SIGUSR1:
		proxy_shutdown(&ph);
		break;
	}
''')
same('D02', F, '''	if (signum == SIGTERM || signum == SIGINT)
		sentinel = 1;
''', '''	if (ph.priv == NULL)
		return;
	if (signum != SIGUSR1)
		sentinel = 1;
''')
same('D02', F, '''	while (ret == 0 && sentinel == 0) {
''', '''	for (;;) {
		if (ret != 0 || sentinel)
			break;
''')
same('D02', P, '''	if (ret == -ECONNABORTED) {
''', '''	if (ret == -EINTR)
		goto conn_process_exit;
	if (ret == -ECONNABORTED || ret == -EPROTO) {
''')
