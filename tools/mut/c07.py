c = 'src/conn.c'
bad('C07', c, 'conn_listen_close:\n	closesocket(priv->sock_fd);\n	priv->sock_fd = INVALID_SOCKET;', 'conn_listen_close:\n	priv->sock_fd = INVALID_SOCKET;')
bad('C07', c, 'conn_listen_close:\n	closesocket(priv->sock_fd);\n	priv->sock_fd = INVALID_SOCKET;', 'conn_listen_close:\n	closesocket(priv->sock_fd);')
bad('C07', c, '	closesocket(priv->sock_fd);\n\n	priv->sock_fd = INVALID_SOCKET;\n\nconn_connect_free_early', '	closesocket(priv->sock_fd);\n\nconn_connect_free_early')
bad('C07', c, '		ret = SOCK_ERRNO;\n		goto conn_connect_free;\n	}\n\n	ret = connect', '		ret = SOCK_ERRNO;\n		priv->sock_fd = INVALID_SOCKET;\n		goto conn_connect_free_early;\n	}\n\n	ret = connect')
bad('C07', c, '	priv->fd = INVALID_SOCKET;\n\n	if (priv->conn_fd != INVALID_SOCKET) {\n		closesocket(priv->conn_fd);\n		priv->conn_fd = INVALID_SOCKET;\n	}\n\n	if', '	if (priv->conn_fd != INVALID_SOCKET) {\n		closesocket(priv->conn_fd);\n		priv->conn_fd = INVALID_SOCKET;\n	}\n\n	if')
bad('C07', c, '		closesocket(priv->sock_fd);\n		priv->sock_fd = INVALID_SOCKET;\n	}\n\n	mutex_unlock(&priv->mutex);\n}\n\nvoid conn_shutdown', '		closesocket(priv->sock_fd);\n	}\n\n	mutex_unlock(&priv->mutex);\n	priv->sock_fd = INVALID_SOCKET;\n}\n\nvoid conn_shutdown')
bad('C07', c, '	mutex_lock(&priv->mutex);\n\n	priv->fd = INVALID_SOCKET;', '	mutex_lock_shared(&priv->mutex);\n\n	priv->fd = INVALID_SOCKET;', 2)
bad('C07', c, '	if (priv->conn_fd != INVALID_SOCKET)\n		shutdown(priv->conn_fd, SHUT_RDWR);\n\n	mutex_unlock_shared(&priv->mutex);\n\n	/* Now', '	mutex_unlock_shared(&priv->mutex);\n\n	/* Now')
bad('C07', c, '	conn_shutdown(conn);\n', '')
bad('C07', c, '	if (priv->conn_fd != INVALID_SOCKET)\n		shutdown(priv->conn_fd, SHUT_RDWR);\n\n	if (priv->sock_fd', '	if (priv->sock_fd')
bad('C07', c, '		shutdown(priv->sock_fd, SHUT_RDWR);\n#if', '		shutdown(priv->sock_fd, 1);\n#if')
bad('C07', c, '	priv->sock_fd = INVALID_SOCKET;\n	priv->conn_fd = INVALID_SOCKET;\n	priv->fd', '	priv->sock_fd = INVALID_SOCKET;\n	priv->fd')
bad('C07', c, '	mutex_lock_shared(&priv->mutex);\n\n	apriv->conn_fd', '	apriv->conn_fd')
bad('C07', c, '	if (apriv->conn_fd == INVALID_SOCKET)\n		return', '	priv->conn_fd = apriv->conn_fd;\n	if (apriv->conn_fd == INVALID_SOCKET)\n		return')
bad('C07', c, '	if (setsockopt(apriv->conn_fd, SOL_TCP, TCP_KEEPCNT, &ten,\n		       sizeof(ten)) == SOCKET_ERROR)', '	if (setsockopt(apriv->conn_fd, SOL_TCP, TCP_KEEPCNT, &ten,\n		       sizeof(ten)) == SOCKET_ERROR) {\n		apriv->conn_fd = -1;\n		return -1;\n	}\n	if (0)')
bad('C07', 'src/proxy_conn.c', '	conn_close(&priv->conn_tcp);\n	worker_wait_idle(&priv->worker_tcp);\n\n	ret = conn_connect', '	worker_wait_idle(&priv->worker_tcp);\n\n	ret = conn_connect')
same('C07', c, '	closesocket(priv->sock_fd);\n\n	priv->sock_fd = INVALID_SOCKET;\n\nconn_connect_free_early', '	{ int h = priv->sock_fd;\n	priv->sock_fd = INVALID_SOCKET;\n	close(h); }\nconn_connect_free_early')
same('C07', c, '	if (priv->sock_fd != INVALID_SOCKET) {\n		closesocket(priv->sock_fd);\n		priv->sock_fd = INVALID_SOCKET;\n	}\n\n	mutex_unlock(&priv->mutex);\n}\n\nvoid conn_shutdown', '	if (priv->sock_fd != INVALID_SOCKET)\n		closesocket(priv->sock_fd);\n	priv->sock_fd = INVALID_SOCKET;\n\n	mutex_unlock(&priv->mutex);\n}\n\nvoid conn_shutdown')
