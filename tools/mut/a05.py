c = 'src/proxy_client.c'
SEND = '''	if (ch->callsign != NULL) {
		ret = conn_send(&priv->conn, (uint8_t *)ch->callsign,
				strlen(ch->callsign));
		if (ret < 0)
			goto proxy_client_connection_exit;
	}

	ret = conn_send(&priv->conn, (uint8_t *)"\\n", 1);
	if (ret < 0)
		goto proxy_client_connection_exit;
		
	ret = conn_send(&priv->conn, response, PROXY_PASS_RES_LEN);
	if (ret < 0)
		goto proxy_client_connection_exit;
'''
RECV = '''	ret = conn_recv(&priv->conn, (uint8_t *)nonce_str,
			sizeof(nonce_str));
'''
bad('A05', c, '		password = "PUBLIC";', '		password = "";')
bad('A05', c, '	if (password == NULL)\n', '	if (password == NULL || *password == 0)\n')
bad('A05', c, 'sizeof(nonce_str));', 'sizeof(nonce_str) - 1);')
bad('A05', c, RECV, '	ret = conn_recv_any(&priv->conn, (uint8_t *)nonce_str,\n			sizeof(nonce_str), NULL, NULL);\n')
bad('A05', c, 'get_password_response(nonce, password', 'get_password_response(nonce, ch->password')
bad('A05', c, 'get_password_response(nonce, password', 'get_password_response(nonce & 0x7fffffff, password')
bad('A05', c, 'strlen(ch->callsign));', 'strlen(ch->callsign) + 1);')
bad('A05', c, 'conn_send(&priv->conn, (uint8_t *)"\\n", 1);', 'conn_send(&priv->conn, (uint8_t *)"\\n", 2);')
bad('A05', c, 'conn_send(&priv->conn, (uint8_t *)"\\n", 1);', 'conn_send(&priv->conn, (uint8_t *)"\\r\\n", 2);')
bad('A05', c, '	ret = conn_send(&priv->conn, (uint8_t *)"\\n", 1);\n	if (ret < 0)\n		goto proxy_client_connection_exit;\n', '	if (ch->callsign != NULL)\n		ret = conn_send(&priv->conn, (uint8_t *)"\\n", 1);\n	if (ret < 0)\n		goto proxy_client_connection_exit;\n')
bad('A05', c, '	ret = conn_send(&priv->conn, response, PROXY_PASS_RES_LEN);\n	if (ret < 0)\n		goto', '	ret = conn_send(&priv->conn, response, PROXY_PASS_RES_LEN);\n	if (ret > 0)\n		goto')
bad('A05', c, 'conn_send(&priv->conn, response, PROXY_PASS_RES_LEN);', 'conn_send(&priv->conn, response, PROXY_PASS_RES_LEN - 1);')
bad('A05', c, 'proxy_client_connection_exit:\n	conn_close(&priv->conn);', 'proxy_client_connection_exit:\n	conn_shutdown(&priv->conn);')
bad('A05', c, 'ch->host_addr, ch->host_port', 'ch->host_addr, "8100"')
same('A05', c, SEND, '''	{
		char msg[64];
		size_t n = 0;

		if (ch->callsign != NULL) {
			n = strlen(ch->callsign);
			if (n > 40) {
				ret = -EINVAL;
				goto proxy_client_connection_exit;
			}
			memcpy(msg, ch->callsign, n);
		}
		msg[n] = '\\n';
		memcpy(&msg[n + 1], response, PROXY_PASS_RES_LEN);
		ret = conn_send(&priv->conn, (uint8_t *)msg, n + 1 + PROXY_PASS_RES_LEN);
		if (ret < 0)
			goto proxy_client_connection_exit;
	}
''')
same('A05', c, '	if (password == NULL)\n		password = "PUBLIC";\n', '	password = password ? password : "PUBLIC";\n')
