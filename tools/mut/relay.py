p = 'src/proxy_conn.c'
# F01
bad('F01', p, 'case PROXY_MSG_TYPE_UDP_DATA:\n		return process_data_message', 'case PROXY_MSG_TYPE_UDP_DATA:\n	case PROXY_MSG_TYPE_TCP_STATUS:\n		return process_data_message')
bad('F01', p, '		return process_data_message(pc, msg);', '		return process_control_data_message(pc, msg);')
bad('F01', p, '			  msg->type);\n		return -EINVAL;', '			  msg->type);\n		return 0;')
bad('F01', p, 'priv->buff, sizeof(struct proxy_msg));\n	if (ret < 0) {', 'priv->buff, sizeof(struct proxy_msg));\n	if (ret < 0 && ret != -EINTR) {')
bad('F01', p, 'priv->buff, sizeof(struct proxy_msg));', 'priv->buff, 8);')
bad('F01', p, '	(void)msg;\n\n	conn_close(&priv->conn_tcp);', '	(void)msg;\n\n	if (msg->size == 0)\n		conn_close(&priv->conn_tcp);')
bad('F01', p, '	(void)msg;\n\n	conn_close(&priv->conn_tcp);', '	(void)msg;\n\n	conn_close(&priv->conn_data);')
bad('F01', p, '			conn_close(&priv->conn_tcp);\n	}\n\n	status_msg->type', '			return ret;\n	}\n\n	status_msg->type')
bad('F01', 'src/proxy.c', '	} while (ret >= 0);\n\n	proxy_log(pw', '	} while (ret >= 0 || ret == -EINVAL);\n\n	proxy_log(pw')
same('F01 F02 F03 F04 F05', p, '''	switch (msg->type) {
	case PROXY_MSG_TYPE_TCP_OPEN:
		return process_tcp_open_message(pc, msg);
	case PROXY_MSG_TYPE_TCP_DATA:
		return process_tcp_data_message(pc, msg);
''', '''	if (msg->type == PROXY_MSG_TYPE_TCP_DATA)
		return process_tcp_data_message(pc, msg);
	if (msg->type == PROXY_MSG_TYPE_TCP_OPEN)
		return process_tcp_open_message(pc, msg);
	switch (msg->type) {
''')
# F02
bad('F02', p, '	msg->type = PROXY_MSG_TYPE_UDP_DATA;', '	msg->type = PROXY_MSG_TYPE_UDP_CONTROL;')
bad('F02', p, 'conn_recv_any(&priv->conn_data, buf + sizeof(*msg),', 'conn_recv_any(&priv->conn_data, buf + sizeof(*msg) - 1,')
bad('F02', p, '			msg->address = addr;\n', '', 2)
bad('F02', p, '''			mutex_lock(&priv->mutex_client_send);

			ret = conn_send(priv->conn_client, (uint8_t *)msg,
					sizeof(*msg) + msg->size);

			mutex_unlock(&priv->mutex_client_send);
''', '''			ret = conn_send(priv->conn_client, (uint8_t *)msg,
					sizeof(*msg) + msg->size);
''', 3)
bad('F02', p, '			mutex_lock(&priv->mutex_client_send);\n', '			mutex_lock_shared(&priv->mutex_client_send);\n', 2)
bad('F02', p, 'sizeof(*msg) + msg->size);', 'sizeof(buf));', 3)
bad('F02', p, '	message.size = 0;', '	message.size = 4;')
bad('F02', p, '	mutex_lock(&priv->mutex_client_send);\n\n	ret = conn_send(priv->conn_client, status_buf', '	ret = conn_send(priv->conn_client, status_buf')
bad('F02', p, '			msg->size = ret;\n', '			msg->size = ret & 0x7ff;\n', 2)
bad('F02', p, '		if (ret > 0) {\n', '		if (ret > 1) {\n', 2)
bad('F02', 'src/conn.c', '	if (addr != NULL && ret > 0)', '	if (addr != NULL && ret > 1)')
bad('F02', 'src/conn.c', '*addr = ((struct sockaddr_in *)&priv->remote_addr)->sin_addr.s_addr;', '*addr = ntohl(((struct sockaddr_in *)&priv->remote_addr)->sin_addr.s_addr);')
bad('F02', p, 'message.type = PROXY_MSG_TYPE_TCP_CLOSE', 'message.type = PROXY_MSG_TYPE_TCP_DATA')
# F03
bad('F03', p, '		msg_size -= ret;\n', '		msg_size -= curr_msg_size > 4000 ? 4000 : curr_msg_size;\n', 1)
bad('F03', p, '			/*! @TODO Drop? */\n', '			return 0;\n', 2)
bad('F03', p, '(void *)msg, ret, addr, 5198)', '(void *)msg, ret, addr, 5199)')
bad('F03', p, '(void *)msg, ret, addr, 5198)', '(void *)msg, ret, msg->address, 5198)')
bad('F03', p, '(void *)msg, ret, addr, 5199)', '(void *)msg, curr_msg_size - 1, addr, 5199)')
bad('F03', p, '	size_t msg_size = msg->size;\n	size_t curr_msg_size;', '	size_t msg_size = (uint16_t)msg->size;\n	size_t curr_msg_size;')
bad('F03', p, '	if (tcp_ret != 0)\n		send_tcp_close(pc);\n', '')
bad('F03', p, '				conn_close(&priv->conn_tcp);\n			}\n		}', '				conn_close(&priv->conn_tcp);\n				break;\n			}\n		}')
bad('F03', p, '		if (tcp_ret == 0) {', '		if (1) {')
bad('F03', p, '		else if (ret == 0)\n			return -EPIPE;\n\n		msg_size -= ret;\n\n		/* Send the data */\n		if', '		else if (ret == 0)\n			return -EPIPE;\n\n		msg_size -= ret;\n		if (msg_size == 1) { msg_size = 0; }\n		if')
bad('F03', p, '		if (ret < 0)\n			return ret;\n', '		if (ret < 0)\n			return 0;\n', 2)
bad('F03', 'src/conn.c', 'saddr.sin_port = htons(port);', 'saddr.sin_port = port;')
bad('F03', 'src/conn.c', 'saddr.sin_addr.s_addr = addr;', 'saddr.sin_addr.s_addr = htonl(addr);')
bad('F03', 'src/conn.c', 'saddr.sin_family = AF_INET;', 'saddr.sin_family = AF_INET6;')
# F04
bad('F04', p, '	conn_close(&priv->conn_tcp);\n	worker_wait_idle(&priv->worker_tcp);\n\n	ret = conn_connect', '	conn_close(&priv->conn_tcp);\n\n	ret = conn_connect')
bad('F04', p, '	conn_close(&priv->conn_tcp);\n	worker_wait_idle(&priv->worker_tcp);\n\n	ret = conn_connect', '	worker_wait_idle(&priv->worker_tcp);\n	conn_close(&priv->conn_tcp);\n\n	ret = conn_connect')
bad('F04', p, '(const char *)addr, "5200")', '(const char *)addr, "5199")')
bad('F04', p, '(uint16_t)addr_sep[0], (uint16_t)addr_sep[1],', '(uint16_t)addr_sep[1], (uint16_t)addr_sep[0],')
bad('F04', p, '	status_msg->size = 4;\n', '	status_msg->size = 4;\n	if (ret == -ECONNREFUSED)\n		ret = 0;\n')
bad('F04', p, '		if (ret < 0)\n			conn_close(&priv->conn_tcp);\n	}\n\n	status', '	}\n\n	status')
bad('F04', p, '	conn_close(&priv->conn_tcp);\n\n	send_tcp_close(pc);', '	conn_close(&priv->conn_tcp);\n\n	if (ret != -EPIPE)\n		send_tcp_close(pc);')
bad('F04', p, '	conn_close(&priv->conn_tcp);\n\n	send_tcp_close(pc);', '	send_tcp_close(pc);')
bad('F04', p, '	} else {\n		/* Connection succeeded', '		send_tcp_close(pc);\n		return 0;\n	} else {\n		/* Connection succeeded')
bad('F04', p, 'priv->conn_data.source_port = pc->data_port;', 'priv->conn_data.source_port = pc->control_port;')
bad('F04', p, 'priv->conn_control.source_addr = pc->source_addr;', 'priv->conn_control.source_addr = NULL;')
bad('F04', 'src/proxy.c', 'data_port = "5198"', 'data_port = "5199"')
bad('F04', p, 'memcpy(status_buf + sizeof(*status_msg), &ret, 4);', 'memcpy(status_buf + sizeof(*status_msg), &ret, 1);')
# F05
bad('F05', p, '	worker_wait_idle(&priv->worker_data);\n', '')
bad('F05', p, '	proxy_conn_drop(pc);\n\n	conn_close(&priv->conn_control);', '	conn_close(&priv->conn_control);')
bad('F05', p, '	conn_close(&priv->conn_tcp);\n\n	worker_wait_idle(&priv->worker_tcp);', '	worker_wait_idle(&priv->worker_tcp);\n	conn_close(&priv->conn_tcp);\n')
bad('F05', p, '	mutex_lock(&priv->mutex_client);\n\n	priv->conn_client = NULL;', '	mutex_lock_shared(&priv->mutex_client);\n\n	priv->conn_client = NULL;')
bad('F05', p, '				conn_close(&priv->conn_data);\n', '')
bad('F05', p, '				case -EPIPE:\n					break;\n				default:\n', '				case -EPIPE:\n				case -ETIMEDOUT:\n					break;\n				default:\n', 2)
bad('F05', p, '		proxy_conn_drop(pc);\n		break;\n	}\n\n	conn_close(&priv->conn_data)', '		break;\n	}\n\n	conn_close(&priv->conn_data)')
bad('F05', p, 'priv->worker_data.func_ptr = forwarder_data', 'priv->worker_data.func_ptr = forwarder_control')
bad('F05', p, '		proxy_log(pc->ph, LOG_LEVEL_ERROR,\n			  "Failed to signal UDP data forwarder. Dropping...\\n");\n		goto proxy_conn_accept_exit;', '		mutex_lock(&priv->mutex_client);\n		priv->conn_client = NULL;\n		mutex_unlock(&priv->mutex_client);\n		return ret;')
same('F05 F04', p, '	conn_close(&priv->conn_control);\n	conn_close(&priv->conn_data);\n	conn_close(&priv->conn_tcp);\n\n	worker_wait_idle(&priv->worker_tcp);', '	conn_close(&priv->conn_tcp);\n	worker_wait_idle(&priv->worker_tcp);\n	conn_close(&priv->conn_control);\n	conn_close(&priv->conn_data);\n')
# a relay goes on exactly as long as both sides do; every address can be opened
bad('F02', p, '			if (ret < 0) {\n				conn_close(&priv->conn_data);', '			if (!(ret < 0)) {\n				conn_close(&priv->conn_data);')
bad('F02', p, '	} while (ret >= 0);', '	} while (ret > 5);', 2)
bad('F05', p, '		} else if (ret == 0) {\n			ret = -EPIPE;\n		}\n', '		}\n', 3)
same('F02 F05', p, '		} else if (ret == 0) {\n			ret = -EPIPE;\n		}\n', '		}\n', 1)
bad('F05', p, '	} while (ret >= 0);', '	} while (ret != -EPIPE);', 1)
bad('F01', p, 'if (ret < 7 || ret > 15)', 'if (ret < 8 || ret > 15)')
bad('F01', p, 'if (ret < 7 || ret > 15)', 'if (ret < 7 || ret >= 15)')
bad('F04', p, 'ret = snprintf(addr, 16, ', 'ret = snprintf(addr, 15, ')
same('F01 F04', p, 'if (ret < 7 || ret > 15)', 'if (ret < 0 || (size_t)ret >= sizeof(addr))')
