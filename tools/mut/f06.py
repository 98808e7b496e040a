c = 'src/conn.c'
bad('F06', c, '		buff_len -= ret;\n		buff += ret;\n		ret = bytes_read += ret;', '		buff_len -= ret;\n		ret = bytes_read += ret;')
bad('F06', c, '			buff_len -= ret;\n			buff += ret;\n', '			buff_len -= ret;\n', 1)
bad('F06', c, '			buff_len -= ret;\n			buff += ret;\n', '			buff_len -= ret;\n', 2)
bad('F06', c, '	while (buff_len > 0) {\n		ret = recvfrom', '	if (buff_len > 0) {\n		ret = recvfrom')
bad('F06', c, '		if (ret == 0) {\n			ret = -EPIPE;\n\n			goto conn_recv_exit;', '		if (ret == 0) {\n			ret = bytes_read;\n\n			goto conn_recv_exit;')
bad('F06', c, '		if (ret == 0) {\n			ret = -EPIPE;\n\n			goto conn_recv_exit;', '		if (ret == 0) {\n			ret = bytes_read > 0 ? -EPIPE : 0;\n\n			goto conn_recv_exit;')
bad('F06', c, '(socklen_t)buff_len,\n				   MSG_NOSIGNAL);', '(socklen_t)buff_len,\n				   0);')
bad('F06', c, '(socklen_t)buff_len, 0,\n			       NULL, NULL);', '(socklen_t)buff_len, MSG_PEEK,\n			       NULL, NULL);')
bad('F06', c, '	while (buff_len > 0) {\n		ret = recvfrom', '	while (buff_len > 1) {\n		ret = recvfrom')
bad('F06', c, '	if (ret == 0) {\n		ret = -EPIPE;\n	} else if', '	if (ret < 0) {\n		ret = -EPIPE;\n	} else if')
bad('F06', c, '			} else if (ret == SOCKET_ERROR) {\n				ret = SOCK_ERRNO;\n', '			} else if (ret == SOCKET_ERROR) {\n				ret = SOCK_ERRNO;\n				if (ret == -EAGAIN)\n					ret = 0;\n', 1)
same('F06', c, '''			buff_len -= ret;
			buff += ret;
		}

		ret = 0;
''', '''			buff += ret;
			buff_len -= (size_t)ret;
		}

		ret = 0;
''')
same('F06', c, """	while (buff_len > 0) {
		ret = recvfrom(priv->fd, (char *)buff, (socklen_t)buff_len, 0,
			       NULL, NULL);

		if (ret == 0) {
			ret = -EPIPE;

			goto conn_recv_exit;
		} else if (ret == SOCKET_ERROR) {
			ret = SOCK_ERRNO;

#ifdef _WIN32
			if (ret == -WSAESHUTDOWN)
				ret = -EPIPE;

#endif

			goto conn_recv_exit;
		}

		buff_len -= ret;
		buff += ret;
		ret = bytes_read += ret;
	}
""", """	while ((size_t)bytes_read < buff_len) {
		ret = recv(priv->fd, (char *)buff + bytes_read, buff_len - bytes_read, MSG_WAITALL);

		if (ret <= 0) {
			ret = ret == 0 ? -EPIPE : SOCK_ERRNO;
			goto conn_recv_exit;
		}

		bytes_read += ret;
	}
	ret = bytes_read;
""")
same('F06', c, """		buff_len -= ret;
		buff += ret;
		ret = bytes_read += ret;
	}
""", """		bytes_read += ret;
		buff = &buff[ret];
		buff_len = buff_len - ret;
	}
	if (ret > 0)
		ret = bytes_read;
""")
