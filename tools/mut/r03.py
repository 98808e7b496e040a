bad('R03', 'src/proxy_conn.c', "ret = worker_start(&priv->worker_data);\n\tif (ret < 0)\n\t\tgoto proxy_conn_start_exit;", "ret = worker_start(&priv->worker_data);")
bad('R03', 'src/conn.c', "conn_listen_free:\n\tfreeaddrinfo(res);\n\n\treturn ret;", "conn_listen_free:\n\tfreeaddrinfo(res);\n\n\treturn priv->fd == INVALID_SOCKET ? ret : 0;")
bad('R03', 'src/conn.c', "if (priv->sock_fd == INVALID_SOCKET) {\n\t\tret = SOCK_ERRNO;\n\t\tgoto conn_connect_free_early;", "if (priv->sock_fd == INVALID_SOCKET) {\n\t\tfreeaddrinfo(res_remote);res_remote=NULL;ret = SOCK_ERRNO;\n\t\tgoto conn_connect_free_early;")
bad('R03', 'src/proxy_conn.c', "final_ret = ret;\n\n\tret = worker_join(&priv->worker_data);\n\tif (ret < 0)\n\t\tfinal_ret = ret;", "final_ret = ret;\n\n\tfinal_ret = worker_join(&priv->worker_data);")
bad('R03', 'src/proxy_client.c', "sizeof(nonce_str));\n\tif (ret < 0)", "sizeof(nonce_str));\n\tif (ret == -EPIPE)")
bad('R03', 'src/thread_posix.c', "return ret > 0 ? -ret : ret;\n}\n\nint thread_start", "return ret;\n}\n\nint thread_start")
bad('R03', 'src/conf.c', "if (ret < 0)\n\t\t\treturn ret;\n\t}\n\n\tfree(line);", "if (ret == -EINVAL)\n\t\t\treturn ret;\n\t}\n\n\tfree(line);")
bad('R03', 'src/conf.c', "\tif (stream == NULL)\n\t\treturn -errno;", "\tif (stream == NULL)\n\t\treturn errno;")
bad('R03', 'src/registration.c', "ret = conn_send(&conn, (uint8_t *)message_body, body_length);\n\tif (ret < 0)\n\t\tgoto registration_update_exit;", "ret = conn_send(&conn, (uint8_t *)message_body, body_length);")
bad('R03', 'src/proxy.c', "ret = proxy_conn_start(&priv->clients[i]);\n\t\tif (ret < 0) {", "ret = proxy_conn_start(&priv->clients[i]);\n\t\tif (ret < 0 && i == 0) {")
bad('R03', 'src/log.c', "ret = -errno;\n\t\t} else {", "log->medium = old_medium; closelog(); ret = -errno;\n\t\t} else {")
bad('R03', 'src/worker.c', "if (ret < 0)\n\t\t\tpriv->state = WORKER_STOPPED;\n\t}\n\n\tmutex_unlock(&priv->mutex);\n\n\treturn ret;", "if (ret < 0)\n\t\t\tpriv->state = WORKER_STOPPED;\n\t\tret = 0;\n\t}\n\n\tmutex_unlock(&priv->mutex);\n\n\treturn ret;")
bad('R03', 'src/proxy_conn.c', "if (ret < 0)\n\t\t\treturn ret;\n\t\telse if (ret == 0)\n\t\t\treturn -EPIPE;\n\n\t\tmsg_size -= ret;\n\n\t\t/* Send the data */\n\t\tret = conn_send_to(&priv->conn_data", "if (ret < 0)\n\t\t\tbreak;\n\t\telse if (ret == 0)\n\t\t\treturn -EPIPE;\n\n\t\tmsg_size -= ret;\n\n\t\t/* Send the data */\n\t\tret = conn_send_to(&priv->conn_data")
same('R03', 'src/conn.c', "\tint ret = 0;\n\tint bytes_read = 0;\n", "\tint bytes_read = 0;\n\tint ret = 0;\n")
