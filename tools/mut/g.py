C = 'src/conf.c'
P = 'src/proxy.c'
bad('G01', C, 'if (strncmp(key, "Port", key_len) == 0) {', 'if (strncmp(key, "Port", key_len - 1) == 0) {')
bad('G01', C, '\tcase 16:\n\t\tif (strncmp(key, "CallsignsAllowed", key_len) == 0) {', '\tcase 16:\n\t\tif (strncmp(key, "CallsignsAllowed", 10) == 0) {')
bad('G01', C, 'sscanf(val, "%u%1s", &conf->connection_timeout, dummy) != 1', 'sscanf(val, "%u", &conf->connection_timeout) != 1')
bad('G01', C, 'sscanf(val, "%hu%1s", &conf->port, dummy) != 1', 'sscanf(val, "%hu%1s", &conf->port, dummy) < 1')
bad('G01', C, 'sscanf(val, "%hu%1s", &conf->port, dummy) != 1', 'sscanf(val, "%hi%1s", &conf->port, dummy) != 1')
bad('G01', C, 'sscanf(val, "%hu%1s", &conf->port, dummy) != 1', 'sscanf(val, "%hu%c", &conf->port, dummy) != 1')
bad('G01', C, '\tval = &key[key_len + 1];\n', '\tval = &key[key_len + 1];\n\twhile (val[0] == \'=\')\n\t\tval++;\n')
bad('G01', C, "\twhile (*val == ' ' || *val == '\\t')\n\t\tval++;", "\twhile (*val == ' ')\n\t\tval++;")
bad('G01', C, "\t\t\t       val[val_len - 1] == '\\r'))", "\t\t\t       val[val_len - 1] == '#'))")
bad('G01', C, 'memcpy(conf->reg_comment, val, val_len);\n\t\t\tconf->reg_comment[val_len]', 'memcpy(conf->reg_comment, val, val_len);\n\t\t\tconf->reg_name = conf->reg_comment;\n\t\t\tconf->reg_comment[val_len]')
bad('G01', C, "\t\t\tif (val_len == 0) {\n\t\t\t\tconf->calls_denied = NULL;\n\t\t\t\tbreak;\n\t\t\t}\n", "")
bad('G01', C, "\t\t\tconf->public_addr = malloc(val_len + 1);\n\t\t\tif (conf->public_addr == NULL)\n\t\t\t\treturn -ENOMEM;", "\t\t\tconf->public_addr = malloc(val_len + 1);\n\t\t\tif (conf->public_addr == NULL)\n\t\t\t\tbreak;")
bad('G01', C, "\t\t\tmemcpy(conf->bind_addr, val, val_len);", "\t\t\tif (val_len > 255)\n\t\t\t\tval_len = 255;\n\t\t\tmemcpy(conf->bind_addr, val, val_len);")
bad('G01', C, "\t\tif (ret < 0)\n\t\t\treturn ret;\n\t}\n\n\tfree(line);", "\t\tif (ret == -ENOMEM)\n\t\t\treturn ret;\n\t}\n\n\tfree(line);")
bad('G01', C, "\t\tif (temp == '\\n')\n\t\t\tbreak;", "\t\tif (temp == '\\n' || so_far >= 255)\n\t\t\tbreak;")
bad('G01', P, "\tret = conf_parse_file(path, &ph->conf, &priv->log);\n\tif (ret < 0)\n\t\treturn ret;", "\tret = conf_parse_file(path, &ph->conf, &priv->log);\n\tif (ret < 0 && ret != -EINVAL)\n\t\treturn ret;")
bad('G01 G02', C, "\t\t\tfor (i = 0; i < val_len; i++)\n\t\t\t\tif (val[i] == ',')", "\t\t\tfor (i = 1; i < val_len; i++)\n\t\t\t\tif (val[i] == ',')")
bad('G01 G02', C, "\t\t\tconf->bind_addr_ext_add = NULL;\n\t\t\tconf->bind_addr_ext_add_len = 0;\n\n\t\t\tif (val_len == 0)\n\t\t\t\tbreak;", "\t\t\tconf->bind_addr_ext_add = NULL;\n\n\t\t\tif (val_len == 0)\n\t\t\t\tbreak;")
bad('G01 G02', C, "while (j < val_len && val[j] != ',')", "while (j < val_len && val[j] != ',' && j - k < 64)")
bad('G02', P, "ph->conf.bind_addr_ext_add[i - 1];", "ph->conf.bind_addr_ext_add[i / 2];")
bad('G02', P, "priv->num_clients = 1 + ph->conf.bind_addr_ext_add_len;", "priv->num_clients = ph->conf.bind_addr_ext_add_len ? ph->conf.bind_addr_ext_add_len : 1;")
bad('G02', P, "priv->clients[0].source_addr = ph->conf.bind_addr_ext;", "priv->clients[0].source_addr = ph->conf.bind_addr;")
bad('G02', P, "\t\tif (ph->conf.bind_addr_ext == NULL ||\n\t\t    strcmp(ph->conf.bind_addr_ext, \"0.0.0.0\") == 0) {", "\t\tif (ph->conf.bind_addr_ext == NULL) {")
bad('G02', 'src/proxy_conn.c', "priv->conn_data.source_addr = pc->source_addr;", "priv->conn_data.source_addr = NULL;")
bad('G02', 'src/proxy_conn.c', "priv->conn_data.source_port = pc->data_port;", "priv->conn_data.source_port = pc->control_port;")
bad('G02', 'src/conn.c', "\tret = getaddrinfo(conn->source_addr, conn->source_port == NULL ? \"0\" :", "\tret = getaddrinfo(NULL, conn->source_port == NULL ? \"0\" :")
bad('G02', 'src/conn.c', "\tret = bind(priv->sock_fd, res->ai_addr, (socklen_t)res->ai_addrlen);\n\tif (ret == SOCKET_ERROR) {\n\t\tret = SOCK_ERRNO;\n\t\tgoto conn_connect_free;\n\t}\n", "")
same('G01 G02', C, "\t\tif (temp == '\\n')\n\t\t\tbreak;", "\t\tif ((char)temp == 10)\n\t\t\tbreak;")
same('G01', C, 'if (strncmp(key, "Port", key_len) == 0) {', 'if (key[0] == \'P\' && key[1] == \'o\' && !memcmp(key + 2, "rt", 2)) {')
same('G01', C, 'sscanf(val, "%u%1s", &conf->connection_timeout, dummy) != 1', 'sscanf(val, " %u %c", &conf->connection_timeout, dummy) != 1')
same('G02', P, "\tfor (i = 1; i < priv->num_clients; i++) {\n\t\tpriv->clients[i].source_addr", "\tfor (i = priv->num_clients - 1; i > 0; i--)\n\t\tpriv->clients[i].source_addr = NULL;\n\tfor (i = 1; i < priv->num_clients; i++) {\n\t\tpriv->clients[i].source_addr")
bad('G02', 'src/conn.c', '''	hints.ai_flags = AI_PASSIVE;

	ret = getaddrinfo(conn->source_addr,
			  conn->source_port == NULL ? "0" : conn->source_port,
			  &hints, &res);
''', '''	ret = getaddrinfo(conn->source_addr,
			  conn->source_port == NULL ? "0" : conn->source_port,
			  &hints, &res);
	hints.ai_flags = AI_PASSIVE;
''')
bad('G02', 'src/conn.c', '''	hints.ai_family = AF_INET;
	hints.ai_flags = AI_PASSIVE;
''', '''	hints.ai_family = AF_INET;
	hints.ai_flags = AI_NUMERICSERV;
''')
same('G02', 'src/conn.c', '''	hints.ai_family = AF_INET;
	hints.ai_flags = AI_PASSIVE;
''', '''	hints.ai_family = AF_INET;
	hints.ai_flags = AI_PASSIVE | AI_NUMERICSERV;
''')
