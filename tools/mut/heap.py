cf = 'src/conf.c'
co = 'src/conn.c'
lo = 'src/log.c'
rx = 'src/regex.c'
rg = 'src/registration.c'
px = 'src/proxy.c'
wk = 'src/worker.c'
# --- R02
bad('R02', cf, '		free(line);\n		line = NULL;\n\n		if', '		if')
bad('R02', cf, '		free(line);\n		line = NULL;', '		free(line);')
bad('R02', cf, '	free(line);\n\n	return ret;', '	return ret;')
bad('R02', cf, '		free(line);\n		line = NULL;\n\n		if (ret < 0)\n			return ret;', '		if (ret < 0)\n			return ret;\n\n		free(line);\n		line = NULL;')
bad('R02', cf, '	fclose(stream);\n', '')
bad('R02', cf, '	ret = conf_parse_stream(stream, conf, log);\n', '	ret = conf_parse_stream(stream, conf, log);\n	if (ret < 0)\n		return ret;\n')
bad('R02', cf, 'temp_ptr = realloc(*lineptr, *n + 128);\n			if (temp_ptr == NULL)\n				return -ENOMEM;\n\n			*lineptr = temp_ptr;',
    '*lineptr = realloc(*lineptr, *n + 128);\n			if (*lineptr == NULL)\n				return -ENOMEM;\n			(void)temp_ptr;')
bad('R02', cf, '			*lineptr = temp_ptr;\n			*n += 128', '			*n += 128')
bad('R02', cf, '				free(conf->password);\n\n			conf->password = malloc(val_len + 1);', '				(void)0;\n\n			conf->password = malloc(val_len + 1);')
bad('R02', cf, '				free(conf->reg_name);\n', '				(void)conf;\n')
bad('R02', cf, '			conf->bind_addr_ext_add = NULL;\n			conf->bind_addr_ext_add_len = 0;\n\n			return', '			conf->bind_addr_ext_add_len = 0;\n\n			return')
bad('R02', cf, '			free(conf->bind_addr_ext_add);\n			conf->bind_addr_ext_add = NULL;\n			conf->bind_addr_ext_add_len = 0;\n\n			return', '			conf->bind_addr_ext_add = NULL;\n			conf->bind_addr_ext_add_len = 0;\n\n			return')
bad('R02', co, '	freeaddrinfo(res_remote);\n	freeaddrinfo(res);\n\n	mutex_lock', '	freeaddrinfo(res_remote);\n\n	mutex_lock')
bad('R02', rx, '	pcre2_match_data_free(match_data);\n', '')
bad('R02', rx, '	ret = pcre2_match(', '	if (sub_len == 0)\n		return 0;\n\n	ret = pcre2_match(')
bad('R02', rx, '	if (priv->re != NULL)\n		pcre2_code_free(priv->re);\n\n	priv->re = pcre2', '	priv->re = pcre2')
bad('R02', lo, '					fclose(old_fp);', '					fclose(fp);')
bad('R02', lo, '					priv->medium_file.fp = fp;\n					fclose(old_fp);', '					fclose(old_fp);')
bad('R02', rg, '	reg_suffix = NULL;\n\n	ret = worker_start', '	ret = worker_start')
bad('R02', rg, '		free((void *)priv->reg_suffix);\n	priv->reg_suffix = NULL;', '		free((void *)priv->reg_suffix);')
bad('R02', rg, '	conn_free(&conn);\n', '')
bad('R02', rg, '	free(message_body);\n', '')
bad('R02', rg, '	ret = conn_init(&conn);\n	if (ret < 0)\n		goto registration_update_exit;', '	ret = conn_init(&conn);\n	if (ret < 0)\n		return ret;')
bad('R02', rg, '	free(message_body);\n\n	return ret;', '	free(message_body);\n	if (ret < 0)\n		log_printf(rs->ph == NULL ? NULL : NULL, LOG_LEVEL_DEBUG, "%s", message_body);\n\n	return ret;') if False else None
bad('R02', px, '		regex_free(priv->re_calls_denied);\n		free(priv->re_calls_denied);\n		priv->re_calls_denied = NULL;\n	}\n\n	memset', '		regex_free(priv->re_calls_denied);\n		free(priv->re_calls_denied);\n	}\n\n	memset')
bad('R02', px, '		regex_free(priv->re_calls_allowed);\n		free(priv->re_calls_allowed);\n		priv->re_calls_allowed = NULL;\n	} else', '') if False else None
# --- R04
bad('R04', cf, '		if (*lineptr == NULL)\n			return -ENOMEM;\n', '')
bad('R04', cf, '			if (temp_ptr == NULL)\n				return -ENOMEM;\n', '')
bad('R04', cf, '			if (conf->password == NULL)\n				return -ENOMEM;\n', '')
bad('R04', cf, '			if (conf->calls_denied == NULL)\n				return -ENOMEM;\n', '')
bad('R04', cf, '				if (conf->bind_addr_ext_add[i] == NULL)\n					goto bind_addr_ext_add_exit;\n', '')
bad('R04', cf, '			if (conf->bind_addr_ext_add == NULL)\n				return -ENOMEM;\n', '')
bad('R04', cf, '	if (stream == NULL)\n		return -errno;\n', '')
bad('R04', co, '		if (priv == NULL)\n			return -ENOMEM;\n', '')
bad('R04', lo, '		if (fp == NULL) {', '		if (fp == NULL && priv->medium_file.fp != NULL) {') if False else None
bad('R04', rx, '	if (match_data == NULL)\n		return -EINVAL;\n', '')
bad('R04', rg, '	if (message_body == NULL)\n		return -ENOMEM;\n', '')
bad('R04', rg, 'conf->public_addr == NULL ?\n				   "" : conf->public_addr', 'conf->public_addr')
bad('R04', rg, 'conf->reg_comment == NULL ?\n			    "" : conf->reg_comment', 'conf->reg_comment') if False else None
bad('R04', rg, '	if (conf->reg_name == NULL)\n		return 0;\n', '')
bad('R04', rg, '	if (reg_suffix == NULL) {\n		ret = -ENOMEM;\n		goto registration_service_start_end;\n	}\n', '')
bad('R04', px, '	if (ph->conf.password == NULL) {', '	if (ph->conf.password == NULL && ph->conf.reg_name != NULL) {')
bad('R04', px, '	if (priv->clients == NULL) {\n		ret = -ENOMEM;\n		goto proxy_open_exit;\n	}\n', '')
bad('R04', px, '	if (priv->client_workers == NULL) {\n		ret = -ENOMEM;\n		goto proxy_open_exit;\n	}\n', '')
bad('R04', px, '			if (priv->re_calls_denied == NULL) {\n				ret = -ENOMEM;\n				goto proxy_open_exit;\n			}\n', '')
bad('R04', px, 'ph->conf.bind_addr_ext == NULL ||\n		    strcmp', 'strcmp')
bad('R04', px, '	if (priv->re_calls_denied != NULL) {\n		ret = regex_is_match', '	{\n		ret = regex_is_match')
bad('R04', wk, '		if (priv == NULL)\n			return -ENOMEM;\n', '')
same('R02 R04', cf, '		free(line);\n		line = NULL;\n\n		if (ret < 0)\n			return ret;', '		if (ret < 0) {\n			free(line);\n			return ret;\n		}\n\n		free(line);\n		line = NULL;')
same('R02 R04', cf, '	ret = conf_parse_stream(stream, conf, log);\n\n	fclose(stream);\n\n	return ret;', '	ret = conf_parse_stream(stream, conf, log);\n	if (fclose(stream) != 0)\n		log_printf(log, LOG_LEVEL_DEBUG, "close failed\\n");\n\n	return ret;')
same('R02 R04', rx, '	if (priv->re != NULL)\n		pcre2_code_free(priv->re);\n\n	priv->re', '	pcre2_code_free(priv->re);\n	priv->re')
same('R02 R04', rx, '		if (priv->re != NULL)\n			pcre2_code_free(priv->re);\n', '		pcre2_code_free(priv->re);\n		priv->re = NULL;\n')
same('R02 R04', rg, '	if (priv->reg_suffix != NULL)\n		free((void *)priv->reg_suffix);\n	priv->reg_suffix = NULL;', '	free((void *)priv->reg_suffix);\n	priv->reg_suffix = NULL;')
same('R02 R04', rg, 'conf->public_addr == NULL ?\n				   "" : conf->public_addr', '(conf->public_addr != NULL) ? conf->public_addr : ""')
same('R02 R04', cf, '	if (stream == NULL)\n		return -errno;\n', '	if (!stream) {\n		ret = -errno;\n		return ret;\n	}\n')
same('R02 R04', px, '	if (ph->conf.password == NULL) {', '	if (!ph->conf.password) {')
bad('R02', px, '		mutex_lock(&pw->mutex);\n		conn_free(pw->conn_client);\n		free(pw->conn_client);', '		mutex_lock(&pw->mutex);\n		free(pw->conn_client);')
bad('R02', px, '	conn_free(conn);\n	free(conn);\n', '	free(conn);\n')
bad('R02', px, '	conn_free(conn);\n	free(conn);\n', '	conn_free(conn);\n')
bad('R02', px, '	mutex_lock(&pw->mutex);\n	conn_free(pw->conn_client);\n	free(pw->conn_client);\n	pw->conn_client = NULL;\n	mutex', '	mutex_lock(&pw->mutex);\n	conn_free(pw->conn_client);\n	pw->conn_client = NULL;\n	mutex')
bad('R02', px, '	mutex_lock(&pw->mutex);\n	conn_free(pw->conn_client);\n	free(pw->conn_client);\n	pw->conn_client = NULL;\n	mutex', '	mutex_lock(&pw->mutex);\n	conn_free(pw->conn_client);\n	free(pw->conn_client);\n	mutex')
bad('R04', 'src/registration.c', '	ret = conn_init(&conn);\n	if (ret < 0)\n		goto registration_update_exit;\n', '')
