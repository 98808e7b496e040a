px = 'src/proxy.c'
pc = 'src/proxy_conn.c'
co = 'src/conn.c'
wk = 'src/worker.c'
rg = 'src/registration.c'
th = 'src/thread_posix.c'
mx = 'src/mutex_posix.c'
rx = 'src/regex.c'
cl = 'src/proxy_client.c'
lo = 'src/log.c'
cf = 'src/conf.c'
bad('R01', px, '	mutex_free(&priv->usable_clients_mutex);\n	registration_service_free', '	registration_service_free')
bad('R01', px, '	mutex_free(&priv->idle_clients_mutex);\n	mutex_free(&priv->usable_clients_mutex);\n	reg', '	mutex_free(&priv->usable_clients_mutex);\n	reg')
bad('R01', px, '	conn_free(&priv->conn_listen);\n	conf_free(&ph->conf);\n	log_free', '	conf_free(&ph->conf);\n	log_free')
bad('R01', px, '	free(ph->priv);\n	ph->priv = NULL;\n\n	return ret;', '	free(ph->priv);\n\n	return ret;')
bad('R01', px, '		conf_free(&ph->conf);\n\n		/* Free logger', '		/* Free logger')
bad('R01', px, '		if (priv->re_calls_denied != NULL) {\n			regex_free(priv->re_calls_denied);\n			free(priv->re_calls_denied);\n		}\n', '')
bad('R01', px, '			regex_free(priv->re_calls_allowed);\n			free(priv->re_calls_allowed);\n		}\n\n		if', '			free(priv->re_calls_allowed);\n		}\n\n		if')
bad('R01', px, '		proxy_close(ph);\n\n		/* Free idle', '		/* Free idle')
bad('R01', px, '	worker_free(&pw->worker);\n	mutex_free(&pw->mutex);', '	mutex_free(&pw->mutex);\n	worker_free(&pw->worker);')
bad('R01', px, 'proxy_worker_init_exit:\n	mutex_free(&pw->mutex);\n', 'proxy_worker_init_exit:\n')
bad('R01', px, '	if (ph->priv != NULL) {\n		struct proxy_priv *priv = ph->priv;\n\n		proxy_close', '	{\n		struct proxy_priv *priv = ph->priv;\n\n		proxy_close')
bad('R01', px, '	for (i--; i >= 0; i--)\n		proxy_conn_stop', '	for (; i >= 0; i--)\n		proxy_conn_stop')
bad('R01', px, '	i = priv->num_clients;\n\nproxy_start_exit_early', 'proxy_start_exit_early')
bad('R01', pc, '		worker_free(&priv->worker_data);\n		worker_free(&priv->worker_control);\n\n		mutex_free', '		worker_free(&priv->worker_control);\n\n		mutex_free')
bad('R01', pc, '		worker_free(&priv->worker_tcp);\n		worker_free(&priv->worker_data);\n		worker_free(&priv->worker_control);\n\n		mutex_free(&priv->mutex_client);\n		mutex_free(&priv->mutex_client_send);\n',
    '		mutex_free(&priv->mutex_client);\n		mutex_free(&priv->mutex_client_send);\n\n		worker_free(&priv->worker_tcp);\n		worker_free(&priv->worker_data);\n		worker_free(&priv->worker_control);\n')  if False else None
bad('R01', pc, '		conn_free(&priv->conn_tcp);\n		conn_free(&priv->conn_data);\n		conn_free(&priv->conn_control);\n\n		free', '		conn_free(&priv->conn_tcp);\n		conn_free(&priv->conn_data);\n\n		free')
bad('R01', pc, '	conn_free(&priv->conn_data);\n	conn_free(&priv->conn_control);\n\n	free', '	conn_free(&priv->conn_control);\n\n	free')
bad('R01', pc, '	mutex_free(&priv->mutex_client_send);\n\n	conn_free', '	conn_free')
bad('R01', pc, '		priv = calloc(1, sizeof(*priv));', '		priv = malloc(sizeof(*priv));')
bad('R01', co, '		conn_close(conn);\n\n#ifdef', '#ifdef')
bad('R01', co, '		mutex_free(&priv->mutex);\n', '')
bad('R01', co, '	free(conn->priv);\n	conn->priv = NULL;\n\n	return ret;', '	return ret;')
bad('R01', wk, '		worker_join(wh);\n\n		thread_free(&priv->thread);\n		mutex_free(&priv->mutex);', '		mutex_free(&priv->mutex);\n		thread_free(&priv->thread);')
bad('R01', wk, '		condvar_free(&priv->condvar_idle);\n		condvar_free(&priv->condvar);\n\n		free', '		condvar_free(&priv->condvar);\n\n		free')
bad('R01', wk, '		condvar_free(&priv->condvar_idle);\n		condvar_free(&priv->condvar);\n\n		free', '		condvar_free(&priv->condvar);\n		condvar_free(&priv->condvar);\n\n		free')
bad('R01', wk, '	condvar_free(&priv->condvar_idle);\n	condvar_free(&priv->condvar);\n\n	free', '	condvar_free(&priv->condvar);\n\n	free')
bad('R01', wk, '	free(wh->priv);\n	wh->priv = NULL;\n\n	return ret;', '	free(wh->priv);\n\n	return ret;')
bad('R01', rg, '		registration_service_stop(rs);\n\n		worker_free(&priv->worker);\n		mutex_free(&priv->mutex);', '		mutex_free(&priv->mutex);\n		worker_free(&priv->worker);')
bad('R01', rg, '	worker_free(&priv->worker);\n	mutex_free(&priv->mutex);\n\n	free(rs->priv);', '	worker_free(&priv->worker);\n\n	free(rs->priv);')
bad('R01', th, '		thread_join(pt);\n\n		mutex_free', '		mutex_free')
bad('R01', th, '	free(pt->priv);\n	pt->priv = NULL;\n\n	return ret;', '	pt->priv = NULL;\n\n	return ret;')
bad('R01', mx, '		pthread_cond_destroy(&priv->cond);\n\n		free(mutex->priv);', '		free(mutex->priv);')
bad('R01', rx, '		if (priv->re != NULL)\n			pcre2_code_free(priv->re);\n', '')
bad('R01', cl, '		conn_free(&priv->conn);\n\n		free', '		free')
bad('R01', cl, '	conn_free(&priv->conn);\n\n	free(ch->priv);', '	conn_free(&priv->conn);\n')
bad('R01', lo, '	if (log->priv != NULL) {\n		log_close(log);\n\n		free(log->priv);\n		log->priv = NULL;\n	}', '	log_close(log);\n	free(log->priv);\n	log->priv = NULL;')
bad('R01', lo, '		free(log->priv);\n		log->priv = NULL;', '		free(log->priv);')
bad('R01', cf, '		free(conf->reg_comment);\n		conf->reg_comment = NULL;', '		conf->reg_comment = NULL;')
bad('R01', cf, '		free(conf->calls_denied);\n		conf->calls_denied = NULL;', '		free(conf->calls_denied);')
bad('R01 R02', cf, '		for (i = 0; i < conf->bind_addr_ext_add_len; i++)\n			free(conf->bind_addr_ext_add[i]);\n\n		conf->bind_addr_ext_add_len = 0;\n\n		free(conf->bind_addr_ext_add);', '		conf->bind_addr_ext_add_len = 0;\n\n		free(conf->bind_addr_ext_add);')
same('R01', cf, '	if (conf->reg_name != NULL) {\n		free(conf->reg_name);\n		conf->reg_name = NULL;\n	}', '	free(conf->reg_name);\n	conf->reg_name = NULL;')
same('R01', wk, '		thread_free(&priv->thread);\n		mutex_free(&priv->mutex);\n		condvar_free(&priv->condvar_idle);\n		condvar_free(&priv->condvar);\n', '		thread_free(&priv->thread);\n		condvar_free(&priv->condvar);\n		condvar_free(&priv->condvar_idle);\n		mutex_free(&priv->mutex);\n')
same('R01', wk, '		worker_join(wh);\n\n		thread_free(&priv->thread);', '		(void)worker_join(wh);\n		thread_free(&priv->thread);')
same('R01', pc, '		worker_free(&priv->worker_tcp);\n		worker_free(&priv->worker_data);\n		worker_free(&priv->worker_control);\n\n		mutex_free', '		worker_free(&priv->worker_control);\n		worker_free(&priv->worker_data);\n		worker_free(&priv->worker_tcp);\n\n		mutex_free')
same('R01', px, '	mutex_free(&priv->idle_clients_mutex);\n	mutex_free(&priv->usable_clients_mutex);\n	registration_service_free(&priv->reg_service);', '	registration_service_free(&priv->reg_service);\n	mutex_free(&priv->idle_clients_mutex);\n	mutex_free(&priv->usable_clients_mutex);')
same('R01', co, '	if (conn->priv != NULL) {\n		struct conn_priv *priv = conn->priv;\n\n		conn_close(conn);', '	struct conn_priv *old = conn->priv;\n\n	if (old == NULL)\n		return;\n\n	{\n		struct conn_priv *priv = old;\n\n		conn_close(conn);')
