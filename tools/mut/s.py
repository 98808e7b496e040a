p = 'src/proxy.c'
c = 'src/proxy_conn.c'
PUSH = '''		mutex_lock(&priv->idle_workers_mutex);
		pw->next = priv->idle_workers_head;
		priv->idle_workers_head = pw;
		mutex_unlock(&priv->idle_workers_mutex);

		return;'''
bad('S01', p, PUSH, '		return;')
bad('S01', p, 'pw->next = priv->idle_workers_head;\n		priv->idle_workers_head = pw;', 'priv->idle_workers_head = pw;')
bad('S01', p, '	proxy_conn_finish(pc);\n\n	/* Put', '	/* Put')
bad('S01', p, '	pc->prev_ptr = priv->idle_clients_tail_ptr;\n	*priv->idle', '	*priv->idle')
bad('S01', p, '	priv->idle_clients_tail_ptr = &pc->next;\n	mutex_unlock', '	mutex_unlock')
bad('S01', p, '	pc->next = NULL;\n	mutex_lock', '	mutex_lock')
bad('S01', p, '	if (pc->next == NULL)\n		priv->idle_clients_tail_ptr = pc->prev_ptr;\n	else\n', '	if (pc->next != NULL)\n')
bad('S01', p, '	else\n		pc->next->prev_ptr = pc->prev_ptr;\n	pc->prev_ptr = NULL', '	pc->prev_ptr = NULL')
bad('S01', p, '		if (pc->next_by_call)\n			pc->next_by_call->prev_by_call_ptr = pc->prev_by_call_ptr;\n', '')
bad('S01', p, '		*pc->prev_by_call_ptr = pc->next_by_call;\n', '')
bad('S01', p, '	pc->prev_by_call_ptr = &priv->clients_by_call[hash];\n', '')
bad('S01', p, '	if (pc->next_by_call != NULL)\n		pc->next_by_call->prev_by_call_ptr = &pc->next_by_call;\n', '')
bad('S01', p, '	priv->clients_by_call[hash] = pc;\n', '')
bad('S01', p, '	pc->prev_ptr = NULL;\n', '')
bad('S01', p, '			  -ret, strerror(-ret));\n		goto proxy_worker_func_exit;', '			  -ret, strerror(-ret));\n		return;')
bad('S01', p, '	if (ret < 0) {\n		mutex_lock(&priv->idle_workers_mutex);\n		worker->next = priv->idle_workers_head;\n		priv->idle_workers_head = worker;\n		mutex_unlock(&priv->idle_workers_mutex);\n', '	if (ret < 0) {\n')
bad('S01', p, '		priv->idle_workers_head = worker->next;\n', '		priv->idle_workers_head = NULL;\n')
bad('S01', p, '	if (ret < 0) {\n		mutex_unlock(&priv->idle_clients_mutex);', '	if (ret < 0 && ret != -EBUSY) {\n		mutex_unlock(&priv->idle_clients_mutex);')
same('S01 S02 S03', p, '	*pc->prev_ptr = pc->next;\n	if (pc->next == NULL)\n		priv->idle_clients_tail_ptr = pc->prev_ptr;\n	else\n		pc->next->prev_ptr = pc->prev_ptr;\n', '	if (pc->next != NULL)\n		pc->next->prev_ptr = pc->prev_ptr;\n	else\n		priv->idle_clients_tail_ptr = pc->prev_ptr;\n	*(pc->prev_ptr) = pc->next;\n')
same('S01 S02 S03 S05', p, '	do {\n		ret = proxy_conn_process(pc);\n	} while (ret >= 0);', '	for (;;) {\n		ret = proxy_conn_process(pc);\n		if (ret < 0)\n			break;\n	}')
same('S01 S02', p, '	pc->next = NULL;\n	mutex_lock(&priv->idle_clients_mutex);', '	mutex_lock(&priv->idle_clients_mutex);\n	pc->next = NULL;')
same('S01 S02 S03', p, 'while (pc != NULL) {\n		ret = -EBUSY;\n		if (pc->prev_ptr != NULL)\n			ret = proxy_conn_accept(pc, pw->conn_client,\n						pw->callsign, 1);\n		if (ret != -EBUSY)\n			break;\n		pc = pc->next_by_call;\n	}', 'for (; pc != NULL; pc = pc->next_by_call) {\n		if (pc->prev_ptr == NULL)\n			continue;\n		ret = proxy_conn_accept(pc, pw->conn_client, pw->callsign, 1);\n		if (ret != -EBUSY)\n			break;\n	}')
# S02
END = '''		mutex_lock(&pw->mutex);
		conn_free(pw->conn_client);
		free(pw->conn_client);
		pw->conn_client = NULL;
		mutex_unlock(&pw->mutex);
'''
bad('S02', p, END, END.replace('		free(pw->conn_client);\n', ''))
bad('S02', p, END, END.replace('		conn_free(pw->conn_client);\n', ''))
bad('S02', p, END, END.replace('		pw->conn_client = NULL;\n		mutex_unlock(&pw->mutex);\n', '		mutex_unlock(&pw->mutex);\n		pw->conn_client = NULL;\n'))
bad('S02', p, END, END.replace('		mutex_lock(&pw->mutex);\n', '').replace('mutex_unlock', 'mutex_lock_shared') + '		mutex_unlock_shared(&pw->mutex);\n')
bad('S02', p, '	if (ret < 0)\n		pw->conn_client = NULL;\n', '')
bad('S02', p, '	if (pw->conn_client != NULL) {\n		ret = -EBUSY;\n		goto proxy_worker_accept_exit;\n	}\n', '')
bad('S02', p, '		mutex_unlock(&priv->idle_workers_mutex);\n		goto conn_process_exit;', '		mutex_unlock(&priv->idle_workers_mutex);\n		return ret;')
bad('S02', p, '	conn_free(conn);\n	free(conn);\n\n	return ret;', '	free(conn);\n\n	return ret;')
bad('S02', p, '	ret = conn_init(conn);\n	if (ret < 0) {\n		free(conn);', '	ret = conn_init(conn);\n	if (ret < 0) {')
bad('S02', p, '		goto conn_process_exit;\n	}\n\n	return 0;\n\nconn_process_exit', '		goto conn_process_exit;\n	}\n\nconn_process_exit')
bad('S02', p, 'proxy_worker_func_exit:\n	mutex_lock(&pw->mutex);\n	conn_free(pw->conn_client);\n	free(pw->conn_client);\n	pw->conn_client = NULL;\n	mutex_unlock(&pw->mutex);\n\n	mutex_lock(&priv->idle_workers_mutex);\n	pw->next = priv->idle_workers_head;\n	priv->idle_workers_head = pw;\n	mutex_unlock(&priv->idle_workers_mutex);\n',
    'proxy_worker_func_exit:\n	mutex_lock(&priv->idle_workers_mutex);\n	pw->next = priv->idle_workers_head;\n	priv->idle_workers_head = pw;\n	mutex_unlock(&priv->idle_workers_mutex);\n	mutex_lock(&pw->mutex);\n	conn_free(pw->conn_client);\n	free(pw->conn_client);\n	pw->conn_client = NULL;\n	mutex_unlock(&pw->mutex);\n\n')
same('S02 S01', p, END, '''		{
			struct conn_handle *cc;

			mutex_lock(&pw->mutex);
			cc = pw->conn_client;
			pw->conn_client = NULL;
			mutex_unlock(&pw->mutex);
			conn_free(cc);
			free(cc);
		}
''')
same('S02 S01', p, END, '''		mutex_lock(&pw->mutex);
		conn_close(pw->conn_client);
		conn_free(pw->conn_client);
		free(pw->conn_client);
		pw->conn_client = NULL;
		mutex_unlock(&pw->mutex);
''')
# S03
bad('S03', c, '	if (priv->conn_client != NULL ||\n', '	if (priv->conn_client == conn_client ||\n')
bad('S03', c, 'reconnect_only && strcmp(priv->callsign, callsign) != 0', 'reconnect_only && strncmp(priv->callsign, callsign, strlen(callsign)) != 0')
bad('S03', c, 'reconnect_only && strcmp(priv->callsign, callsign) != 0', 'reconnect_only && strncmp(priv->callsign, callsign, 6) != 0')
bad('S03', c, 'reconnect_only && strcmp(priv->callsign, callsign) != 0', '!reconnect_only && strcmp(priv->callsign, callsign) != 0')
bad('S03', c, '	strncpy(priv->callsign, callsign, sizeof(priv->callsign) - 1);\n	priv->conn_client = conn_client;\n\n	mutex_unlock(&priv->mutex_client);\n', '	priv->conn_client = conn_client;\n\n	mutex_unlock(&priv->mutex_client);\n	strncpy(priv->callsign, callsign, sizeof(priv->callsign) - 1);\n')
bad('S03', c, '		mutex_unlock(&priv->mutex_client);\n		return -EBUSY;\n	}\n', '		mutex_unlock(&priv->mutex_client);\n		return -EBUSY;\n	}\n	mutex_unlock(&priv->mutex_client);\n	mutex_lock(&priv->mutex_client);\n')
bad('S03', c, 'proxy_conn_accept_exit:\n	proxy_conn_finish(pc);\n', 'proxy_conn_accept_exit:\n')
bad('S03', c, '	ret = worker_wake(&priv->worker_data);\n	if (ret < 0) {', '	ret = worker_wake(&priv->worker_data);\n	if (ret < -1) {')
bad('S03', p, '		if (pc->prev_ptr != NULL)\n', '		if (pc->control_port != NULL)\n')
bad('S03', p, 'pw->callsign, 1);', 'pw->callsign, 0);')
bad('S03', p, '		mutex_unlock(&priv->idle_clients_mutex);\n		proxy_log(pw->ph, LOG_LEVEL_ERROR,\n			  "Idle', '		proxy_log(pw->ph, LOG_LEVEL_ERROR,\n			  "Idle') if 0 else None
bad('S03', p, '	mutex_lock(&priv->idle_clients_mutex);\n	if (priv->idle_clients_head == NULL) {', '	mutex_lock_shared(&priv->idle_clients_mutex);\n	if (priv->idle_clients_head == NULL) {')
same('S03', c, '''	if (priv->conn_client != NULL ||
	    (reconnect_only && strcmp(priv->callsign, callsign) != 0)) {
''', '''	int busy = priv->conn_client != NULL;

	if (!busy && reconnect_only)
		busy = strcmp(callsign, priv->callsign) != 0;
	if (busy) {
''')
# S04
bad('S04', p, 'if (priv->usable_clients > 0 && priv->idle_workers_head != NULL)', 'if (priv->idle_workers_head != NULL)')
bad('S04', p, 'if (priv->usable_clients > 0 && priv->idle_workers_head != NULL)', 'if (priv->usable_clients >= 0 && priv->idle_workers_head != NULL)')
bad('S04', p, '	mutex_lock_shared(&priv->usable_clients_mutex);\n	mutex_lock(&priv->idle_workers_mutex);', '	mutex_lock_shared(&priv->usable_clients_mutex);\n	int u = priv->usable_clients;\n	mutex_unlock_shared(&priv->usable_clients_mutex);\n	mutex_lock_shared(&priv->usable_clients_mutex);\n	mutex_lock(&priv->idle_workers_mutex);\n	priv = ph->priv; if (u <= 0) u = 0;') if 0 else None
bad('S04', p, '		ret = 0;\n		goto conn_process_exit;', '		goto conn_process_exit;') if 0 else None
bad('S04', p, '		ret = 0;\n		goto conn_process_exit;', '		ret = -EBUSY;\n		goto conn_process_exit;')
bad('S04', p, '	mutex_lock(&priv->usable_clients_mutex);\n	priv->usable_clients = 0;\n	mutex_unlock(&priv->usable_clients_mutex);\n\n	proxy_update_registration(ph);\n\n	conn_shutdown(&priv->conn_listen);', '	conn_shutdown(&priv->conn_listen);\n	mutex_lock(&priv->usable_clients_mutex);\n	priv->usable_clients = 0;\n	mutex_unlock(&priv->usable_clients_mutex);\n\n	proxy_update_registration(ph);\n')
bad('S04', p, '	priv->usable_clients = priv->num_clients;\n', '	priv->usable_clients = 1;\n')
bad('S04', p, '	for (i = 0; i < priv->num_clients; i++) {\n		ret = worker_start(', '	for (i = 1; i < priv->num_clients; i++) {\n		ret = worker_start(')
bad('S04', p, '	for (i = 0; i < priv->num_clients; i++) {\n		ret = proxy_conn_start(', '	mutex_lock(&priv->usable_clients_mutex);\n	priv->usable_clients = priv->num_clients;\n	mutex_unlock(&priv->usable_clients_mutex);\n	for (i = 0; i < priv->num_clients; i++) {\n		ret = proxy_conn_start(')
same('S04 S05', p, '	priv->usable_clients = 0;\n	mutex_unlock(&priv->usable_clients_mutex);\n', '	if (priv->usable_clients != 0)\n		priv->usable_clients = 0;\n	mutex_unlock(&priv->usable_clients_mutex);\n')
same('S04', p, 'if (priv->usable_clients > 0 && priv->idle_workers_head != NULL) {\n		worker = priv->idle_workers_head;\n		priv->idle_workers_head = worker->next;\n	}', 'if (priv->usable_clients != 0) {\n		worker = priv->idle_workers_head;\n		if (worker)\n			priv->idle_workers_head = worker->next;\n	}')
# S05
bad('S05', p, '	proxy_update_registration(pw->ph);\n\n	hash', '	hash')
bad('S05', p, '	proxy_update_registration(pw->ph);\n\n	proxy_log(pw->ph, LOG_LEVEL_DEBUG,\n		  "Client', '	proxy_log(pw->ph, LOG_LEVEL_DEBUG,\n		  "Client')
bad('S05', p, '	mutex_unlock(&priv->usable_clients_mutex);\n\n	proxy_update_registration(ph);\n\n	conn', '	mutex_unlock(&priv->usable_clients_mutex);\n\n	conn')
bad('S05', p, '	proxy_update_registration(ph);\n\n	return 0;', '	return 0;')
bad('S05', p, '	slots_used = priv->num_clients;\n', '	slots_used = priv->usable_clients;\n')
bad('S05', p, 'slots_used,\n				    slots_total)', 'slots_total,\n				    slots_used)')
bad('S05', p, 'for (pw = priv->idle_workers_head; pw != NULL; pw = pw->next)', 'for (pw = priv->idle_workers_head; pw != NULL && pw->next != NULL; pw = pw->next)')
bad('S05', 'src/registration.c', 'slots_used >= slots_total ?', 'slots_used > slots_total ?')
bad('S05', 'src/registration.c', '	if (priv->status < REGISTRATION_STATUS_OFF) {', '	if (priv->status != REGISTRATION_STATUS_UNKNOWN) {')
bad('S05', 'src/registration.c', '		priv->slots_total = slots_total;\n		worker_wake(&priv->worker);', '		priv->slots_total = slots_total;')
bad('S05', 'src/registration.c', '		priv->slots_used = slots_used;\n', '')
same('S05', 'src/registration.c', 'slots_used >= slots_total ?\n			       REGISTRATION_STATUS_BUSY :\n			       REGISTRATION_STATUS_READY;', 'slots_used < slots_total ?\n			       REGISTRATION_STATUS_READY :\n			       REGISTRATION_STATUS_BUSY;')
same('S05', p, '		slots_used--;\n', '		slots_used -= 1;\n')
