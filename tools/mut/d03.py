P = 'src/proxy.c'
bad('D03', P, '''	proxy_shutdown(ph);
	proxy_drop(ph);
''', '''	proxy_shutdown(ph);
''')
bad('D03', P, '''	proxy_shutdown(ph);
	proxy_drop(ph);
''', '''	proxy_drop(ph);
''')
bad('D03', P, '''	for (i = 0; i < priv->num_clients; i++)
		proxy_worker_free(&priv->client_workers[i]);

	priv->idle_workers_head = NULL;
''', '''	for (i = 1; i < priv->num_clients; i++)
		proxy_worker_free(&priv->client_workers[i]);

	priv->idle_workers_head = NULL;
''')
bad('D03', P, '''	for (i = 0; i < priv->num_clients; i++)
		proxy_worker_free(&priv->client_workers[i]);

	priv->idle_workers_head = NULL;

	memset(priv->clients_by_call, 0x0, sizeof(priv->clients_by_call));
''', '''	for (i = 0; i < priv->num_clients; i++)
		proxy_worker_free(&priv->client_workers[i]);

	memset(priv->clients_by_call, 0x0, sizeof(priv->clients_by_call));
''')
bad('D03', P, '''	memset(priv->clients_by_call, 0x0, sizeof(priv->clients_by_call));

	priv->clients[0]''', '''	priv->clients[0]''') if False else None
bad('D03', P, '''	for (i = 0; i < priv->num_clients; i++)
		proxy_worker_free(&priv->client_workers[i]);

	priv->idle_workers_head = NULL;

	memset(priv->clients_by_call, 0x0, sizeof(priv->clients_by_call));
	priv->idle_clients_head = NULL;
	priv->idle_clients_tail_ptr = NULL;
	for (i = 0; i < priv->num_clients; i++)
		proxy_conn_free(&priv->clients[i]);
''', '''	memset(priv->clients_by_call, 0x0, sizeof(priv->clients_by_call));
	priv->idle_clients_head = NULL;
	priv->idle_clients_tail_ptr = NULL;
	for (i = 0; i < priv->num_clients; i++) {
		proxy_conn_free(&priv->clients[i]);
		proxy_worker_free(&priv->client_workers[i]);
	}

	priv->idle_workers_head = NULL;
''')
bad('D03', P, '''	priv->clients = NULL;
	priv->num_clients = 0;

	proxy_log(ph, LOG_LEVEL_DEBUG, "Closing listening''', '''	priv->clients = NULL;

	proxy_log(ph, LOG_LEVEL_DEBUG, "Closing listening''')
bad('D03', P, '''	conn_close(&priv->conn_listen);

''', '')
bad('D03', P, '''		if (pw->conn_client != NULL)
			conn_drop(pw->conn_client);
''', '''		if (pw->conn_client != NULL && i > 0)
			conn_drop(pw->conn_client);
''')
bad('D03', P, '''	priv->idle_workers_head = NULL;
	priv->idle_clients_head = NULL;
	priv->idle_clients_tail_ptr = NULL;

	log_close''', '''	priv->idle_clients_head = NULL;
	priv->idle_clients_tail_ptr = NULL;

	log_close''')
bad('D03', P, '''	priv->clients = NULL;

	priv->num_clients = 0;

	return ret;
''', '''	priv->clients = NULL;

	return ret;
''')
bad('D03', P, '''			for (i--; i >= 0; i--)
				proxy_worker_free(&priv->client_workers[i]);
''', '''			for (i--; i > 0; i--)
				proxy_worker_free(&priv->client_workers[i]);
''')
bad('D03', P, '''		goto proxy_open_exit_later;
''', '''		goto proxy_open_exit_late;
''')
bad('D03', 'src/proxy_conn.c', '''		worker_free(&priv->worker_tcp);
		worker_free(&priv->worker_data);
		worker_free(&priv->worker_control);

		mutex_free(&priv->mutex_client);
''', '''		worker_free(&priv->worker_tcp);
		worker_free(&priv->worker_control);

		mutex_free(&priv->mutex_client);
''')
bad('D03', 'src/proxy_conn.c', '''		worker_free(&priv->worker_tcp);
		worker_free(&priv->worker_data);
		worker_free(&priv->worker_control);

''', '''		conn_free(&priv->conn_tcp);

		worker_free(&priv->worker_tcp);
		worker_free(&priv->worker_data);
		worker_free(&priv->worker_control);

''')
bad('D03', 'src/worker.c', '''		worker_join(wh);

		thread_free''', '''		if (priv->state > WORKER_STOPPING)
			worker_join(wh);

		thread_free''')
bad('D03', 'src/worker.c', '''	return thread_join(&priv->thread);
''', '''	if (priv->state == WORKER_STOPPED)
		return 0;

	return thread_join(&priv->thread);
''')
same('D03', P, '''	memset(priv->clients_by_call, 0x0, sizeof(priv->clients_by_call));
	priv->idle_clients_head = NULL;
	priv->idle_clients_tail_ptr = NULL;
	for (i = 0''', '''	priv->idle_clients_head = NULL;
	for (i = 0''')
same('D03', P, '''	proxy_shutdown(ph);
	proxy_drop(ph);
''', '''	proxy_drop(ph);
	proxy_shutdown(ph);
''')
same('D03', P, '''	free(priv->client_workers);
	priv->client_workers = NULL;
	free(priv->clients);
	priv->clients = NULL;
	priv->num_clients = 0;

	proxy_log''', '''	priv->num_clients = 0;
	free(priv->clients);
	free(priv->client_workers);
	priv->clients = NULL;
	priv->client_workers = NULL;

	proxy_log''')
same('D03', P, '''		priv->client_workers[i].next = priv->idle_workers_head;
		priv->idle_workers_head = &priv->client_workers[i];
	}
''', '''	}

	for (i = 0; i < priv->num_clients; i++) {
		priv->client_workers[i].next = priv->idle_workers_head;
		priv->idle_workers_head = &priv->client_workers[i];
	}
''')
