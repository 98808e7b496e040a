t, w, p, c, r = 'src/thread_posix.c', 'src/worker.c', 'src/proxy.c', 'src/proxy_conn.c', 'src/registration.c'
bad('C09', r, '	priv->worker.func_ctx = rs;\n', '')
bad('C09', r, '	priv->worker.func_ctx = rs;\n', '	priv->worker.func_ctx = priv;\n')
bad('C09', r, '	priv->worker.func_ptr = registration_func;\n', '')
bad('C09', p, '	pw->worker.func_ctx = pw;\n', '	pw->worker.func_ctx = &pw->worker;\n')
bad('C09', p, '	pw->worker.func_ctx = pw;\n', '')
bad('C09', c, '	priv->worker_data.func_ptr = forwarder_data;', '	priv->worker_data.func_ptr = forwarder_control;')
bad('C09', c, '	priv->worker_tcp.func_ctx = pc;\n', '')
bad('C09', w, '	priv->thread.func_ctx = wh;\n', '	priv->thread.func_ctx = wh->func_ctx;\n')
bad('C09', w, '	priv->thread.func_ptr = worker_func;\n', '')
bad('C09', w, '	priv->thread.stack_size = wh->stack_size;\n', '')
bad('C09', t, 'pt->func_ptr, pt);', 'pt->func_ptr, pt->func_ctx);')
bad('C09', t, '	priv->dirty = !(ret);', '	priv->dirty = 1;')
bad('C09', t, '	priv->dirty = !(ret);', '	priv->dirty = ret;')
bad('C09', t, '	thread_join(pt);\n\n	mutex_lock', '	mutex_lock')
bad('C09', t, '	if (pt->stack_size > 0) {', '	if (pt->stack_size > 65536) {')
bad('C09', t, '&attr, pt->func_ptr', 'NULL, pt->func_ptr')
bad('C09', t, '	if (!priv->dirty) {', '	if (priv->dirty) {')
bad('C09', t, '		priv->dirty = 0;\n\n		if (ret', '		if (ret')
bad('C09', t, '		priv->dirty = 0;\n\n		if (ret == 0)\n', '		if (ret == 0)\n			priv->dirty = 0;\n\n		if (ret == 0)\n')
same('C09', r, '	priv->worker.func_ctx = rs;\n	priv->worker.func_ptr = registration_func;\n', '', ) if False else None
same('C09', r, '''	priv->worker.func_ctx = rs;
	priv->worker.func_ptr = registration_func;
	priv->worker.periodic_wake = UPDATE_INTERVAL;
	priv->worker.stack_size = 1024 * 1024;
	ret = worker_init(&priv->worker);
	if (ret != 0)
		goto registration_service_init_exit;
''', '''	priv->worker.periodic_wake = UPDATE_INTERVAL;
	priv->worker.stack_size = 1024 * 1024;
	ret = worker_init(&priv->worker);
	if (ret != 0)
		goto registration_service_init_exit;
	priv->worker.func_ctx = rs;
	priv->worker.func_ptr = registration_func;
''')
same('C09', t, '	priv->dirty = !(ret);', '	if (ret == 0)\n		priv->dirty = 1;')
same('C09', w, '			wh->func_ptr(wh);', '			priv->thread.func_ctx = wh;\n			wh->func_ptr(wh);')
same('C09', p, '	pw->worker.func_ctx = pw;\n', '') if False else None
same('C09', c, """	priv->worker_tcp.func_ctx = pc;
	priv->worker_tcp.func_ptr = forwarder_tcp;
""", """	priv->worker_tcp.func_ptr = &forwarder_tcp;
	priv->worker_tcp.func_ctx = priv->worker_data.func_ctx;
""")
