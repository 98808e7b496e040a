w = 'src/worker.c'
t = 'src/thread_posix.c'
bad('C06', w, '			else\n				priv->state = WORKER_BUSY;\n			mutex_unlock(&priv->mutex);\n			wh->func_ptr(wh);', '			mutex_unlock(&priv->mutex);\n			wh->func_ptr(wh);\n			if (0) ;')
bad('C06', w, 'if (priv->state == WORKER_STOPPING_AFTER_WORK)\n				priv->state = WORKER_STOPPING;\n			else\n				priv->state = WORKER_BUSY;', 'priv->state = WORKER_BUSY;')
bad('C06', w, '		if (priv->state <= WORKER_STOPPING)\n			break;\n', '')
bad('C06', w, '		condvar_wake_all(&priv->condvar_idle);\n\n		if (wh', '		if (wh')
bad('C06', w, '			if (priv->state == WORKER_IDLE)\n				priv->state = WORKER_SIGNALED;\n		} else', '			priv->state = WORKER_SIGNALED;\n		} else')
bad('C06', w, 'condvar_wait(&priv->condvar, &priv->mutex);\n		}', 'condvar_wait(&priv->condvar, &priv->mutex);\n			if (priv->state == WORKER_IDLE)\n				priv->state = WORKER_SIGNALED;\n		}')
bad('C06', w, 'if (priv->state == WORKER_SIGNALED)\n			priv->state = WORKER_STOPPING_AFTER_WORK;\n		else\n			priv->state = WORKER_STOPPING;', 'priv->state = WORKER_STOPPING;')
bad('C06', w, '	condvar_wake_all(&priv->condvar_idle);\n\n	mutex_unlock(&priv->mutex);\n\n	return thread_join', '	mutex_unlock(&priv->mutex);\n\n	return thread_join')
bad('C06', w, 'if (ret < 0)\n			priv->state = WORKER_STOPPED;\n	}', '}')
bad('C06', w, '	if (priv->state <= WORKER_STOPPED) {\n		priv->state = WORKER_STARTING;\n		ret', '	if (priv->state <= WORKER_STOPPING) {\n		priv->state = WORKER_STARTING;\n		ret')
bad('C06', w, 'while (priv->state < WORKER_IDLE) {\n		if (priv->state < WORKER_BUSY) {', 'while (priv->state < WORKER_SIGNALED) {\n		if (priv->state < WORKER_BUSY) {')
bad('C06', w, '	if (priv->state > WORKER_STOPPING_AFTER_WORK) {\n		if (priv->state == WORKER_IDLE)\n			condvar_wake_all(&priv->condvar);\n		priv->state = WORKER_SIGNALED;', '	if (priv->state > WORKER_STOPPING) {\n		if (priv->state == WORKER_IDLE)\n			condvar_wake_all(&priv->condvar);\n		priv->state = WORKER_SIGNALED;')
bad('C06', w, '	if (priv->state > WORKER_STOPPING_AFTER_WORK) {\n		if (priv->state == WORKER_IDLE)\n			condvar_wake_all(&priv->condvar);\n		priv->state = WORKER_SIGNALED;', '	if (priv->state > WORKER_BUSY) {\n		if (priv->state == WORKER_IDLE)\n			condvar_wake_all(&priv->condvar);\n		priv->state = WORKER_SIGNALED;')
bad('C06', w, '	if (priv->state > WORKER_STOPPING_AFTER_WORK) {\n		if (priv->state == WORKER_IDLE)\n			condvar_wake_all(&priv->condvar);\n		priv->state = WORKER_SIGNALED;', '	if (priv->state > WORKER_STOPPING_AFTER_WORK) {\n		if (priv->state == WORKER_IDLE) {\n			condvar_wake_all(&priv->condvar);\n		priv->state = WORKER_SIGNALED;}')
bad('C06', w, 'wh->periodic_wake);\n			if', '1000);\n			if')
bad('C06', w, 'priv->state >= WORKER_IDLE)\n		ret = 1', 'priv->state >= WORKER_SIGNALED)\n		ret = 1')
same('C06', w, '''	while (priv->state > WORKER_STOPPING) {
		while (priv->state == WORKER_SIGNALED ||
		       priv->state == WORKER_STOPPING_AFTER_WORK) {
			if (priv->state == WORKER_STOPPING_AFTER_WORK)
				priv->state = WORKER_STOPPING;
			else
				priv->state = WORKER_BUSY;
			mutex_unlock(&priv->mutex);
			wh->func_ptr(wh);
			mutex_lock(&priv->mutex);
		}

		if (priv->state <= WORKER_STOPPING)
			break;

''', '''	for (;;) {
		if (priv->state == WORKER_STOPPED || priv->state == WORKER_STOPPING)
			break;
		if (priv->state == WORKER_SIGNALED ||
		       priv->state == WORKER_STOPPING_AFTER_WORK) {
			priv->state = priv->state == WORKER_SIGNALED ? WORKER_BUSY : WORKER_STOPPING;
			mutex_unlock(&priv->mutex);
			wh->func_ptr(wh);
			mutex_lock(&priv->mutex);
			continue;
		}

''')
same('C06', w, '''	if (priv->state > WORKER_STOPPING_AFTER_WORK) {
		if (priv->state == WORKER_IDLE)
			condvar_wake_all(&priv->condvar);
		priv->state = WORKER_SIGNALED;
		ret = 0;
	}
''', '''	switch (priv->state) {
	case WORKER_IDLE:
	case WORKER_BUSY:
	case WORKER_SIGNALED:
	case WORKER_STARTING:
		priv->state = WORKER_SIGNALED;
		ret = 0;
		condvar_wake_all(&priv->condvar);
	default:
		break;
	}
''')
bad('C06', w, '		condvar_wait(&priv->condvar_idle, &priv->mutex);\n	}', '		condvar_wait(&priv->condvar_idle, &priv->mutex);\n		break;\n	}')
bad('C06', t, '	thread_join(pt);\n\n	mutex_lock(&priv->mutex);\n\n	ret = pthread_create', '	mutex_lock(&priv->mutex);\n\n	ret = pthread_create')
bad('C06', t, 'priv->dirty = !(ret);', 'priv->dirty = 1;')
bad('C06', t, '		priv->dirty = 0;\n\n		if (ret == 0)', '		if (ret == 0)')
bad('C06', t, 'if (!priv->dirty) {', 'if (priv->dirty) {')
same('C06', t, '	priv->dirty = !(ret);\n', '	if (ret == 0)\n		priv->dirty = 1;\n	else\n		priv->dirty = 0;\n')
# waiting without giving the lock up; periodic work forgotten (found by tools/campaign.py)
bad('C06', 'src/worker.c', "		condvar_wait(&priv->condvar_idle, &priv->mutex);\n", "		;\n")
bad('C06', 'src/worker.c', "			if (priv->state == WORKER_IDLE)\n				priv->state = WORKER_SIGNALED;", "			;")
bad('C06', 'src/worker.c', "if (wh->periodic_wake > 0) {", "if (wh->periodic_wake > 1) {")
