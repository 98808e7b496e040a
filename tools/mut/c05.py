m = 'src/mutex_posix.c'
bad('C05', m, '	while (priv->readers > 0) {\n		ret = pthread_cond_wait', '	if (priv->readers > 0) {\n		ret = pthread_cond_wait')
bad('C05', m, '	while (priv->readers > 0) {\n		ret = pthread_cond_wait', '	while (priv->readers > 1) {\n		ret = pthread_cond_wait')
bad('C05', m, 'if (--(priv->readers) <= 0)', 'if (--(priv->readers) == 1)')
bad('C05', m, 'if (--(priv->readers) <= 0)', 'if (priv->readers-- <= 0)')
bad('C05', m, '		ret = pthread_cond_broadcast(&priv->cond);\n		if (ret != 0) {\n			ret = -ret;\n			goto mutex_unlock_shared_exit', '		ret = pthread_cond_signal(&priv->cond);\n		if (ret != 0) {\n			ret = -ret;\n			goto mutex_unlock_shared_exit')
bad('C05', m, '	priv->readers++;\n\n	return -pthread_mutex_unlock(&priv->lock);', '	ret = -pthread_mutex_unlock(&priv->lock);\n	priv->readers++;\n	return ret;')
bad('C05', m, 'mutex_lock_exit:\n	pthread_mutex_unlock(&priv->lock);\n\n	return ret;', 'mutex_lock_exit:\n	return ret;')
bad('C05', m, 'mutex_unlock_shared_exit:\n	pthread_mutex_unlock(&priv->lock);\n\n	return ret;', 'mutex_unlock_shared_exit:\n	return ret;')
bad('C05', m, '	while (ret == 0 && mpriv->readers > 0)', '	if (ret == 0 && mpriv->readers > 0)')
bad('C05', m, '&& ret2 == 0 && mpriv->readers > 0)', '&& ret2 == 0 && mpriv->readers > 0 && ret != ETIMEDOUT)')
bad('C05', m, 'return -pthread_cond_broadcast(&priv->cond);', 'return -pthread_cond_signal(&priv->cond);')
bad('C05', m, '''	ret = pthread_mutex_lock(&priv->lock);
	if (ret != 0)
		return -ret;

	if (--(priv->readers) <= 0) {
''', '''	if (--(priv->readers) <= 0) {
		ret = pthread_mutex_lock(&priv->lock);
		if (ret != 0)
			return -ret;
''')
same('C05', m, '''	if (--(priv->readers) <= 0) {
		ret = pthread_cond_broadcast(&priv->cond);
		if (ret != 0) {
			ret = -ret;
			goto mutex_unlock_shared_exit;
		}
	}

	return -pthread_mutex_unlock(&priv->lock);

mutex_unlock_shared_exit:
	pthread_mutex_unlock(&priv->lock);

	return ret;
''', '''	priv->readers -= 1;
	if (priv->readers == 0)
		ret = pthread_cond_broadcast(&priv->cond);
	pthread_mutex_unlock(&priv->lock);
	return -ret;
''')
same('C05', m, 'if (--(priv->readers) <= 0) {\n', '--priv->readers;\n	{\n')
same('C05', m, '''	while (priv->readers > 0) {
		ret = pthread_cond_wait(&priv->cond, &priv->lock);
		if (ret != 0) {
			ret = -ret;
			goto mutex_lock_exit;
		}
	}

	return 0;
''', '''	for (;;) {
		if (!priv->readers)
			return 0;
		ret = pthread_cond_wait(&priv->cond, &priv->lock);
		if (ret != 0)
			break;
	}
	ret = -ret;
	goto mutex_lock_exit;
''')
# waits that nobody ends, and spinning while the internal mutex is held
bad('C05', m, '	while (priv->readers > 0) {', '	while (priv->readers >= 0) {')
bad('C05', m, '	while (ret == 0 && mpriv->readers > 0)', '	while (ret == 0 && mpriv->readers >= 0)')
bad('C05', m, 'ret2 == 0 && mpriv->readers > 0)', 'ret2 == 0 && mpriv->readers >= 0)')
bad('C05', m, '		ret = pthread_cond_wait(&priv->cond, &priv->lock);\n', '		;\n')
bad('C05', m, '		ret2 = pthread_cond_wait(&mpriv->cond, &mpriv->lock);', '		;')
bad('C05', m, '	while (ret == 0 && mpriv->readers > 0)\n		ret = pthread_cond_wait(&mpriv->cond, &mpriv->lock);', '	while (ret == 0 && mpriv->readers > 0)\n		;')
bad('R01', m, '	ret = pthread_cond_init(&priv->cond, NULL);\n	if (ret != 0) {\n		ret = -ret;\n\n		goto mutex_init_exit_late;\n	}\n', '')
bad('R01', m, '	ret = pthread_cond_init(&priv->cond, NULL);\n	if (ret != 0) {\n		ret = -ret;\n\n		goto condvar_init_exit;\n	}\n', '')
bad('R01', m, '	ret = pthread_cond_init(&priv->cond, NULL);\n	if (ret != 0) {\n		ret = -ret;\n\n		goto condvar_init_exit;\n	}\n', '	ret = 0;\n	if (ret != 0)\n		goto condvar_init_exit;\n')
