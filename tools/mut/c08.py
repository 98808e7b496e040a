m, c, r, w = 'src/mutex_posix.c', 'src/conn.c', 'src/registration.c', 'src/worker.c'
SEC = '	abstime.tv_sec += (msec / 1000) + (abstime.tv_nsec / 1000000000);\n'
NS = '	abstime.tv_nsec += (msec % 1000) * 1000000;\n'
MOD = '	abstime.tv_nsec %= 1000000000;\n'
CLK = '	clock_gettime(CLOCK_REALTIME, &abstime);\n'
bad('C08', m, SEC, SEC.replace('msec / 1000)', 'msec / 999)'))
bad('C08', m, SEC, SEC.replace(' + (abstime.tv_nsec / 1000000000)', ''))
bad('C08', m, SEC, '')
bad('C08', m, NS, NS.replace('1000000;', '1000;'))
bad('C08', m, NS, NS.replace('(msec % 1000)', 'msec'))
bad('C08', m, NS, '')
bad('C08', m, MOD, '')
bad('C08', m, MOD, MOD.replace('1000000000', '999999999'))
bad('C08', m, CLK, CLK.replace('REALTIME', 'MONOTONIC'))
bad('C08', m, CLK, '	memset(&abstime, 0, sizeof(abstime));\n')
bad('C08', m, CLK + NS, NS + CLK)
bad('C08', m, SEC + MOD, MOD + SEC)
bad('C08', m, 'return ret == ETIMEDOUT ? 1 : -ret;', 'return ret == ETIMEDOUT ? 0 : -ret;')
bad('C08', m, 'return ret == ETIMEDOUT ? 1 : -ret;', 'return -ret;')
bad('C08', m, SEC + MOD, '	if (abstime.tv_nsec > 1000000000) {\n		abstime.tv_sec++;\n		abstime.tv_nsec -= 1000000000;\n	}\n	abstime.tv_sec += msec / 1000;\n')
bad('C08', m, NS + SEC + MOD, '	{\n		uint64_t t = (uint64_t)abstime.tv_nsec + msec * 1000000;\n\n		abstime.tv_sec += t / 1000000000;\n		abstime.tv_nsec = t % 1000000000;\n	}\n')
same('C08', m, SEC + MOD, '	if (abstime.tv_nsec >= 1000000000) {\n		abstime.tv_sec++;\n		abstime.tv_nsec -= 1000000000;\n	}\n	abstime.tv_sec += msec / 1000;\n')
same('C08', m, NS + SEC + MOD, '	{\n		uint64_t t = (uint64_t)abstime.tv_nsec + (uint64_t)msec * 1000000;\n\n		abstime.tv_sec += t / 1000000000;\n		abstime.tv_nsec = t % 1000000000;\n	}\n')
same('C08', m, NS + SEC + MOD, '	long extra = (msec % 1000) * 1000000L + abstime.tv_nsec;\n	time_t s = msec / 1000;\n\n	while (extra >= 1000000000) {\n		extra -= 1000000000;\n		s++;\n	}\n	abstime.tv_nsec = extra;\n	abstime.tv_sec += s;\n')
same('C08', m, NS + SEC + MOD, '	abstime.tv_nsec += (msec - (msec / 1000) * 1000) * 1000000L;\n	abstime.tv_sec += (msec / 1000) + (abstime.tv_nsec / 1000000000);\n	abstime.tv_nsec %= 1000000000;\n')
bad('C08', c, '	val.tv_usec = (msec % 1000) * 1000;', '	val.tv_usec = msec * 1000;')
bad('C08', c, '	val.tv_usec = (msec % 1000) * 1000;', '	val.tv_usec = msec % 1000;')
bad('C08', c, '	val.tv_sec = msec / 1000;', '	val.tv_sec = 0;')
bad('C08', c, 'priv->fd != INVALID_SOCKET ? priv->fd : priv->sock_fd,\n			 SOL_SOCKET, SO_RCVTIMEO', 'priv->sock_fd,\n			 SOL_SOCKET, SO_RCVTIMEO')
bad('C08', c, 'SOL_SOCKET, SO_RCVTIMEO', 'SOL_SOCKET, SO_SNDTIMEO')
same('C08', c, '	val.tv_sec = msec / 1000;\n	val.tv_usec = (msec % 1000) * 1000;', '	val.tv_usec = (long)msec * 1000 % 1000000;\n	val.tv_sec = msec / 1000;')
bad('C08', r, '	priv->worker.periodic_wake = UPDATE_INTERVAL;\n', '')
bad('C08', w, '				  	  wh->periodic_wake);'.replace('  	', '	') if False else '					  wh->periodic_wake);', '					  wh->periodic_wake / 1000);')
