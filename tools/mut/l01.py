L = 'src/log.c'
P = 'src/proxy.c'
bad('L01', L, "\tcase LOG_MEDIUM_FILE:\n\t\tif (priv != NULL) {\n\t\t\ttime_t", "\tcase LOG_MEDIUM_FILE:\n\t\tif (lvl <= LOG_LEVEL_ERROR)\n\t\t\tvfprintf(stderr, fmt, args);\n\t\tif (priv != NULL) {\n\t\t\ttime_t")
bad('L01', P, "if (priv == NULL || (unsigned int)lvl > priv->log.level)", "if (priv == NULL || (unsigned int)lvl >= priv->log.level)")
bad('L01', L, "void log_vprintf(struct log_handle *log, enum LOG_LEVEL lvl,\n\t\t const char *fmt, va_list args)\n{\n\tstruct log_priv *priv = log->priv;\n\n\tif ((unsigned int)lvl > log->level)", "void log_vprintf(struct log_handle *log, enum LOG_LEVEL lvl,\n\t\t const char *fmt, va_list args)\n{\n\tstruct log_priv *priv = log->priv;\n\n\tif ((unsigned int)lvl > log->level + 1)")
bad('L01', L, "\tLOG_WARNING,\n", "")
bad('L01', L, "static const int SYSLOG_LEVEL[] = {\n\tLOG_CRIT,\n\tLOG_ERR,\n\tLOG_WARNING,\n\tLOG_INFO,\n\tLOG_DEBUG,\n", "static const int SYSLOG_LEVEL[5] = {\n\tLOG_CRIT,\n\tLOG_ERR,\n\tLOG_WARNING,\n\tLOG_INFO,\n")
bad('L01', L, "\tLOG_IDENT_DEBUG,\n", "")
bad('L01', L, "\tEVENTLOG_WARNING_TYPE,\n\tEVENTLOG_INFORMATION_TYPE,\n\tEVENTLOG_INFORMATION_TYPE,", "\tEVENTLOG_WARNING_TYPE,\n\tEVENTLOG_INFORMATION_TYPE,")
bad('L01', L, "\t\tif (fp == NULL) {\n\t\t\tret = -errno;\n\t\t} else {", "\t\tif (fp == NULL) {\n\t\t\tret = -errno;\n\t\t\tlog->medium = LOG_MEDIUM_NONE;\n\t\t} else {")
bad('L01', L, "\t\t\t\t\tpriv->medium_file.fp = fp;\n\t\t\t\t\tfclose(old_fp);", "\t\t\t\t\tpriv->medium_file.fp = fp;\n\t\t\t\t\t(void)old_fp;")
bad('L01', L, "\t{\n\t\tFILE *fp = fopen(target, \"a\");\n", "\t{\n\t\tFILE *fp;\n\n\t\tif (log->medium == LOG_MEDIUM_FILE && priv->medium_file.fp != NULL) {\n\t\t\tfclose(priv->medium_file.fp);\n\t\t\tpriv->medium_file.fp = NULL;\n\t\t}\n\t\tfp = fopen(target, \"a\");\n")
bad('L01', L, "\t\t\tlog->medium = LOG_MEDIUM_SYSLOG;\n\t\t\tif (priv->medium_file.fp != NULL) {\n\t\t\t\tfclose(priv->medium_file.fp);\n\t\t\t\tpriv->medium_file.fp = NULL;", "\t\t\tlog->medium = LOG_MEDIUM_SYSLOG;\n\t\t\tif (priv->medium_file.fp != NULL) {\n\t\t\t\tfclose(priv->medium_file.fp);")
bad('L01', L, "\t\tcase LOG_MEDIUM_SYSLOG:\n\t\t\tcloselog();\n\n\t\t\tbreak;\n\t\tcase LOG_MEDIUM_EVENTLOG:\n\t\t\tif (priv->medium_eventlog.handle != NULL) {\n\t\t\t\tDeregisterEventSource(priv->medium_eventlog.handle);\n\t\t\t\tpriv->medium_eventlog.handle = NULL;\n\t\t\t}\n\n\t\t\tbreak;\n\t\tdefault:", "\t\tcase LOG_MEDIUM_EVENTLOG:\n\t\t\tif (priv->medium_eventlog.handle != NULL) {\n\t\t\t\tDeregisterEventSource(priv->medium_eventlog.handle);\n\t\t\t\tpriv->medium_eventlog.handle = NULL;\n\t\t\t}\n\n\t\t\tbreak;\n\t\tdefault:")
bad('L01', L, "\tif (log->medium != LOG_MEDIUM_NONE)\n\t\treturn 0;\n", "")
bad('L01', L, "\tif (log->priv != NULL) {\n\t\tlog_close(log);\n", "\tif (log->priv != NULL) {\n\t\tif (log->medium != LOG_MEDIUM_FILE)\n\t\t\tlog_close(log);\n")
bad('L01', P, "\tret = log_select_medium(&priv->log, medium, target);\n", "\tlog_close(&priv->log);\n\tret = log_select_medium(&priv->log, medium, target);\n")
bad('L01', L, "\t\t\tvfprintf(priv->medium_file.fp, fmt, args);\n", "\t\t\tif (lvl != LOG_LEVEL_DEBUG || log->level > LOG_LEVEL_DEBUG)\n\t\t\t\tvfprintf(priv->medium_file.fp, fmt, args);\n")
same('L01', L, "\t\t\tvfprintf(priv->medium_file.fp, fmt, args);\n", "\t\t\t{\n\t\t\t\tchar line[1024];\n\n\t\t\t\tvsnprintf(line, sizeof(line), fmt, args);\n\t\t\t\tfputs(line, priv->medium_file.fp);\n\t\t\t}\n")
same('L01', L, "\t\tlog->medium = LOG_MEDIUM_NONE;\n\t\tswitch (old_medium) {\n\t\tcase LOG_MEDIUM_FILE:\n\t\t\tif (priv->medium_file.fp != NULL) {", "\t\tlog->medium = LOG_MEDIUM_NONE;\n\t\tswitch (old_medium) {\n\t\tcase LOG_MEDIUM_FILE:\n\t\t\t{")
same('L01', L, "\tif ((unsigned int)lvl > log->level)\n\t\treturn;\n\n\tva_start", "\tva_start")
