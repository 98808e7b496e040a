R = 'src/registration.c'
P = 'src/proxy.c'
bad('N01', R, "\tif (conf->reg_name == NULL)\n\t\treturn 0;\n\n\tmutex_lock(&priv->mutex);\n", "\tmutex_lock(&priv->mutex);\n\tif (conf->reg_name == NULL && priv->reg_name == NULL) {\n\t\tmutex_unlock(&priv->mutex);\n\t\treturn 0;\n\t}\n")
bad('N01', R, "\tret = worker_wake(&priv->worker);\n\tif (ret < 0)\n\t\tgoto registration_service_start_end;\n\n\tif (priv->status", "\tif (priv->status")
bad('N01', R, "\tif (priv->status == REGISTRATION_STATUS_OFF)\n\t\tpriv->status = REGISTRATION_STATUS_UNKNOWN;\n\nregistration_service_start_end", "registration_service_start_end")
bad('N01', R, "\tif (priv->status == REGISTRATION_STATUS_OFF)\n\t\tpriv->status = REGISTRATION_STATUS_UNKNOWN;\n\nregistration_service_start_end", "\tpriv->status = REGISTRATION_STATUS_READY;\n\nregistration_service_start_end")
bad('N01', R, "\tif (priv->status < REGISTRATION_STATUS_OFF) {", "\tif (priv->status <= REGISTRATION_STATUS_OFF) {")
bad('N01', R, "\tif (priv->status < REGISTRATION_STATUS_OFF) {", "\tif (priv->status < REGISTRATION_STATUS_BUSY) {")
bad('N01', R, "slots_used >= slots_total ?", "slots_used > slots_total ?")
bad('N01', R, "\t\tpriv->slots_total = slots_total;\n\t\tworker_wake(&priv->worker);", "\t\tpriv->slots_total = slots_total;\n\t\tif (priv->status == REGISTRATION_STATUS_BUSY)\n\t\t\tworker_wake(&priv->worker);")
bad('N01', R, "\tpriv->status = REGISTRATION_STATUS_OFF;\n\tworker_wake(&priv->worker);\n", "\tworker_wake(&priv->worker);\n\tpriv->status = REGISTRATION_STATUS_OFF;\n")
bad('N01', R, "\tpriv->status = REGISTRATION_STATUS_OFF;\n\tworker_wake(&priv->worker);\n", "\tpriv->status = REGISTRATION_STATUS_OFF;\n")
bad('N01', R, "\tpriv->status = REGISTRATION_STATUS_OFF;\n\tworker_wake(&priv->worker);\n", "\tif (priv->status != REGISTRATION_STATUS_BUSY)\n\t\tpriv->status = REGISTRATION_STATUS_OFF;\n\tworker_wake(&priv->worker);\n")
bad('N01', R, "\tif (status <= REGISTRATION_STATUS_UNKNOWN)\n\t\treturn;\n", "\tif (status < REGISTRATION_STATUS_UNKNOWN)\n\t\tstatus = REGISTRATION_STATUS_READY;\n\tif (status == REGISTRATION_STATUS_UNKNOWN)\n\t\tstatus = REGISTRATION_STATUS_READY;\n")
bad('N01', R, "\tif (status <= REGISTRATION_STATUS_UNKNOWN)\n\t\treturn;\n", "\tif (status <= REGISTRATION_STATUS_READY)\n\t\treturn;\n")
bad('N01', R, "\"%s%d\\r\\n\\r\\n\", http_message,\n\t\t\t\tbody_length);", "\"%s%d\\r\\n\\r\\n\", http_message,\n\t\t\t\tbody_length + 2);")
bad('N01', R, "(uint8_t *)message_body, body_length);", "(uint8_t *)message_body, body_length - 1);")
bad('N01', R, "conn_recv(&conn, (uint8_t *)message_body, 13);", "conn_recv(&conn, (uint8_t *)message_body, 9);")
bad('N01', R, "strncmp(message_body, \"HTTP/1.1 200 \", 13) != 0", "strncmp(message_body, \"HTTP/1.1 200 \", 9) != 0")
bad('N01', R, "\tif (strncmp(message_body, \"HTTP/1.1 200 \", 13) != 0)\n\t\tret = -EINVAL;\n", "\tif (strncmp(message_body, \"HTTP/1.1 200 \", 13) != 0)\n\t\tret = 1;\n")
bad('N01', R, "\tNULL,\n\t\"Ready\",\n\t\"Busy\",\n\t\"Off\",", "\tNULL,\n\t\"Ready\",\n\t\"Busy\",\n\t\"Ready\",")
bad('N01', R, "conn_connect(&conn, http_host, \"80\")", "conn_connect(&conn, http_host, \"8080\")")
bad('N01', R, "comment=%s [%lu/%lu]&public=%c&status=%s%s\",\n\t\t\tpriv->reg_name, priv->reg_comment,\n\t\t\t(unsigned long)slots_used, (unsigned long)slots_total,", "comment=%s [%lu/%lu]&public=%c&status=%s%s\",\n\t\t\tpriv->reg_name, priv->reg_comment,\n\t\t\t(unsigned long)slots_total, (unsigned long)slots_used,")
bad('N01', P, "\tproxy_update_registration(ph);\n\n\treturn 0;\n\nproxy_start_exit:", "\treturn 0;\n\nproxy_start_exit:")
bad('N01', P, "\tret = registration_service_stop(&priv->reg_service);", "\tret = 0;")
same('N01', R, "\tret = conn_send(&conn, (uint8_t *)message_header, header_length);", "\tret = conn_send(&conn, (uint8_t *)message_header, strlen(message_header));")
same('N01', R, "\tif (status <= REGISTRATION_STATUS_UNKNOWN)\n\t\treturn;\n", "\tswitch (status) {\n\tcase REGISTRATION_STATUS_READY:\n\tcase REGISTRATION_STATUS_BUSY:\n\tcase REGISTRATION_STATUS_OFF:\n\t\tbreak;\n\tdefault:\n\t\treturn;\n\t}\n")
same('N01', R, "\tif (priv->status < REGISTRATION_STATUS_OFF) {", "\tif (priv->status != REGISTRATION_STATUS_OFF) {")
