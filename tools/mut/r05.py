cf = 'src/conf.c'
co = 'src/conn.c'
lo = 'src/log.c'
rg = 'src/registration.c'
px = 'src/proxy.c'
pc = 'src/proxy_conn.c'
dg = 'src/digest.c'
md = 'src/md5.c'
bad('R05', px, 'uint8_t buff[28];', 'uint8_t buff[26];')
bad('R05', px, "	buff[idx] = '\\0';\n	strcpy", "	strcpy")
bad('R05', px, '&buff[16], idx + 1)', '&buff[16], idx + 3)')
bad('R05', px, 'char nonce_str[9];', 'char nonce_str[7];')
bad('R05', px, '	char remote_addr[54] = { 0 };', '	char remote_addr[48] = { 0 };')
bad('R05', px, 'strlen(password) + 8;', 'strlen(password) + 7;')
bad('R05', px, 'strlen(password) + 8;', 'strlen(password);')
bad('R05', px, 'char port_str[6];', 'char port_str[5];')
bad('R05', px, 'uint8_t response[PROXY_PASS_RES_LEN];\n	int ret;\n\n	static', 'uint8_t response[PROXY_PASS_RES_LEN - 1];\n	int ret;\n\n	static')
bad('R05', px, 'char callsign[12];', 'char callsign[10];')
bad('R05', pc, 'strncpy(priv->callsign, callsign, sizeof(priv->callsign) - 1);', 'strncpy(priv->callsign, callsign, sizeof(priv->callsign));')
bad('R05', pc, 'strncpy(priv->callsign, callsign, sizeof(priv->callsign) - 1);', 'strncpy(priv->callsign, callsign, 16);')
bad('R05', pc, 'strncpy(priv->callsign, callsign, sizeof(priv->callsign) - 1);', 'strcpy(priv->callsign, callsign);')
bad('R05', pc, 'size_t curr_msg_size = msg_size > CONN_BUFF_LEN ?\n				       CONN_BUFF_LEN : msg_size;', 'size_t curr_msg_size = msg_size;')
bad('R05', pc, 'curr_msg_size = msg_size > CONN_BUFF_LEN ? CONN_BUFF_LEN :\n				msg_size;', 'curr_msg_size = msg_size > CONN_BUFF_LEN + 64 ? CONN_BUFF_LEN :\n				msg_size;')
bad('R05', pc, 'priv->conn_client, priv->buff, sizeof(struct proxy_msg)', 'priv->conn_client, priv->buff, CONN_BUFF_LEN + 1')
bad('R05', pc, 'char addr[16] = "";', 'char addr[12] = "";')
bad('R05', cf, 'malloc(128)', 'malloc(100)')
bad('R05', cf, 'if (so_far + 1 >= *n)', 'if (so_far >= *n)')
bad('R05', cf, 'if (so_far + 1 >= *n)', 'if (so_far + 1 > *n)')
bad('R05', cf, 'realloc(*lineptr, *n + 128)', 'realloc(*lineptr, *n + 1)')
bad('R05', cf, '*n += 128;', '*n += 256;')
bad('R05', cf, "	(*lineptr)[so_far] = '\\0';", "	(*lineptr)[*n] = '\\0';")
bad('R05', cf, 'conf->password = malloc(val_len + 1)', 'conf->password = malloc(val_len)')
bad('R05', cf, 'conf->reg_name = malloc(val_len + 1)', 'conf->reg_name = malloc(val_len)')
bad('R05', cf, "			conf->reg_name[val_len] = '\\0';\n", "")
bad('R05', cf, "			conf->calls_denied[val_len] = '\\0';\n", "")
bad('R05', cf, 'malloc(j - k + 1)', 'malloc(j - k)')
bad('R05', cf, 'conf->bind_addr_ext_add_len,\n				sizeof(*conf->bind_addr_ext_add)', 'conf->bind_addr_ext_add_len,\n				sizeof(**conf->bind_addr_ext_add)')
bad('R05', cf, 'for (i = 0, j = 0; i < conf->bind_addr_ext_add_len; i++)', 'for (i = 0, j = 0; i <= conf->bind_addr_ext_add_len; i++)')
bad('R05', cf, '"%hu%1s", &conf->port', '"%hu%2s", &conf->port')
bad('R05', cf, '"%hu%1s", &conf->port', '"%lu%1s", &conf->port')
bad('R05', cf, 'char dummy[2];', 'char dummy[1];')
bad('R05', rg, 'strlen(priv->reg_suffix) + 80)', 'strlen(priv->reg_suffix) + 60)')
bad('R05', rg, '			      strlen(priv->reg_comment) +\n', '')
bad('R05', rg, 'sizeof(http_message) + 14', 'sizeof(http_message) + 4')
bad('R05', rg, 'sizeof(protocol_version) + 18', 'sizeof(protocol_version) + 8')
bad('R05', rg, '(2 * DIGEST_LEN) +\n			    sizeof', 'DIGEST_LEN +\n			    sizeof')
bad('R05', rg, 'uint8_t digest[DIGEST_LEN];', 'uint8_t digest[DIGEST_LEN / 2];')
bad('R05', lo, 'vsnprintf(buff, 256, fmt, args)', 'vsprintf(buff, fmt, args)')
bad('R05', lo, 'vsnprintf(buff, 256, fmt, args)', 'vsnprintf(buff, 257, fmt, args)')
bad('R05', lo, 'strftime(tstamp, 16, "%b', 'strftime(tstamp, 32, "%b')
bad('R05', lo, '"%b %d %H:%M:%S"', '"%b %d %Y %H:%M:%S"')
bad('R05', co, 'dest, 46);\n		dest += strlen(dest);\n		dest[0] = \':\';', 'dest, 60);\n		dest += strlen(dest);\n		dest[0] = \':\';')
bad('R05', dg, '&result[6])', '&result[8])')
bad('R05', md, '		if (size < available) {', '		if (size < available + 8) {')
bad('R05', md, '		size &= 0x3f;', '		size &= 0x7f;')
bad('R05', md, '	if (size >= 64) {', '	if (size >= 256) {')
bad('R05', md, 'if (available < 8)', 'if (available < 4)')
same('R05', pc, 'strncpy(priv->callsign, callsign, sizeof(priv->callsign) - 1);', 'strncpy(priv->callsign, callsign, 11);\n	priv->callsign[11] = 0;')
same('R05', px, 'uint8_t buff[28];', 'uint8_t buff[32];')
same('R05', rg, 'strlen(priv->reg_suffix) + 80)', 'strlen(priv->reg_suffix) + 100)')
same('R05', cf, 'realloc(*lineptr, *n + 128);\n			if (temp_ptr == NULL)\n				return -ENOMEM;\n\n			*lineptr = temp_ptr;\n			*n += 128;', 'realloc(*lineptr, *n * 2);\n			if (temp_ptr == NULL)\n				return -ENOMEM;\n\n			*lineptr = temp_ptr;\n			*n *= 2;')
same('R05', dg, 'for (i = 0; i < DIGEST_LEN; i++, result += 2)\n		digest_to_hex8_u(md5[i], result);', 'for (i = 0; i < DIGEST_LEN; i++)\n		digest_to_hex8_u(md5[i], &result[2 * i]);')
