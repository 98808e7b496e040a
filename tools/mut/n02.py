r = 'src/registration.c'
bad('N02', r, '	digest_to_str(digest, &reg_suffix[ret]);\n', '')
bad('N02', r, '	digest_get((uint8_t *)reg_suffix, ret, digest);', '	digest_get((uint8_t *)reg_suffix, ret - 1, digest);')
bad('N02', r, '	digest_get((uint8_t *)reg_suffix, ret, digest);', '	digest_get((uint8_t *)reg_suffix, ret + 1, digest);')
bad('N02', r, '	digest_get((uint8_t *)reg_suffix, ret, digest);\n', '	digest_get((uint8_t *)priv->reg_name, strlen(priv->reg_name), digest);\n')
bad('N02', r, 'sprintf(reg_suffix, "%s%s%s", priv->reg_name, public_addr,', 'sprintf(reg_suffix, "%s%s%s", public_addr, priv->reg_name,')
bad('N02', r, '"&a=%s&d=", public_addr);', '"&a=%s&d=", priv->reg_name);')
bad('N02', r, '"&p=%d&v=%s", conf->port,', '"&p=%d&v=%s", 8100,')
bad('N02', r, '&reg_suffix[ret + (2 * DIGEST_LEN)]', '&reg_suffix[ret + DIGEST_LEN]')
bad('N02', r, '"PUBLIC") == 0 ? \'Y\' : \'N\'', '"PUBLIC") == 0 ? \'N\' : \'Y\'')
bad('N02', r, 'strcmp(conf->password, "PUBLIC") == 0', 'strncmp(conf->password, "PUBLIC", 6) == 0')
bad('N02', r, 'conf->public_addr == NULL ?\n				   "" : conf->public_addr;', 'conf->reg_name == NULL ?\n				   "" : conf->bind_addr == NULL ? "" : conf->bind_addr;')
bad('N02', r, '	digest_get((uint8_t *)reg_suffix, ret, digest);\n\n	ret = sprintf(reg_suffix, "&a=%s&d=", public_addr);\n	if (ret < 0)\n		goto registration_service_start_end;\n', '	ret = sprintf(reg_suffix, "&a=%s&d=", public_addr);\n	if (ret < 0)\n		goto registration_service_start_end;\n\n	digest_get((uint8_t *)reg_suffix, ret, digest);\n')
bad('N01', r, '			priv->public, status_str, priv->reg_suffix);\n	else', '			\'N\', status_str, priv->reg_suffix);\n	else')
same('N02', r, '	ret = sprintf(reg_suffix, "%s%s%s", priv->reg_name, public_addr,\n		      digest_salt);', '	ret = strlen(priv->reg_name);\n	memcpy(reg_suffix, priv->reg_name, ret);\n	strcpy(&reg_suffix[ret], public_addr);\n	strcat(reg_suffix, digest_salt);\n	ret = strlen(reg_suffix);')
same('N02', r, '	priv->public = strcmp(conf->password, "PUBLIC") == 0 ? \'Y\' : \'N\';\n', '	priv->public = \'N\';\n	if (!strcmp("PUBLIC", conf->password))\n		priv->public = \'Y\';\n')
same('N02', r, '	ret = sprintf(reg_suffix, "&a=%s&d=", public_addr);\n	if (ret < 0)\n		goto registration_service_start_end;\n\n	digest_to_str(digest, &reg_suffix[ret]);\n', '	strcpy(reg_suffix, "&a=");\n	strcat(reg_suffix, public_addr);\n	strcat(reg_suffix, "&d=");\n	ret = strlen(reg_suffix);\n	digest_to_str(digest, reg_suffix + ret);\n')
bad('N02', r, '	reg_suffix = malloc(strlen(priv->reg_name) + strlen(public_addr) +\n			    (2 * DIGEST_LEN) +\n			    sizeof(protocol_version) + 18);\n', '')
