bad('A03', 'src/conf.c', 'strcmp(conf->password, "notset") == 0', 'val_len == 6 && strcmp(val, "notset") == 0')
bad('A03', 'src/conf.c', 'strcmp(conf->password, "notset") == 0', 'conf->port != 8100 && strcmp(conf->password, "notset") == 0')
bad('A03', 'src/conf.c', '"Error: Missing password\\n");\n\n\t\t\t\treturn -EINVAL;', '"Error: Missing password\\n");')
bad('A03', 'src/conf.c', "if (ret < 0)\n\t\t\treturn ret;\n\t}\n\n\tfree(line);", "}\n\n\tfree(line);")
bad('A03', 'src/proxy.c', "if (ph->conf.password == NULL) {", "if (ph->conf.password == NULL && ph->conf.reg_name == NULL) {")
bad('A03', 'src/proxy.c', "\tret = conf_parse_file(path, &ph->conf, &priv->log);\n\tif (ret < 0)", "\tret = conf_parse_file(path, &ph->conf, &priv->log);\n\tif (ret < 0 && ret != -EINVAL)")
bad('A03', 'src/conf.c', "\tconf->password = NULL;\n\tconf->port = 8100;", "\tconf->port = 8100;")
bad('A03', 'src/conf.c', 'if (strcmp(conf->password, "notset") == 0) {', 'if (memcmp(conf->password, "notset", 8) == 0) {')
same('A03', 'src/conf.c', 'strcmp(conf->password, "notset") == 0', 'val_len == 6 && memcmp(val, "notset", 6) == 0')
same('A03', 'src/conf.c', 'strcmp(conf->password, "notset") == 0', '!strcmp("notset", conf->password)')
