p, c, d = 'src/proxy.c', 'src/proxy_client.c', 'src/digest.c'
bad('A04', p, '*password <= 122', '*password < 122')
bad('A04', p, '*password >= 97', '*password >= 96')
bad('A04', p, '*password >= 97 && *password <= 122', '*password >= 97')
bad('A04', p, 'digest_get(pass_with_nonce, pass_with_nonce_len, response)', 'digest_get(pass_with_nonce, pass_with_nonce_len - 1, response)')
bad('A04', p, 'digest_to_hex32(nonce, iter)', 'digest_to_hex32(nonce & 0x00ffffff, iter)')
bad('A04', p, "while (*password != '\\0') {\n\t\tif (*pass", "while (*password != '\\0' && iter - (char *)pass_with_nonce < 32) {\n\t\tif (*pass")
bad('A04', p, "digest_get(pass_with_nonce, pass_with_nonce_len, response);", "if (pass_with_nonce_len > 64)\n\t\tpass_with_nonce_len = 64;\n\tdigest_get(pass_with_nonce, pass_with_nonce_len, response);")
bad('A04', d, 'MD5_Update(&ctx, data, len);', 'MD5_Update(&ctx, data, len > 55 ? 55 : len);')
bad('A04', d, 'MD5_Update(&ctx, data, len);', 'MD5_Update(&ctx, data, len & 0xff);')
bad('A04', c, 'nonce = hex32_to_digest(nonce_str);', 'nonce = hex32_to_digest(nonce_str) | 1;')
bad('A04', c, 'if (password == NULL)', "if (password == NULL || *password == '\\0')")
bad('A04', c, 'password = "PUBLIC"', 'password = "public "')
bad('A04', p, 'digest_to_hex32(nonce, iter);', "digest_to_hex32(nonce, (char *)pass_with_nonce + (pass_with_nonce_len > 40 ? 32 : pass_with_nonce_len - 8));")
bad('A04', p, '*iter = *password - 32;', '*iter = *password - 31;')
bad('A04', p, '	if (pass_with_nonce == NULL)\n		return -ENOMEM;\n', '	if (pass_with_nonce == NULL)\n		return 0;\n')
same('A04', p, '*iter = *password - 32;', '*iter = *password & ~0x20;')
same('A04', p, '*iter = *password - 32;', '*iter = *password ^ 0x20;')
same('A04', p, '*password >= 97 && *password <= 122', "'a' <= *password && *password < 'z' + 1")
same('A04', p, '''	while (*password != '\\0') {
		if (*password >= 97 && *password <= 122)
			*iter = *password - 32;
		else
			*iter = *password;

		iter++;
		password++;
	}
''', '''	size_t i;

	for (i = 0; password[i] != '\\0'; i++)
		iter[i] = password[i] >= 97 && password[i] <= 122 ? password[i] - 32 : password[i];
	iter += i;
''')
same('A04', p, '''	while (*password != '\\0') {
		if (*password >= 97 && *password <= 122)
			*iter = *password - 32;
		else
			*iter = *password;

		iter++;
		password++;
	}

	digest_to_hex32(nonce, iter);
''', '''	unsigned int i;

	for (i = 0; i < pass_with_nonce_len - 8; i++)
		iter[i] = password[i] >= 97 && password[i] <= 122 ? password[i] - 32 : password[i];
	digest_to_hex32(nonce, iter + pass_with_nonce_len - 8);
''')
same('A04', p, """		if (*password >= 97 && *password <= 122)
			*iter = *password - 32;
		else
			*iter = *password;
""", """		extern int toupper(int);
		*iter = (char)toupper((unsigned char)*password);
""")
same('A04', p, """int get_password_response(uint32_t nonce, const char *password,
			  uint8_t response[PROXY_PASS_RES_LEN])
{
	unsigned int pass_with_nonce_len = (unsigned int)strlen(password) + 8;
	uint8_t *pass_with_nonce = malloc(pass_with_nonce_len);
	char *iter = (char *)pass_with_nonce;

	if (pass_with_nonce == NULL)
		return -ENOMEM;

	while (*password != '\\0') {
		if (*password >= 97 && *password <= 122)
			*iter = *password - 32;
		else
			*iter = *password;
""", """static char upper_ascii(char c)
{
	return c < 97 || c > 122 ? c : c - 32;
}

int get_password_response(uint32_t nonce, const char *password,
			  uint8_t response[PROXY_PASS_RES_LEN])
{
	unsigned int pass_with_nonce_len = (unsigned int)strlen(password) + 8;
	uint8_t *pass_with_nonce = malloc(pass_with_nonce_len);
	char *iter = (char *)pass_with_nonce;

	if (pass_with_nonce == NULL)
		return -ENOMEM;

	while (*password != '\\0') {
		*iter = upper_ascii(*password);
""")
