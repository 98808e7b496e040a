D, H, P = 'src/digest.c', 'src/pearson.c', 'src/proxy.c'
bad('K02', D, "'8', '9', 'a', 'b', 'c', 'd', 'e', 'f',", "'8', '9', 'a', 'b', 'd', 'c', 'e', 'f',")
bad('K02', D, "digest_to_hex8(data >> 0x10 & 0xff, &result[2]);", "digest_to_hex8(data >> 0x10 & 0x7f, &result[2]);")
bad('K02', D, "digest_to_hex8(data >> 0x8 & 0xff, &result[4]);", "digest_to_hex8(data >> 0x9 & 0xff, &result[4]);")
bad('K02', D, "digest_to_hex8_u(md5[i], result);", "digest_to_hex8(md5[i], result);")
bad('K02', D, "for (i = 0; i < DIGEST_LEN; i++, result += 2)", "for (i = 0; i < DIGEST_LEN - 1; i++, result += 2)")
bad('K02', D, "base = 'a' - 10;", "base = 'a' - 11;")
bad('K02', D, "if (data > 'F') {", "if (data >= 'F') {")
bad('K02', D, "if (data > 'f')", "if (data >= 'f')")
bad('K02', D, "hex4_to_digest(data[0]) * 16)", "hex4_to_digest(data[0]) * 15)")
bad('K02', D, "result.parts[2] = hex8_to_digest(&data[4]);", "result.parts[2] = hex8_to_digest(&data[5]);")
bad('K02', D, "return ntohl(result.value);", "return result.value;")
bad('K02', H, "ret ^ *data++", "(ret | *data++)")
bad('K02', H, "permutation_table[ret ^ *data++]", "permutation_table[(ret ^ *data++) & 0x7f]")
bad('K02', H, "while (--data_len > 0);", "while (0);")
bad('K02', H, "	uint8_t ret = data_len % 256;\n", "	static uint8_t ret;\n")
bad('K02', P, "pearson_get((uint8_t *)pw->callsign, strlen(pw->callsign))", "pearson_get((uint8_t *)pw->callsign, sizeof(pw->callsign))")
same('K02', D, "	result[0] = lookup[data / 16];\n	result[1] = lookup[data % 16];\n", "	result[1] = lookup[data & 15];\n	result[0] = lookup[data >> 4];\n")
same('K02', D, "	result[0] = lookup[data / 16];\n", "	result[0] = data / 16 < 10 ? '0' + data / 16 : data / 16 - 10 + 'a';\n	(void)lookup;\n")
same('K02', D, '''	char base = '0';

	if (data > '9') {
		if (data > 'F') {
			if (data > 'f')
				return 0;
			base = 'a' - 10;
		} else {
			base = 'A' - 10;
		}
	}

	if (data < base)
		return 0;

	return data - base;
''', '''	if (data >= '0' && data <= '9')
		return data - '0';
	switch (data | 0x20) {
	case 'a': return 10;
	case 'b': return 11;
	case 'c': return 12;
	case 'd': return 13;
	case 'e': return 14;
	case 'f': return 15;
	}
	return 0;
''')
same('K02', D, '''	result.parts[0] = hex8_to_digest(&data[0]);
	result.parts[1] = hex8_to_digest(&data[2]);
	result.parts[2] = hex8_to_digest(&data[4]);
	result.parts[3] = hex8_to_digest(&data[6]);

	return ntohl(result.value);''', '''	uint32_t v = 0;
	int i;
	(void)result;
	for (i = 0; i < 8; i++)
		v = (v << 4) | hex4_to_digest(data[i]);
	return v;''')
same('K02', D, '''	digest_to_hex8(data >> 0x18 & 0xff, &result[0]);
	digest_to_hex8(data >> 0x10 & 0xff, &result[2]);
	digest_to_hex8(data >> 0x8 & 0xff, &result[4]);
	digest_to_hex8(data & 0xff, &result[6]);''', '''	int i;
	for (i = 3; i >= 0; i--, data >>= 8)
		digest_to_hex8(data & 0xff, &result[2 * i]);''')
same('K02', H, '''	uint8_t ret = data_len % 256;

	if (data_len == 0)
		return 0;

	do {
		ret = permutation_table[ret ^ *data++];
	} while (--data_len > 0);

	return ret;''', '''	uint8_t ret = (uint8_t)data_len;
	size_t i;

	for (i = 0; i < data_len; i++)
		ret = permutation_table[data[i] ^ ret];

	return ret;''')
same('K02', P, "	hash = pearson_get((uint8_t *)pw->callsign, strlen(pw->callsign));", "	size_t len = strlen(pw->callsign);\n	hash = pearson_get((uint8_t *)pw->callsign, len);")
