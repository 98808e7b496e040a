M, D = 'src/md5.c', 'src/digest.c'
bad('K03', M, 'ctx->hi += size >> 29;', 'ctx->hi += size >> 28;')
bad('K03', M, 'ctx->hi += size >> 29;', '')
bad('K03', M, '		ctx->hi++;\n', '		;\n')
bad('K03', M, '& 0x1fffffff) < saved_lo)', '& 0x1fffffff) <= saved_lo)')
bad('K03', M, '(saved_lo + size) & 0x1fffffff', '(saved_lo + size) & 0x3fffffff')
bad('K03', M, 'if (size < available) {', 'if (size <= available) {')
bad('K03', M, '		size -= available;\n', '')
bad('K03', M, 'data = (const unsigned char *)data + available;', 'data = (const unsigned char *)data + used;')
bad('K03', M, 'if (size >= 64) {', 'if (size > 64) {')
bad('K03', M, 'if (size >= 64) {', 'if (size >= 0) {')
bad('K03', M, '		size &= 0x3f;\n', '		size &= 0x1f;\n')
bad('K03', M, 'if (available < 8) {', 'if (available <= 8) {')
bad('K03', M, 'if (available < 8) {', 'if (available < 7) {')
bad('K03', M, 'ctx->buffer[used++] = 0x80;', 'ctx->buffer[used++] = 0x01;')
bad('K03', M, 'memset(&ctx->buffer[used], 0, available - 8);', 'if (used) memset(&ctx->buffer[used], 0, available - 8);')
bad('K03', M, 'ctx->lo <<= 3;', '')
bad('K03', M, 'ctx->buffer[57] = ctx->lo >> 8;\n	ctx->buffer[58] = ctx->lo >> 16;', 'ctx->buffer[57] = ctx->lo >> 16;\n	ctx->buffer[58] = ctx->lo >> 8;')
bad('K03', M, 'ctx->buffer[60] = ctx->hi;', 'ctx->buffer[60] = 0;')
bad('K03', M, '	ctx->lo = 0;\n	ctx->hi = 0;', '	ctx->lo = 0;')
bad('K03', D, 'MD5_Update(&ctx, data, len);', 'MD5_Update(&ctx, data, (uint16_t)len);')
bad('K03', D, 'MD5_Update(&ctx, data, len);', 'MD5_Update(&ctx, data, len < 256 ? len : 256);')
bad('K03', M, 'data = body(ctx, data, size & ~(unsigned long)0x3f);', 'body(ctx, data, size & ~(unsigned long)0x3f);')
same('K03', M, 'ctx->hi += size >> 29;', 'ctx->hi += (MD5_u32plus)(size / 0x20000000UL);')
same('K03', M, '''	if ((ctx->lo = (saved_lo + size) & 0x1fffffff) < saved_lo)
		ctx->hi++;
	ctx->hi += size >> 29;
''', '''	{
		unsigned long sum = (unsigned long)saved_lo + (size & 0x1fffffff);
		ctx->lo = sum & 0x1fffffff;
		ctx->hi += (MD5_u32plus)(size >> 29) + (MD5_u32plus)(sum >> 29);
	}
''')
same('K03', M, '''		data = body(ctx, data, size & ~(unsigned long)0x3f);
		size &= 0x3f;
''', '''		unsigned long whole = size - size % 64;
		body(ctx, data, whole);
		data = (const unsigned char *)data + whole;
		size -= whole;
''')
same('K03', M, '''	if (size >= 64) {
		data = body(ctx, data, size & ~(unsigned long)0x3f);
		size &= 0x3f;
	}
''', '''	while (size >= 64) {
		data = body(ctx, data, 64);
		size -= 64;
	}
''')
same('K03', M, 'memset(&ctx->buffer[used], 0, available - 8);', 'while (used < 56)\n		ctx->buffer[used++] = 0;')
same('K03', M, '		memcpy(&ctx->buffer[used], data, available);\n', '''		{
			unsigned long i;
			for (i = 0; i < available; i++)
				ctx->buffer[used + i] = ((const unsigned char *)data)[i];
		}
''')
same('K03', D, '	MD5_Update(&ctx, data, len);\n', '	MD5_Update(&ctx, data, len / 2);\n	MD5_Update(&ctx, data + len / 2, len - len / 2);\n')
same('K01 K02 K03', D, '	MD5_CTX ctx;\n', '	MD5_CTX ctx;\n\n	(void)ctx;\n')
