
M = 'src/md5.c'
bad('K01', M, 'SET(1), 0xe8c7b756, 12)', 'SET(1), 0xe8c7b757, 12)')
bad('K01', M, 'SET(9), 0x8b44f7af, 12)', 'SET(9), 0x8b44f7af, 13)')
bad('K01', M, 'STEP(F, c, d, a, b, SET(10), 0xffff5bb1, 17)\n\t\tSTEP(F, b, c, d, a, SET(11), 0x895cd7be, 22)',
    'STEP(F, c, d, a, b, SET(11), 0xffff5bb1, 17)\n\t\tSTEP(F, b, c, d, a, SET(10), 0x895cd7be, 22)')
bad('K01', M, '((y) ^ ((z) & ((x) ^ (y))))', '((y) ^ ((z) & ((x) | (y))))')
bad('K01', M, '((y) ^ ((x) | ~(z)))', '((y) ^ ((x) & ~(z)))')
bad('K01', M, '#define H2(x, y, z)			((x) ^ ((y) ^ (z)))', '#define H2(x, y, z)			((x) ^ ((y) | (z)))')
bad('K01', M, '\t\tc += saved_c;\n', '')
bad('K01', M, '\t\tc += saved_c;\n', '\t\tc += saved_d;\n')
bad('K01', M, '''		saved_a = a;
		saved_b = b;
		saved_c = c;
		saved_d = d;
''', '''		saved_a = ctx->a;
		saved_b = ctx->b;
		saved_c = ctx->c;
		saved_d = ctx->d;
''')
bad('K01', M, 'ptr += 64;', 'ptr += 60;')
bad('K01', M, 'while (size -= 64);', 'while ((size -= 64) > 64);')
bad('K01', M, '\tctx->a = a;\n\tctx->b = b;\n', '\tctx->a = b;\n\tctx->b = a;\n')
bad('K01', M, 'ctx->b = 0xefcdab89;', 'ctx->b = 0xefcdab98;')
bad('K01', M, 'result[1] = ctx->a >> 8;\n\tresult[2] = ctx->a >> 16;', 'result[1] = ctx->a >> 16;\n\tresult[2] = ctx->a >> 8;')
bad('K01', M, 'result[8] = ctx->c;', 'result[8] = ctx->d;')
bad('K01', M, '(a) = (((a) << (s)) | (((a) & 0xffffffff) >> (32 - (s)))); \\', '(a) = (((a) << (s)) | (((a) & 0x7fffffff) >> (32 - (s)))); \\')
bad('K01', M, '#if defined(__i386__) || defined(__x86_64__) || defined(__vax__)', '#if 0', )if False else None
BYTES = '''#define SET(n) \\
	((MD5_u32plus)ptr[(n) * 4] | \\
	((MD5_u32plus)ptr[(n) * 4 + 1] << 8) | \\
	((MD5_u32plus)ptr[(n) * 4 + %s] << 16) | \\
	((MD5_u32plus)ptr[(n) * 4 + %s] << 24))
'''
O = '''#define SET(n) \\
	(*(MD5_u32plus *)&ptr[(n) * 4])
'''
bad('K01', M, O, BYTES % (3, 2))
same('K01', M, O, BYTES % (2, 3))
same('K01', M, '((z) ^ ((x) & ((y) ^ (z))))', '(((x) & (y)) | (~(x) & (z)))')
same('K01', M, '((y) ^ ((z) & ((x) ^ (y))))', '(((x) & (z)) | ((y) & ~(z)))')
same('K01', M, 'do {\n\t\tsaved_a', 'while (size >= 64) {\n\t\tsaved_a', '} while (size -= 64);', 'size -= 64;\n\t}') if False else None
same('K01', M, '	(a) += f((b), (c), (d)) + (x) + (t); \\\n', '	(a) += (t); \\\n	(a) += (x) + f((b), (c), (d)); \\\n')
same('K01', M, '''	ctx->a = 0x67452301;
	ctx->b = 0xefcdab89;
''', '''	ctx->b = ~(MD5_u32plus)0x10325476;
	ctx->a = 1732584193;
''')
same('K01', M, '''	result[0] = ctx->a;
	result[1] = ctx->a >> 8;
	result[2] = ctx->a >> 16;
	result[3] = ctx->a >> 24;
''', '''	{
		int i;
		for (i = 0; i < 4; i++)
			result[i] = (ctx->a >> (8 * i)) & 0xff;
	}
''')
same('K01', M, '''		a += saved_a;
		b += saved_b;
		c += saved_c;
		d += saved_d;
''', '''		ctx->a = a += saved_a;
		ctx->b = b = saved_b + b;
		ctx->c = c += saved_c;
		ctx->d = d += saved_d;
''')
