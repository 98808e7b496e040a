prop = 'K03'
needs = 'data of 512 MiB or more given to one update'
breaks = 'the upper half of the bit count is lost, the digest is not that of the data'
edits = [('src/md5.c', '	ctx->hi += size >> 29;\n', '	ctx->hi += (MD5_u32plus)size >> 30;\n')]
demo = r'''
#include "h.h"

int main(void)
{
	static const uint8_t want[16] = { 0xaa, 0x55, 0x9b, 0x4e, 0x35, 0x23, 0xa6, 0xc9,
		0x31, 0xf0, 0x8f, 0x4d, 0xf5, 0x2d, 0x58, 0xf2 };
	uint8_t got[16];
	size_t n = (size_t)512 << 20;
	uint8_t *p = calloc(1, n);

	limit(100);
	CHECK(p != NULL, "memory");
	digest_get(p, n, got);
	CHECK(memcmp(want, got, 16) == 0, "wrong digest");
	free(p);
	return 0;
}
'''
