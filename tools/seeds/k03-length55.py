prop = 'K03'
needs = 'a message whose length is 55 modulo 64'
breaks = 'a block too many is hashed, so the digest is not the MD5 of the message'
edits = [('src/md5.c', 'if (available < 8) {', 'if (available <= 8) {')]
demo = r'''
#include "h.h"
#include "md5.h"

int main(void)
{
	uint8_t d[128], r[16];
	FILE *p;
	char hex[64], cmd[64];
	int n, i;

	limit(60);
	memset(d, 'a', sizeof(d));
	for (n = 0; n <= 128; n++) {
		FILE *f = fopen("msg", "w");

		fwrite(d, 1, n, f);
		fclose(f);
		p = popen("md5sum msg", "r");
		CHECK(p != NULL && fscanf(p, "%32s", hex) == 1, "md5sum");
		pclose(p);
		digest_get(d, n, r);
		for (i = 0; i < 16; i++) {
			snprintf(cmd, sizeof(cmd), "%02x", r[i]);
			CHECK(memcmp(cmd, hex + 2 * i, 2) == 0, "wrong digest of %d bytes", n);
		}
	}
	return 0;
}
'''
