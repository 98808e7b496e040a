prop = 'A01'
needs = 'a login response that is right in all bytes but the last'
breaks = 'the comparison of the password response stops one byte early'
edits = [('src/proxy.c', 'for (idx += 1, j = 0; j < PROXY_PASS_RES_LEN; idx++, j++) {', 'for (idx += 1, j = 0; idx < 16 + 10 && j < PROXY_PASS_RES_LEN; idx++, j++) {')]
demo = r'''
#include "h.h"

/* a ten character callsign whose last response byte is wrong must be refused */
int main(void)
{
	struct proxy_handle ph = { 0 };
	char nonce[8];
	uint8_t resp[16];
	int s, v;

	limit(60);
	px_prepare(&ph, "SECRET");
	px_start(&ph);
	s = dial();
	CHECK(s >= 0 && rx(s, nonce, 8, 5000) == 1, "no challenge");
	answer(nonce, "SECRET", resp);
	resp[15] ^= 0x40;
	tx(s, "AB1CDE-10X\n", 11);
	tx(s, resp, 16);
	v = verdict(s, 1500);
	CHECK(v == 1, "login with a wrong response: verdict %d", v);
	close(s);
	return 0;
}
'''
