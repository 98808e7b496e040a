prop = 'A04'
needs = 'a configured password containing the letter z in lower case'
breaks = 'the letter z is not converted to upper case before the response is computed'
edits = [('src/proxy.c', '*password >= 97 && *password <= 122', '*password >= 97 && *password < 122')]
demo = r'''
#include "h.h"

int main(void)
{
	uint8_t a[16], b[16];

	limit(20);
	CHECK(get_password_response(0x1234abcd, "jazz", a) >= 0 && get_password_response(0x1234abcd, "JAZZ", b) >= 0, "response");
	CHECK(memcmp(a, b, 16) == 0, "password is case sensitive");
	answer("1234abcd", "jAzZ", a);
	CHECK(memcmp(a, b, 16) == 0, "wrong response");
	return 0;
}
'''
