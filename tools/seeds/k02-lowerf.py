prop = 'K02'
needs = 'a hexadecimal text with the digit f in lower case'
breaks = 'the digit f is read as zero'
edits = [('src/digest.c', "if (data > 'f')", "if (data >= 'f')")]
demo = r'''
#include "h.h"

int main(void)
{
	uint32_t v;
	char t[9];
	int i;

	limit(60);
	for (i = 0; i < 2000000; i++) {
		uint32_t x = (uint32_t)i * 2654435761u;

		snprintf(t, sizeof(t), "%08x", x);
		v = hex32_to_digest(t);
		CHECK(v == x, "%s is read as %08x", t, v);
	}
	return 0;
}
'''
