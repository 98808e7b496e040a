prop = 'S03'
needs = 'a station whose callsign is the beginning of the callsign last served, both with the same lookup hash'
breaks = 'the station is taken for the reconnecting other station and gets that slot instead of the oldest one'
edits = [('src/proxy_conn.c', '(reconnect_only && strcmp(priv->callsign, callsign) != 0)', '(reconnect_only && strncmp(priv->callsign, callsign, strlen(callsign)) != 0)')]
demo = r'''
#include "h.h"

static int taken(const char *addr)
{
	struct sockaddr_in a = { 0 };
	int s = socket(AF_INET, SOCK_DGRAM, 0), r;

	a.sin_family = AF_INET;
	a.sin_addr.s_addr = inet_addr(addr);
	a.sin_port = htons(5198);
	r = bind(s, (struct sockaddr *)&a, sizeof(a));
	close(s);
	return r != 0;
}

int main(void)
{
	struct proxy_handle ph;
	char longer[12], shorter[12] = "K1AB";
	int s, i, j, n;

	limit(60);
	/* a longer callsign with the same hash */
	longer[0] = 0;
	for (i = 0; i < 26 * 26 && !longer[0]; i++) {
		for (j = 0; j < 26 && !longer[0]; j++) {
			char c[12];

			n = snprintf(c, sizeof(c), "K1AB%c%c%c", 'A' + i / 26, 'A' + i % 26, 'A' + j);
			if (pearson_get((uint8_t *)c, n) == pearson_get((uint8_t *)shorter, 4))
				strcpy(longer, c);
		}
	}
	CHECK(longer[0], "no such callsign");
	memset(&ph, 0, sizeof(ph));
	px_prepare(&ph, "PASS");
	ph.conf.bind_addr_ext_add = calloc(1, sizeof(char *));
	ph.conf.bind_addr_ext_add[0] = strdup("127.0.0.2");
	ph.conf.bind_addr_ext_add_len = 1;
	px_start(&ph);
	s = dial();
	CHECK(send_login(s, longer, "PASS") == 0 && verdict(s, 700) == 0, "first login");
	CHECK(taken("127.0.0.1") != taken("127.0.0.2"), "one slot in use");
	n = taken("127.0.0.1");
	close(s);
	ms(700);
	CHECK(!taken("127.0.0.1") && !taken("127.0.0.2"), "slot released");
	s = dial();
	CHECK(send_login(s, shorter, "PASS") == 0 && verdict(s, 700) == 0, "second login");
	CHECK(taken("127.0.0.1") != n, "another station was taken for the reconnecting one");
	close(s);
	ms(300);
	px_end(&ph);
	return 0;
}
'''
