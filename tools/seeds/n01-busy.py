prop = 'N01'
needs = 'a registered proxy whose slots all become used'
breaks = 'the directory is told that the proxy is ready although no slot is available'
edits = [('src/registration.c', 'slots_used >= slots_total ?', 'slots_used > slots_total ?')]
ldflags = '-Wl,--wrap=conn_connect -Wl,--wrap=conn_send -Wl,--wrap=conn_recv'
demo = r'''
#include "h.h"

static char body[4096];
static volatile int reports;

int __wrap_conn_connect(struct conn_handle *c, const char *a, const char *p)
{
	return 0;
}

int __wrap_conn_send(struct conn_handle *c, const uint8_t *b, size_t n)
{
	if (n < sizeof(body) - 1 && memmem(b, n, "status=", 7) != NULL) {
		memcpy(body, b, n);
		body[n] = 0;
		reports++;
	}
	return 0;
}

int __wrap_conn_recv(struct conn_handle *c, uint8_t *b, size_t n)
{
	memcpy(b, "HTTP/1.1 200 OK\r\n", n > 17 ? 17 : n);
	return n;
}

int main(void)
{
	struct registration_service_handle rs;
	struct proxy_conf conf;
	int i, n;

	limit(20);
	memset(&rs, 0, sizeof(rs));
	memset(&conf, 0, sizeof(conf));
	conf.password = "PUBLIC";
	conf.reg_name = "K1ABC";
	CHECK(registration_service_init(&rs) >= 0 && registration_service_start(&rs, &conf) >= 0, "start");
	ms(200);
	registration_service_update(&rs, 0, 1);
	ms(300);
	CHECK(reports > 0 && strstr(body, "status=Ready") != NULL, "ready expected: %s", body);
	n = reports;
	registration_service_update(&rs, 1, 1);
	for (i = 0; i < 100 && reports == n; i++)
		ms(20);
	CHECK(reports > n && strstr(body, "status=Busy") != NULL, "busy expected: %s", body);
	registration_service_stop(&rs);
	registration_service_free(&rs);
	return 0;
}
'''
