prop = 'G02'
needs = 'a configuration without a bind address'
breaks = 'the socket only listens on the loopback address instead of every local address'
edits = [('src/conn.c', '''	hints.ai_flags = AI_PASSIVE;

	ret = getaddrinfo(conn->source_addr,
			  conn->source_port == NULL ? "0" : conn->source_port,
			  &hints, &res);
''', '''	ret = getaddrinfo(conn->source_addr,
			  conn->source_port == NULL ? "0" : conn->source_port,
			  &hints, &res);
	hints.ai_flags = AI_PASSIVE;
''')]
ldflags = '-Wl,--wrap=bind'
demo = r'''
#include "h.h"

static struct sockaddr_storage seen;
int __real_bind(int fd, const struct sockaddr *a, socklen_t n);

int __wrap_bind(int fd, const struct sockaddr *a, socklen_t n)
{
	memcpy(&seen, a, n < sizeof(seen) ? n : sizeof(seen));
	return __real_bind(fd, a, n);
}

int main(void)
{
	static const struct in6_addr any6;
	struct conn_handle c;

	limit(20);
	memset(&c, 0, sizeof(c));
	c.type = CONN_TYPE_UDP;
	CHECK(conn_init(&c) >= 0 && conn_listen(&c) >= 0, "listen");
	if (seen.ss_family == AF_INET)
		CHECK(((struct sockaddr_in *)&seen)->sin_addr.s_addr == 0, "bound to one address");
	else
		CHECK(memcmp(&((struct sockaddr_in6 *)&seen)->sin6_addr, &any6, sizeof(any6)) == 0, "bound to one address");
	conn_free(&c);
	return 0;
}
'''
