prop = 'C07'
needs = 'an outgoing TCP connection whose local address cannot be bound'
breaks = 'the socket of the attempt is never closed, one descriptor is lost per attempt'
edits = [('src/conn.c', '''	ret = bind(priv->sock_fd, res->ai_addr, (socklen_t)res->ai_addrlen);
	if (ret == SOCKET_ERROR) {
		ret = SOCK_ERRNO;
		goto conn_connect_free;
	}

	ret = connect(''', '''	ret = bind(priv->sock_fd, res->ai_addr, (socklen_t)res->ai_addrlen);
	if (ret == SOCKET_ERROR) {
		ret = SOCK_ERRNO;
		goto conn_connect_free_early;
	}

	ret = connect(''')]
demo = r'''
#include "h.h"

static int fds(void)
{
	int i, n = 0;

	for (i = 0; i < 512; i++)
		n += fcntl(i, F_GETFD) != -1;
	return n;
}

int main(void)
{
	struct conn_handle c;
	int i, before = 0;

	limit(20);
	memset(&c, 0, sizeof(c));
	c.type = CONN_TYPE_TCP;
	c.source_addr = "192.0.2.77";
	CHECK(conn_init(&c) >= 0, "init");
	for (i = 0; i < 20; i++) {
		CHECK(conn_connect(&c, "127.0.0.1", "9") < 0, "connected");
		if (i == 3)
			before = fds();
	}
	CHECK(fds() <= before, "%d descriptors leaked", fds() - before);
	conn_free(&c);
	return 0;
}
'''
