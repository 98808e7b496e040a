prop = 'R05'
needs = 'a TCP peer that has more data pending than the relay buffer holds'
breaks = 'the TCP relay reads past the end of its buffer'
edits = [('src/proxy_conn.c', '''		ret = conn_recv_any(&priv->conn_tcp, buf + sizeof(*msg),
				    CONN_BUFF_LEN_HEADERLESS, NULL, NULL);''', '''		ret = conn_recv_any(&priv->conn_tcp, buf + sizeof(*msg),
				    CONN_BUFF_LEN, NULL, NULL);''')]
ldflags = '-Wl,--wrap=conn_recv_any'
demo = r'''
#include "h.h"

static volatile size_t asked;

int __real_conn_recv_any(struct conn_handle *conn, uint8_t *buff, size_t n, uint32_t *addr, uint16_t *port);

int __wrap_conn_recv_any(struct conn_handle *conn, uint8_t *buff, size_t n, uint32_t *addr, uint16_t *port)
{
	if (n > asked)
		asked = n;
	return __real_conn_recv_any(conn, buff, n, addr, port);
}

int main(void)
{
	struct proxy_handle ph;
	struct sockaddr_in a = { 0 };
	uint8_t m[64] = { 0 };
	static uint8_t big[32768];
	int s, l, p, one = 1;

	limit(60);
	l = socket(AF_INET, SOCK_STREAM, 0);
	setsockopt(l, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
	a.sin_family = AF_INET;
	a.sin_addr.s_addr = inet_addr("127.0.0.9");
	a.sin_port = htons(5200);
	CHECK(bind(l, (struct sockaddr *)&a, sizeof(a)) == 0 && listen(l, 5) == 0, "peer");
	memset(&ph, 0, sizeof(ph));
	px_prepare(&ph, "PASS");
	px_start(&ph);
	s = dial();
	CHECK(send_login(s, "K1ABC", "PASS") == 0 && verdict(s, 500) == 0, "login");
	m[0] = 1;
	memcpy(m + 1, &a.sin_addr.s_addr, 4);
	tx(s, m, 9);
	CHECK(rx(s, m, 13, 5000) == 1 && m[0] == 4 && m[9] == 0, "not connected");
	p = accept(l, NULL, NULL);
	CHECK(p >= 0, "accept");
	ms(100);
	CHECK(asked > 0 && asked + 9 <= 4096, "%d bytes are read behind a header of 9 into a buffer of %d", (int)asked, (int)sizeof(big) / 8);
	close(p);
	CHECK(rx(s, big, 9, 3000) == 1 && big[0] == 3, "end");
	close(s);
	ms(300);
	px_end(&ph);
	return 0;
}
'''
