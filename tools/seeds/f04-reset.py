prop = 'F04'
needs = 'the peer of a relayed TCP connection ending it by a reset instead of an orderly close'
breaks = 'the client is never told that its TCP connection has ended'
edits = [('src/proxy_conn.c', '''	switch (ret) {
	case -ECONNRESET:
	case -EINTR:
	case -ENOTCONN:
	case -EPIPE:
		break;
	default:
		proxy_log(pc->ph, LOG_LEVEL_WARN,
			  "Failed to receive data on client '%s' TCP''', '''	switch (ret) {
	case -ECONNRESET:
		conn_close(&priv->conn_tcp);
		return;
	case -EINTR:
	case -ENOTCONN:
	case -EPIPE:
		break;
	default:
		proxy_log(pc->ph, LOG_LEVEL_WARN,
			  "Failed to receive data on client '%s' TCP''')]
demo = r'''
#include "h.h"

int main(void)
{
	struct proxy_handle ph;
	struct sockaddr_in a = { 0 };
	struct linger li = { 1, 0 };
	uint8_t m[64] = { 0 };
	int s, l, p, one = 1;

	limit(60);
	l = socket(AF_INET, SOCK_STREAM, 0);
	setsockopt(l, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
	a.sin_family = AF_INET;
	a.sin_addr.s_addr = inet_addr("127.0.0.9");
	a.sin_port = htons(5200);
	CHECK(bind(l, (struct sockaddr *)&a, sizeof(a)) == 0 && listen(l, 5) == 0, "peer");
	memset(&ph, 0, sizeof(ph));
	px_prepare(&ph, "PASS");
	px_start(&ph);
	s = dial();
	CHECK(send_login(s, "K1ABC", "PASS") == 0 && verdict(s, 500) == 0, "login");
	m[0] = 1;
	memcpy(m + 1, &a.sin_addr.s_addr, 4);
	tx(s, m, 9);
	CHECK(rx(s, m, 13, 5000) == 1 && m[0] == 4 && m[9] == 0, "not connected");
	p = accept(l, NULL, NULL);
	CHECK(p >= 0, "accept");
	ms(200);
	setsockopt(p, SOL_SOCKET, SO_LINGER, &li, sizeof(li));
	close(p);
	CHECK(rx(s, m, 9, 3000) == 1 && m[0] == 3, "the end of the TCP connection was not announced");
	close(s);
	ms(300);
	px_end(&ph);
	return 0;
}
'''
