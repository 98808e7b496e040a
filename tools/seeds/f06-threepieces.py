prop = 'F06'
needs = 'a read of a given length that the network delivers in three or more pieces'
breaks = 'the third piece is stored beyond its place, so the data has a gap and its end is overwritten memory'
edits = [('src/conn.c', '''		buff_len -= ret;
		buff += ret;
		ret = bytes_read += ret;''', '''		buff_len -= ret;
		bytes_read += ret;
		buff += bytes_read;
		ret = bytes_read;''')]
demo = r'''
#include "h.h"

static void *feeder(void *x)
{
	int s = *(int *)x;

	tx(s, "ab", 2);
	ms(200);
	tx(s, "cd", 2);
	ms(200);
	tx(s, "efgh", 4);
	return NULL;
}

int main(void)
{
	struct conn_handle l, a;
	uint8_t buf[64];
	char port[8];
	pthread_t t;
	int s, one = 1;

	limit(20);
	memset(&l, 0, sizeof(l));
	memset(&a, 0, sizeof(a));
	memset(buf, '-', sizeof(buf));
	l.type = a.type = CONN_TYPE_TCP;
	snprintf(port, sizeof(port), "%d", base_port());
	l.source_addr = "127.0.0.1";
	l.source_port = port;
	CHECK(conn_init(&l) >= 0 && conn_init(&a) >= 0 && conn_listen(&l) >= 0, "listen");
	s = dial();
	setsockopt(s, IPPROTO_TCP, 1, &one, sizeof(one));
	CHECK(s >= 0 && conn_accept(&l, &a) >= 0, "accept");
	pthread_create(&t, NULL, feeder, &s);
	CHECK(conn_recv(&a, buf, 8) == 8, "length");
	CHECK(memcmp(buf, "abcdefgh--", 10) == 0, "data damaged: %.12s", buf);
	pthread_join(t, NULL);
	conn_free(&a);
	conn_free(&l);
	return 0;
}
'''
