prop = 'S01'
needs = 'a station reconnecting to the slot at the end of a pool of several slots, leaving, and every slot being wanted afterwards'
breaks = 'the tail of the slot pool keeps pointing into the last slot taken, so a returning slot never becomes available again'
edits = [('src/proxy.c', '''	if (pc->next == NULL)
		priv->idle_clients_tail_ptr = pc->prev_ptr;''', '''	if (pc->next == NULL && priv->idle_clients_head == NULL)
		priv->idle_clients_tail_ptr = pc->prev_ptr;''')]
demo = r'''
#include "h.h"

static int login(const char *call)
{
	int s = dial();

	CHECK(s >= 0, "connect");
	if (send_login(s, call, "PASS") != 0) {
		close(s);
		return -1;
	}
	if (verdict(s, 1000) != 0) {
		close(s);
		return -1;
	}
	return s;
}

int main(void)
{
	struct proxy_handle ph;
	int a, b, i, s = -1;

	limit(60);
	memset(&ph, 0, sizeof(ph));
	px_prepare(&ph, "PASS");
	ph.conf.bind_addr_ext_add = calloc(1, sizeof(char *));
	ph.conf.bind_addr_ext_add[0] = strdup("127.0.0.2");
	ph.conf.bind_addr_ext_add_len = 1;
	px_start(&ph);
	a = login("K1AAA");
	CHECK(a >= 0, "first login");
	close(a);
	ms(700);
	a = login("K1AAA");
	CHECK(a >= 0, "reconnect");
	close(a);
	ms(700);
	b = login("K1BBB");
	CHECK(b >= 0, "second station");
	for (i = 0; i < 3 && s < 0; i++) {
		s = login("K1CCC");
		if (s < 0)
			ms(500);
	}
	CHECK(s >= 0, "only one of two slots can still be used");
	close(s);
	close(b);
	ms(300);
	px_end(&ph);
	return 0;
}
'''
