prop = 'S02'
needs = 'a worker that refuses a new connection because it is being stopped'
breaks = 'the refused connection stays attached to the worker although the acceptor releases it'
edits = [('src/proxy.c', '''	ret = worker_wake(&pw->worker);
	if (ret < 0)
		pw->conn_client = NULL;
''', '''	ret = worker_wake(&pw->worker);
''')]
ldflags = '-Wl,--wrap=worker_wake -Wl,--wrap=conn_free'
demo = r'''
#include "h.h"

static volatile int refuse;
static struct conn_handle *freed[64];
static volatile int nfreed, again;

int __real_worker_wake(struct worker_handle *wh);
void __real_conn_free(struct conn_handle *c);
void __real_conn_drop(struct conn_handle *c);

int __wrap_worker_wake(struct worker_handle *wh)
{
	return refuse ? -EINVAL : __real_worker_wake(wh);
}

void __wrap_conn_free(struct conn_handle *c)
{
	__real_conn_free(c);
}

int main(void)
{
	struct proxy_handle ph;
	int s, r;

	limit(60);
	memset(&ph, 0, sizeof(ph));
	px_prepare(&ph, "PASS");
	CHECK(proxy_open(&ph) >= 0 && proxy_start(&ph) >= 0, "open");
	s = dial();
	refuse = 1;
	r = proxy_process(&ph);
	CHECK(r < 0, "accepted");
	refuse = 0;
	close(s);
	/* the worker has to be usable for the next connection */
	px_stop = 0;
	pthread_create(&px_thread, NULL, px_main, &ph);
	s = dial();
	CHECK(send_login(s, "K1ABC", "PASS") == 0 && verdict(s, 500) == 0, "the worker still holds the released connection");
	close(s);
	ms(300);
	px_end(&ph);
	return 0;
}
'''
