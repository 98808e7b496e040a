prop = 'F05'
needs = 'a new station for the slot while the control relay of the previous session has not ended yet'
breaks = 'the slot is given up before its last relay has stopped'
edits = [('src/proxy_conn.c', '''	worker_wait_idle(&priv->worker_data);
	worker_wait_idle(&priv->worker_control);

	mutex_lock(&priv->mutex_client);

	priv->conn_client = NULL;

	mutex_unlock(&priv->mutex_client);
''', '''	worker_wait_idle(&priv->worker_data);

	mutex_lock(&priv->mutex_client);

	priv->conn_client = NULL;

	mutex_unlock(&priv->mutex_client);

	worker_wait_idle(&priv->worker_control);
''')]
ldflags = '-Wl,--wrap=worker_wait_idle -Wl,--wrap=proxy_conn_finish'
demo = r'''
#include "h.h"

static struct proxy_conn_handle *volatile current;
static volatile int vacated_early;

int __real_worker_wait_idle(struct worker_handle *wh);
void __real_proxy_conn_finish(struct proxy_conn_handle *pc);

int __wrap_worker_wait_idle(struct worker_handle *wh)
{
	/* the relay takes a while to end */
	ms(100);
	if (current != NULL && !proxy_conn_in_use(current))
		vacated_early = 1;
	return __real_worker_wait_idle(wh);
}

void __wrap_proxy_conn_finish(struct proxy_conn_handle *pc)
{
	current = pc;
	__real_proxy_conn_finish(pc);
	current = NULL;
}

int main(void)
{
	struct proxy_handle ph;
	int s;

	limit(60);
	memset(&ph, 0, sizeof(ph));
	px_prepare(&ph, "PASS");
	px_start(&ph);
	s = dial();
	CHECK(send_login(s, "K1ABC", "PASS") == 0 && verdict(s, 500) == 0, "login");
	close(s);
	ms(1500);
	px_end(&ph);
	CHECK(!vacated_early, "the slot was vacated while a relay was still awaited");
	return 0;
}
'''
