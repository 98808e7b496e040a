prop = 'C06'
needs = 'a worker stopped while a wake-up is pending behind a call in progress'
breaks = 'the pending wake-up is dropped: the work is never done'
edits = [('src/worker.c', '''		if (priv->state == WORKER_SIGNALED)
			priv->state = WORKER_STOPPING_AFTER_WORK;''', '''		if (priv->state == WORKER_BUSY)
			priv->state = WORKER_STOPPING_AFTER_WORK;''')]
demo = r'''
#include "h.h"

static volatile int calls, gate;

static void func(struct worker_handle *wh)
{
	(void)wh;
	__sync_fetch_and_add(&calls, 1);
	while (!gate)
		ms(5);
}

static void *opener(void *x)
{
	(void)x;
	ms(300);
	gate = 1;
	return NULL;
}

int main(void)
{
	pthread_t t;
	struct worker_handle w;
	int i;

	limit(20);
	memset(&w, 0, sizeof(w));
	w.func_ptr = func;
	CHECK(worker_init(&w) >= 0 && worker_start(&w) >= 0, "start");
	ms(100);
	CHECK(worker_wake(&w) >= 0, "wake");
	for (i = 0; i < 200 && calls < 1; i++)
		ms(10);
	CHECK(calls == 1, "not run");
	CHECK(worker_wake(&w) >= 0, "wake while busy");
	pthread_create(&t, NULL, opener, NULL);
	worker_join(&w);
	CHECK(calls == 2, "the pending call was dropped");
	worker_free(&w);
	return 0;
}
'''
