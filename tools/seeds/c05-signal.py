prop = 'C05'
needs = 'two threads waiting for the lock exclusively while it is held shared'
breaks = 'the last shared holder wakes only one waiter, and nobody ever wakes the other one'
edits = [('src/mutex_posix.c', '''	if (--(priv->readers) <= 0) {
		ret = pthread_cond_broadcast(&priv->cond);''', '''	if (--(priv->readers) <= 0) {
		ret = pthread_cond_signal(&priv->cond);''')]
demo = r'''
#include "h.h"

static struct mutex_handle m;
static volatile int got;

static void *writer(void *x)
{
	(void)x;
	mutex_lock(&m);
	__sync_fetch_and_add(&got, 1);
	mutex_unlock(&m);
	return NULL;
}

int main(void)
{
	pthread_t t[3];
	int i;

	limit(20);
	CHECK(mutex_init(&m) >= 0, "init");
	CHECK(mutex_lock_shared(&m) >= 0, "shared");
	for (i = 0; i < 3; i++)
		pthread_create(&t[i], NULL, writer, NULL);
	ms(300);
	CHECK(got == 0, "exclusive while shared");
	CHECK(mutex_unlock_shared(&m) >= 0, "release");
	for (i = 0; i < 50 && got < 3; i++)
		ms(100);
	CHECK(got == 3, "only %d of 3 waiters ever got the lock", got);
	return 0;
}
'''
