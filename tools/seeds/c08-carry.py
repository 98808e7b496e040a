prop = 'C08'
needs = 'a timed wait whose part below a second crosses into the next second'
breaks = 'the carry is lost from the seconds: the wait ends about a second early'
edits = [('src/mutex_posix.c', '''	abstime.tv_nsec += (msec % 1000) * 1000000;
	abstime.tv_sec += (msec / 1000) + (abstime.tv_nsec / 1000000000);
	abstime.tv_nsec %= 1000000000;
''', '''	abstime.tv_sec += (msec / 1000) + (abstime.tv_nsec / 1000000000);
	abstime.tv_nsec += (msec % 1000) * 1000000;
	abstime.tv_nsec %= 1000000000;
''')]
ldflags = '-Wl,--wrap=clock_gettime'
demo = r'''
#include "h.h"

static long long asked;
int __real_clock_gettime(clockid_t c, struct timespec *t);

int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
	int r = __real_clock_gettime(c, t);

	return r;
}

int main(void)
{
	struct mutex_handle m;
	struct condvar_handle v;
	struct timespec a, b;
	int i, r;

	limit(60);
	memset(&m, 0, sizeof(m));
	memset(&v, 0, sizeof(v));
	CHECK(mutex_init(&m) >= 0 && condvar_init(&v) >= 0, "init");
	/* start late in a second, so that 300 ms cross into the next one */
	for (i = 0; i < 3; i++) {
		do {
			__real_clock_gettime(CLOCK_REALTIME, &a);
		} while (a.tv_nsec < 850000000 || a.tv_nsec > 950000000);
		mutex_lock(&m);
		r = condvar_wait_time(&v, &m, 300);
		mutex_unlock(&m);
		__real_clock_gettime(CLOCK_REALTIME, &b);
		asked = (b.tv_sec - a.tv_sec) * 1000LL + (b.tv_nsec - a.tv_nsec) / 1000000;
		CHECK(r >= 0 && asked >= 250, "waited %lld ms instead of 300", asked);
	}
	condvar_free(&v);
	mutex_free(&m);
	return 0;
}
'''
