/* Helpers for the demonstrations: an in-process proxy on loopback addresses and a raw client. */
#define _GNU_SOURCE
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <pthread.h>
#include <poll.h>
#include <signal.h>
#include <time.h>
#include <stdint.h>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include "openelp/openelp.h"
#include "conf.h"
#include "conn.h"
#include "digest.h"
#include "log.h"
#include "mutex.h"
#include "pearson.h"
#include "proxy_client.h"
#include "proxy_conn.h"
#include "rand.h"
#include "regex.h"
#include "registration.h"
#include "thread.h"
#include "worker.h"

#define FAIL(...) do { printf("FAIL: " __VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } while (0)
#define CHECK(c, ...) do { if (!(c)) FAIL(__VA_ARGS__); } while (0)

static void on_alarm(int s)
{
	static const char m[] = "FAIL: timed out\n";
	(void)s;
	if (write(1, m, sizeof(m) - 1)) {}
	_exit(1);
}

static void limit(int seconds)
{
	signal(SIGALRM, on_alarm);
	signal(SIGPIPE, SIG_IGN);
	alarm(seconds);
}

static uint16_t base_port(void)
{
	static uint16_t p;
	int i, s, one = 1;
	struct sockaddr_in a = { 0 };

	while (p == 0) {
		for (i = 0; i < 200 && p == 0; i++) {
			a.sin_family = AF_INET;
			a.sin_addr.s_addr = inet_addr("127.0.0.1");
			a.sin_port = htons(20000 + (getpid() * 7 + i * 13) % 20000);
			s = socket(AF_INET, SOCK_STREAM, 0);
			setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
			if (bind(s, (struct sockaddr *)&a, sizeof(a)) == 0)
				p = ntohs(a.sin_port);
			close(s);
		}
	}
	return p;
}

static volatile int px_stop, px_ret, px_done;

static void *px_main(void *arg)
{
	struct proxy_handle *ph = arg;

	while (!px_stop) {
		px_ret = proxy_process(ph);
		if (px_ret < 0 && px_ret != -EINTR)
			break;
	}
	px_done = 1;
	return NULL;
}

static pthread_t px_thread;

static void px_prepare(struct proxy_handle *ph, const char *password)
{
	CHECK(proxy_init(ph) >= 0, "proxy_init");
	proxy_log_level(ph, LOG_LEVEL_FATAL);
	ph->conf.bind_addr = strdup("127.0.0.1");
	ph->conf.bind_addr_ext = strdup("127.0.0.1");
	ph->conf.password = strdup(password);
	ph->conf.port = base_port();
}

static void px_start(struct proxy_handle *ph)
{
	CHECK(proxy_open(ph) >= 0, "proxy_open");
	CHECK(proxy_start(ph) >= 0, "proxy_start");
	px_stop = 0;
	pthread_create(&px_thread, NULL, px_main, ph);
}

static void px_end(struct proxy_handle *ph)
{
	px_stop = 1;
	proxy_shutdown(ph);
	pthread_join(px_thread, NULL);
	proxy_free(ph);
}

static void ms(int n)
{
	usleep(n * 1000);
}

static int dial(void)
{
	struct sockaddr_in a = { 0 };
	int s = socket(AF_INET, SOCK_STREAM, 0);

	a.sin_family = AF_INET;
	a.sin_addr.s_addr = inet_addr("127.0.0.1");
	a.sin_port = htons(base_port());
	if (connect(s, (struct sockaddr *)&a, sizeof(a)) != 0) {
		close(s);
		return -1;
	}
	return s;
}

/* 1: got n bytes, 0: end of stream, -1: nothing within the time */
static int rx(int s, void *buf, int n, int wait_ms)
{
	char *p = buf;
	struct pollfd f;

	while (n > 0) {
		int r;

		f.fd = s;
		f.events = POLLIN;
		if (poll(&f, 1, wait_ms) <= 0)
			return -1;
		r = recv(s, p, n, 0);
		if (r <= 0)
			return 0;
		p += r;
		n -= r;
	}
	return 1;
}

static void tx(int s, const void *buf, int n)
{
	const char *p = buf;

	while (n > 0) {
		int r = send(s, p, n, MSG_NOSIGNAL);

		if (r <= 0)
			return;
		p += r;
		n -= r;
	}
}

/* the response a station computes: MD5(upper case password followed by the challenge) */
static void answer(const char nonce[8], const char *password, uint8_t out[16])
{
	uint8_t t[512];
	int n = 0;

	for (; *password; password++)
		t[n++] = *password >= 'a' && *password <= 'z' ? *password - 32 : *password;
	memcpy(t + n, nonce, 8);
	digest_get(t, n + 8, out);
}

static int send_login(int s, const char *call, const char *password)
{
	char nonce[8];
	uint8_t resp[16];

	if (rx(s, nonce, 8, 5000) != 1)
		return -1;
	answer(nonce, password, resp);
	tx(s, call, strlen(call));
	tx(s, "\n", 1);
	tx(s, resp, 16);
	return 0;
}

/* what the proxy says to a login: 0 nothing (accepted), else the code of the refusal, -1 closed */
static int verdict(int s, int wait_ms)
{
	uint8_t m[10];
	int r = rx(s, m, 10, wait_ms);

	if (r == -1)
		return 0;
	if (r == 0)
		return -1;
	return m[0] == 7 ? m[9] : -2;
}
