prop = 'L01'
needs = 'selecting a log file while another log file is already in use'
breaks = 'the previous log file is never closed'
edits = [('src/log.c', '''					priv->medium_file.fp = fp;
					fclose(old_fp);''', '''					priv->medium_file.fp = fp;
					fflush(old_fp);''')]
demo = r'''
#include "h.h"

static int fds(void)
{
	int i, n = 0;

	for (i = 0; i < 512; i++)
		n += fcntl(i, F_GETFD) != -1;
	return n;
}

int main(void)
{
	struct log_handle log;
	int i, n = 0;

	limit(20);
	memset(&log, 0, sizeof(log));
	CHECK(log_init(&log) >= 0, "init");
	for (i = 0; i < 10; i++) {
		CHECK(log_select_medium(&log, LOG_MEDIUM_FILE, i & 1 ? "a.log" : "b.log") >= 0, "select");
		if (i == 0)
			n = fds();
	}
	CHECK(fds() <= n, "%d log files left open", fds() - n);
	log_free(&log);
	return 0;
}
'''
