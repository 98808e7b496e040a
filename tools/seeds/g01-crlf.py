prop = 'G01'
needs = 'a configuration file with carriage return line ends'
breaks = 'every text setting keeps the carriage return as its last character'
edits = [('src/conf.c', '''			       val[val_len - 1] == '\\n' ||
			       val[val_len - 1] == '\\r'))''', '''			       val[val_len - 1] == '\\n'))''')]
demo = r'''
#include "h.h"

int main(void)
{
	struct proxy_handle ph;
	FILE *f;

	limit(20);
	f = fopen("crlf.conf", "w");
	fputs("Password=secret\r\nPort=8101\r\nRegistrationName=K1ABC-R\r\n", f);
	fclose(f);
	memset(&ph, 0, sizeof(ph));
	CHECK(proxy_init(&ph) >= 0, "init");
	proxy_log_level(&ph, LOG_LEVEL_FATAL);
	CHECK(proxy_load_conf(&ph, "crlf.conf") >= 0, "load");
	CHECK(ph.conf.port == 8101, "port");
	CHECK(strcmp(ph.conf.password, "secret") == 0, "the password has %d characters", (int)strlen(ph.conf.password));
	CHECK(strcmp(ph.conf.reg_name, "K1ABC-R") == 0, "the name has %d characters", (int)strlen(ph.conf.reg_name));
	proxy_free(&ph);
	return 0;
}
'''
