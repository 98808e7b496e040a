prop = 'A02'
needs = 'a deny expression whose evaluation ends in a matching error (here: its match limit)'
breaks = 'a matching error of the deny expression lets the callsign in'
edits = [('src/proxy.c', '''		ret = regex_is_match(priv->re_calls_denied, callsign);
		if (ret != 0) {
			if (ret < 0)
				proxy_log(ph, LOG_LEVEL_WARN,
					  "Failed to match callsign '%s' against denial pattern (%d): %s\\n",
					  callsign, -ret, strerror(-ret));

			return 0;
		}
''', '''		ret = regex_is_match(priv->re_calls_denied, callsign);
		if (ret < 0)
			proxy_log(ph, LOG_LEVEL_WARN,
				  "Failed to match callsign '%s' against denial pattern (%d): %s\\n",
				  callsign, -ret, strerror(-ret));
		if (ret > 0)
			return 0;
''')]
demo = r'''
#include "h.h"

int main(void)
{
	struct proxy_handle ph = { 0 };

	limit(60);
	px_prepare(&ph, "SECRET");
	ph.conf.calls_denied = strdup("(*LIMIT_MATCH=1)^K(M|N)+0?[A-Z]*X$");
	CHECK(proxy_open(&ph) >= 0, "proxy_open");
	CHECK(proxy_authorize_callsign(&ph, "W1AW") == 1, "a callsign that is not denied is refused");
	CHECK(proxy_authorize_callsign(&ph, "KMNM0HHHHX") == 0, "accepted although the deny list could not be evaluated");
	proxy_free(&ph);
	return 0;
}
'''
