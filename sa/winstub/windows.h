/* declarations the Windows Event Log back end of log.c needs; analysis only */
#ifndef SA_WINDOWS_H
#define SA_WINDOWS_H
typedef void *HANDLE;
#define EVENTLOG_ERROR_TYPE 1
#define EVENTLOG_WARNING_TYPE 2
#define EVENTLOG_INFORMATION_TYPE 4
HANDLE RegisterEventSource(const char *server, const char *source);
int DeregisterEventSource(HANDLE log);
int ReportEvent(HANDLE log, unsigned short type, unsigned short cat, unsigned int id, void *sid,
		unsigned short n, unsigned int size, const char **strings, void *raw);
unsigned int GetLastError(void);
#endif
