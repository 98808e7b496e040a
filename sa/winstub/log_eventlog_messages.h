#define LOG_IDENT_FATAL 1001
#define LOG_IDENT_ERROR 1002
#define LOG_IDENT_WARN 1003
#define LOG_IDENT_INFO 1004
#define LOG_IDENT_DEBUG 1005
