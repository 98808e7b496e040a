From 2edd8f5f20df8073681fed1c52105d0c382d1e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 01/28] fix: advance the buffer when a send is only partially
 accepted

---
 src/conn.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index c6cb978..aa61ac3 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -617,6 +617,7 @@ int conn_send(struct conn_handle *conn, const uint8_t *buff, size_t buff_len)
 			}
 
 			buff_len -= ret;
+			buff += ret;
 		}
 
 		ret = 0;
@@ -672,6 +673,7 @@ int conn_send_to(struct conn_handle *conn, const uint8_t *buff,
 			}
 
 			buff_len -= ret;
+			buff += ret;
 		}
 
 		ret = 0;
-- 
2.43.0


From e17b70220f40778b350d1753435b6b39f9310a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:35 +0000
Subject: [PATCH 02/28] fix: report the failure when a proxy connection cannot
 be initialized

---
 src/proxy_conn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index 8476133..923ae9c 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -983,7 +983,7 @@ proxy_conn_init_exit:
 	free(pc->priv);
 	pc->priv = NULL;
 
-	return 0;
+	return ret;
 }
 
 int proxy_conn_in_use(struct proxy_conn_handle *pc)
-- 
2.43.0


From 426f16d8eacd8c2f5d0a2c5308a4e4c100bf0a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:35 +0000
Subject: [PATCH 03/28] fix: do not dereference an absent registration comment

---
 src/registration.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/registration.c b/src/registration.c
index df6d7ce..e47f309 100644
--- a/src/registration.c
+++ b/src/registration.c
@@ -325,7 +325,8 @@ int registration_service_start(struct registration_service_handle *rs,
 	priv->public = strcmp(conf->password, "PUBLIC") == 0 ? 'Y' : 'N';
 
 	priv->reg_name = conf->reg_name;
-	priv->reg_comment = conf->reg_comment;
+	priv->reg_comment = conf->reg_comment == NULL ?
+			    "" : conf->reg_comment;
 
 	if (priv->reg_suffix != NULL)
 		free((void *)priv->reg_suffix);
-- 
2.43.0


From cf5c41b8191a624dae050fa98090347dfc25cad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:35 +0000
Subject: [PATCH 04/28] fix: reserve space for the registration name in the
 suffix buffer

---
 src/registration.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/registration.c b/src/registration.c
index e47f309..e67289c 100644
--- a/src/registration.c
+++ b/src/registration.c
@@ -330,7 +330,8 @@ int registration_service_start(struct registration_service_handle *rs,
 
 	if (priv->reg_suffix != NULL)
 		free((void *)priv->reg_suffix);
-	reg_suffix = malloc(strlen(public_addr) + (2 * DIGEST_LEN) +
+	reg_suffix = malloc(strlen(priv->reg_name) + strlen(public_addr) +
+			    (2 * DIGEST_LEN) +
 			    sizeof(protocol_version) + 18);
 	if (reg_suffix == NULL) {
 		ret = -ENOMEM;
-- 
2.43.0


From 962fbf4b05696b37df6274b0796f8f835861c2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:35 +0000
Subject: [PATCH 05/28] fix: do not keep a pointer to the released registration
 suffix

---
 src/registration.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/registration.c b/src/registration.c
index e67289c..1232319 100644
--- a/src/registration.c
+++ b/src/registration.c
@@ -330,6 +330,8 @@ int registration_service_start(struct registration_service_handle *rs,
 
 	if (priv->reg_suffix != NULL)
 		free((void *)priv->reg_suffix);
+	priv->reg_suffix = NULL;
+
 	reg_suffix = malloc(strlen(priv->reg_name) + strlen(public_addr) +
 			    (2 * DIGEST_LEN) +
 			    sizeof(protocol_version) + 18);
-- 
2.43.0


From 729284c2f7ecdffd8d2e5e672cf0d68f90dbb9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:35 +0000
Subject: [PATCH 06/28] fix: close the socket when listening fails

---
 src/conn.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index aa61ac3..d19da41 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -235,34 +235,30 @@ int conn_listen(struct conn_handle *conn)
 	ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_REUSEADDR,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
-		/*! @TODO Close priv->sock_fd */
 		ret = SOCK_ERRNO;
-		goto conn_listen_free;
+		goto conn_listen_close;
 	}
 
 #ifdef __APPLE__
 	ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_NOSIGPIPE,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
-		/*! @TODO Close priv->sock_fd */
 		ret = SOCK_ERRNO;
-		goto conn_listen_free;
+		goto conn_listen_close;
 	}
 #endif
 
 	ret = bind(priv->sock_fd, res->ai_addr, (socklen_t)res->ai_addrlen);
 	if (ret == SOCKET_ERROR) {
-		/*! @TODO Close priv->sock_fd */
 		ret = SOCK_ERRNO;
-		goto conn_listen_free;
+		goto conn_listen_close;
 	}
 
 	if (conn->type == CONN_TYPE_TCP) {
 		ret = listen(priv->sock_fd, 0);
 		if (ret == SOCKET_ERROR) {
-			/*! @TODO Close priv->sock_fd */
 			ret = SOCK_ERRNO;
-			goto conn_listen_free;
+			goto conn_listen_close;
 		}
 	}
 
@@ -272,6 +268,12 @@ int conn_listen(struct conn_handle *conn)
 
 	mutex_unlock(&priv->mutex);
 
+	goto conn_listen_free;
+
+conn_listen_close:
+	closesocket(priv->sock_fd);
+	priv->sock_fd = INVALID_SOCKET;
+
 conn_listen_free:
 	freeaddrinfo(res);
 
-- 
2.43.0


From a85d534f051d131aa0a4660c8fb2547a42419d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 07/28] fix: close the socket when connecting fails early

---
 src/conn.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index d19da41..9a5aa49 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -400,7 +400,7 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
-		goto conn_connect_free_early;
+		goto conn_connect_free;
 	}
 
 #ifdef __APPLE__
@@ -408,7 +408,7 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
-		goto conn_connect_free_early;
+		goto conn_connect_free;
 	}
 #endif
 
-- 
2.43.0


From 04948ceb8347c377091c0757ce7b9a015b2ce373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 08/28] fix: mark the worker stopped when its thread cannot be
 started

---
 src/worker.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worker.c b/src/worker.c
index 5ecf36d..a4f20b0 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -260,6 +260,8 @@ int worker_start(struct worker_handle *wh)
 	if (priv->state <= WORKER_STOPPED) {
 		priv->state = WORKER_STARTING;
 		ret = thread_start(&priv->thread);
+		if (ret < 0)
+			priv->state = WORKER_STOPPED;
 	}
 
 	mutex_unlock(&priv->mutex);
-- 
2.43.0


From 2582fed5ff03d4cb795b62a29ef4bbed266e616c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 09/28] fix: destroy the thread attributes after use

---
 src/thread_posix.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/thread_posix.c b/src/thread_posix.c
index 4c8006d..a11bbbe 100644
--- a/src/thread_posix.c
+++ b/src/thread_posix.c
@@ -142,8 +142,10 @@ int thread_start(struct thread_handle *pt)
 
 	if (pt->stack_size > 0) {
 		ret = pthread_attr_setstacksize(&attr, pt->stack_size);
-		if (ret != 0)
+		if (ret != 0) {
+			pthread_attr_destroy(&attr);
 			return ret > 0 ? -ret : ret;
+		}
 	}
 
 	thread_join(pt);
@@ -156,5 +158,7 @@ int thread_start(struct thread_handle *pt)
 
 	mutex_unlock(&priv->mutex);
 
+	pthread_attr_destroy(&attr);
+
 	return ret > 0 ? -ret : ret;
 }
-- 
2.43.0


From cd0ea1d4a7492025fd816e091a6ba893ed474247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 10/28] fix: check the allocation of the password buffer

---
 src/proxy.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index 64e4c53..57c9897 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -1015,6 +1015,9 @@ int get_password_response(uint32_t nonce, const char *password,
 	uint8_t *pass_with_nonce = malloc(pass_with_nonce_len);
 	char *iter = (char *)pass_with_nonce;
 
+	if (pass_with_nonce == NULL)
+		return -ENOMEM;
+
 	while (*password != '\0') {
 		if (*password >= 97 && *password <= 122)
 			*iter = *password - 32;
-- 
2.43.0


From ef91b1e488b6abb64b3c0f3c07f6556bd820cf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 11/28] fix: refuse to open the proxy without a password

---
 src/proxy.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index 57c9897..d1f0f5c 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -654,6 +654,12 @@ int proxy_open(struct proxy_handle *ph)
 	int i;
 	int ret;
 
+	if (ph->conf.password == NULL) {
+		proxy_log(ph, LOG_LEVEL_FATAL,
+			  "No password has been configured\n");
+		return -EINVAL;
+	}
+
 	conn_port_to_str(ph->conf.port, priv->port_str);
 
 	priv->num_clients = 1 + ph->conf.bind_addr_ext_add_len;
-- 
2.43.0


From ffc2dee06b02a2e9db58c6423a9d00c89fc73ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 12/28] fix: start the registration service before announcing
 usable slots

---
 src/proxy.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/proxy.c b/src/proxy.c
index d1f0f5c..0fa9ef8 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -1069,11 +1069,6 @@ int proxy_start(struct proxy_handle *ph)
 		}
 	}
 
-	mutex_lock(&priv->usable_clients_mutex);
-	priv->usable_clients = priv->num_clients;
-	mutex_unlock(&priv->usable_clients_mutex);
-
-	proxy_update_registration(ph);
 	ret = registration_service_start(&priv->reg_service, &ph->conf);
 	if (ret < 0) {
 		proxy_log(ph, LOG_LEVEL_FATAL,
@@ -1082,6 +1077,12 @@ int proxy_start(struct proxy_handle *ph)
 		goto proxy_start_exit;
 	}
 
+	mutex_lock(&priv->usable_clients_mutex);
+	priv->usable_clients = priv->num_clients;
+	mutex_unlock(&priv->usable_clients_mutex);
+
+	proxy_update_registration(ph);
+
 	return 0;
 
 proxy_start_exit:
-- 
2.43.0


From 101f0272a62fc247d04c7154d728ec20840b9a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 13/28] fix: return the worker to the pool when it refuses the
 connection

---
 src/proxy.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/proxy.c b/src/proxy.c
index 0fa9ef8..853e501 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -997,8 +997,13 @@ int proxy_process(struct proxy_handle *ph)
 	}
 
 	ret = proxy_worker_accept(worker, conn);
-	if (ret < 0)
+	if (ret < 0) {
+		mutex_lock(&priv->idle_workers_mutex);
+		worker->next = priv->idle_workers_head;
+		priv->idle_workers_head = worker;
+		mutex_unlock(&priv->idle_workers_mutex);
 		goto conn_process_exit;
+	}
 
 	return 0;
 
-- 
2.43.0


From c1cbc6f8afb0e8b7b78da528af7aac8128edff5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 14/28] fix: reset the whole proxy state when opening fails

---
 src/proxy.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/proxy.c b/src/proxy.c
index 853e501..797b2c0 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -665,8 +665,10 @@ int proxy_open(struct proxy_handle *ph)
 	priv->num_clients = 1 + ph->conf.bind_addr_ext_add_len;
 
 	priv->clients = calloc(priv->num_clients, sizeof(*priv->clients));
-	if (priv->clients == NULL)
-		return -ENOMEM;
+	if (priv->clients == NULL) {
+		ret = -ENOMEM;
+		goto proxy_open_exit;
+	}
 
 	priv->client_workers = calloc(priv->num_clients,
 				      sizeof(struct proxy_worker));
@@ -820,13 +822,10 @@ int proxy_open(struct proxy_handle *ph)
 	return 0;
 
 proxy_open_exit_later:
-	priv->idle_workers_head = NULL;
 	for (i = 0; i < priv->num_clients; i++)
 		proxy_worker_free(&priv->client_workers[i]);
 
 proxy_open_exit_late:
-	priv->idle_clients_head = NULL;
-	priv->idle_clients_tail_ptr = NULL;
 	for (i = 0; i < priv->num_clients; i++)
 		proxy_conn_free(&priv->clients[i]);
 
@@ -837,6 +836,16 @@ proxy_open_exit:
 		priv->re_calls_allowed = NULL;
 	}
 
+	if (priv->re_calls_denied != NULL) {
+		regex_free(priv->re_calls_denied);
+		free(priv->re_calls_denied);
+		priv->re_calls_denied = NULL;
+	}
+
+	priv->idle_workers_head = NULL;
+	priv->idle_clients_head = NULL;
+	priv->idle_clients_tail_ptr = NULL;
+
 	log_close(&priv->log);
 
 	free(priv->client_workers);
-- 
2.43.0


From 30b5f40461eedcbd769a78f537a074c412994dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 15/28] fix: empty the worker pool only after the workers have
 ended

---
 src/proxy.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/proxy.c b/src/proxy.c
index 797b2c0..c34032a 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -876,10 +876,11 @@ void proxy_close(struct proxy_handle *ph)
 
 	proxy_log(ph, LOG_LEVEL_DEBUG, "Closing client connections...\n");
 
-	priv->idle_workers_head = NULL;
 	for (i = 0; i < priv->num_clients; i++)
 		proxy_worker_free(&priv->client_workers[i]);
 
+	priv->idle_workers_head = NULL;
+
 	memset(priv->clients_by_call, 0x0, sizeof(priv->clients_by_call));
 	priv->idle_clients_head = NULL;
 	priv->idle_clients_tail_ptr = NULL;
-- 
2.43.0


From 4e4d61eacba32f132430f031b66d4ae858f8d7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 16/28] fix: release only what was initialized when proxy
 initialization fails

---
 src/proxy.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/proxy.c b/src/proxy.c
index c34032a..41a3566 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -597,7 +597,15 @@ int proxy_init(struct proxy_handle *ph)
 	return 0;
 
 proxy_init_exit:
-	proxy_free(ph);
+	mutex_free(&priv->idle_clients_mutex);
+	mutex_free(&priv->usable_clients_mutex);
+	registration_service_free(&priv->reg_service);
+	conn_free(&priv->conn_listen);
+	conf_free(&ph->conf);
+	log_free(&priv->log);
+	rand_free();
+	free(ph->priv);
+	ph->priv = NULL;
 
 	return ret;
 }
-- 
2.43.0


From ad9af07668581335b03ed71eeb0522483c55dbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 17/28] fix: also disconnect clients which are still being
 authorized

---
 src/proxy.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index 41a3566..70bbdaa 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -919,6 +919,16 @@ void proxy_drop(struct proxy_handle *ph)
 
 	for (i = 0; i < priv->num_clients; i++)
 		proxy_conn_drop(&priv->clients[i]);
+
+	/* Connections which have not been assigned to a slot yet */
+	for (i = 0; i < priv->num_clients; i++) {
+		struct proxy_worker *pw = &priv->client_workers[i];
+
+		mutex_lock_shared(&pw->mutex);
+		if (pw->conn_client != NULL)
+			conn_drop(pw->conn_client);
+		mutex_unlock_shared(&pw->mutex);
+	}
 }
 
 void proxy_shutdown(struct proxy_handle *ph)
-- 
2.43.0


From 7be163bb785bc65b377f84e3a1329de881389ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 18/28] fix: close the previous TCP connection before opening
 another

---
 src/proxy_conn.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index 923ae9c..438cc51 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -726,6 +726,10 @@ static int process_tcp_open_message(struct proxy_conn_handle *pc,
 	}
 
 	/* Attempt to connect */
+	/* Only one TCP connection can be open at a time */
+	conn_close(&priv->conn_tcp);
+	worker_wait_idle(&priv->worker_tcp);
+
 	ret = conn_connect(&priv->conn_tcp, (const char *)addr, "5200");
 	if (ret < 0) {
 		proxy_log(pc->ph, LOG_LEVEL_WARN,
-- 
2.43.0


From 30b9fe0c8eccffa586925d43e0eb896da63a09ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 19/28] fix: replace the previous additional addresses when the
 setting is repeated

---
 src/conf.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index e6058ba..5001561 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -378,16 +378,19 @@ static int conf_parse_pair(const char *key, size_t key_len,
 		if (strncmp(key, "AdditionalExternalBindAddresses", key_len) == 0) {
 			size_t i, j;
 
-			if (conf->bind_addr_ext_add != NULL)
+			if (conf->bind_addr_ext_add != NULL) {
+				for (i = 0; i < conf->bind_addr_ext_add_len; i++)
+					free(conf->bind_addr_ext_add[i]);
 				free(conf->bind_addr_ext_add);
+			}
 
-			if (val_len == 0) {
-				conf->bind_addr_ext_add = NULL;
-				conf->bind_addr_ext_add_len = 0;
+			conf->bind_addr_ext_add = NULL;
+			conf->bind_addr_ext_add_len = 0;
+
+			if (val_len == 0)
 				break;
-			}
 
-			for (i = 1; i < val_len; i++)
+			for (i = 0; i < val_len; i++)
 				if (val[i] == ',')
 					conf->bind_addr_ext_add_len++;
 
-- 
2.43.0


From fca672b98794ba844260d98cce36a4f522830a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 20/28] fix: report a failure to read the configuration

---
 src/conf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index 5001561..4e1406d 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -443,7 +443,7 @@ static int conf_parse_stream(FILE *stream, struct proxy_conf *conf,
 	size_t line_len = 0;
 	int ret = 0;
 
-	while (conf_readline(&line, &line_len, stream) > 0) {
+	while ((ret = conf_readline(&line, &line_len, stream)) > 0) {
 		ret = conf_parse_line(line, conf, log);
 
 		free(line);
@@ -455,7 +455,7 @@ static int conf_parse_stream(FILE *stream, struct proxy_conf *conf,
 
 	free(line);
 
-	return 0;
+	return ret;
 }
 
 int conf_init(struct proxy_conf *conf)
-- 
2.43.0


From b8ae503261ff72398eab8544236fda16a9b2704c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:54 +0000
Subject: [PATCH 21/28] fix: close the previous log medium when switching to
 none or the console

---
 src/log.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/log.c b/src/log.c
index 1616307..8d54eff 100644
--- a/src/log.c
+++ b/src/log.c
@@ -203,13 +203,14 @@ int log_select_medium(struct log_handle *log, enum LOG_MEDIUM medium,
 		      const char *target)
 {
 	struct log_priv *priv = log->priv;
+	enum LOG_MEDIUM old_medium = log->medium;
 	int ret = 0;
 
 	/* Open the new medium */
 	switch (medium) {
 	case LOG_MEDIUM_NONE:
 		log->medium = LOG_MEDIUM_NONE;
-		switch (log->medium) {
+		switch (old_medium) {
 		case LOG_MEDIUM_FILE:
 			if (priv->medium_file.fp != NULL) {
 				fclose(priv->medium_file.fp);
@@ -232,7 +233,7 @@ int log_select_medium(struct log_handle *log, enum LOG_MEDIUM medium,
 		break;
 	case LOG_MEDIUM_STDOUT:
 		log->medium = LOG_MEDIUM_STDOUT;
-		switch (log->medium) {
+		switch (old_medium) {
 		case LOG_MEDIUM_FILE:
 			if (priv->medium_file.fp != NULL) {
 				fclose(priv->medium_file.fp);
-- 
2.43.0


From e7026f6b25f61daae4e75fb75df084d4fe203e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:54 +0000
Subject: [PATCH 22/28] fix: capture the error before logging it

---
 src/proxyd.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/proxyd.c b/src/proxyd.c
index bf83790..2a09553 100644
--- a/src/proxyd.c
+++ b/src/proxyd.c
@@ -317,18 +317,18 @@ int main(int argc, const char * const argv[])
 
 		sid = setsid();
 		if (sid < 0) {
+			ret = errno;
 			proxy_log(&ph, LOG_LEVEL_FATAL,
 				  "Process error (%d): %s\n",
-				  errno, strerror(errno));
-			ret = errno;
+				  ret, strerror(ret));
 			goto proxyd_exit;
 		}
 
 		if (chdir("/") < 0) {
+			ret = errno;
 			proxy_log(&ph, LOG_LEVEL_FATAL,
 				  "Failed to change dir (%d): %s\n",
-				  errno, strerror(errno));
-			ret = errno;
+				  ret, strerror(ret));
 			goto proxyd_exit;
 		}
 
-- 
2.43.0


From 25365d6effae2256519b9b1ab14cf7aaea2f680a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:32 +0000
Subject: [PATCH 23/28] fix: report a read error while loading the
 configuration

---
 src/conf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/conf.c b/src/conf.c
index 4e1406d..b531535 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -141,6 +141,9 @@ static int conf_readline(char **lineptr, size_t *n, FILE *stream)
 			break;
 	}
 
+	if (temp == EOF && ferror(stream))
+		return -EIO;
+
 	(*lineptr)[so_far] = '\0';
 
 	return (int)so_far;
-- 
2.43.0


From c9f9c86b4bc925c124d5af5650a3838534bb7eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:32 +0000
Subject: [PATCH 24/28] fix: report a failed exclusive unlock as a negative
 error

---
 src/mutex_posix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mutex_posix.c b/src/mutex_posix.c
index 3469e69..c142f13 100644
--- a/src/mutex_posix.c
+++ b/src/mutex_posix.c
@@ -156,7 +156,7 @@ int mutex_unlock(struct mutex_handle *mutex)
 {
 	struct mutex_priv *priv = mutex->priv;
 
-	return pthread_mutex_unlock(&priv->lock);
+	return -pthread_mutex_unlock(&priv->lock);
 }
 
 int mutex_unlock_shared(struct mutex_handle *mutex)
-- 
2.43.0


From e3d09da21ba0762744690d0eaf26f2bf8738b79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:18 +0000
Subject: [PATCH 25/28] fix: wait for shared holders before a condition wait
 returns

---
 src/mutex_posix.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/mutex_posix.c b/src/mutex_posix.c
index c142f13..3ecdcc0 100644
--- a/src/mutex_posix.c
+++ b/src/mutex_posix.c
@@ -231,8 +231,15 @@ int condvar_wait(struct condvar_handle *condvar, struct mutex_handle *mutex)
 {
 	struct condvar_priv *priv = condvar->priv;
 	struct mutex_priv *mpriv = mutex->priv;
+	int ret;
+
+	ret = pthread_cond_wait(&priv->cond, &mpriv->lock);
 
-	return -pthread_cond_wait(&priv->cond, &mpriv->lock);
+	/* Shared holders may have entered while the lock was given up */
+	while (ret == 0 && mpriv->readers > 0)
+		ret = pthread_cond_wait(&mpriv->cond, &mpriv->lock);
+
+	return -ret;
 }
 
 int condvar_wait_time(struct condvar_handle *condvar,
@@ -241,7 +248,7 @@ int condvar_wait_time(struct condvar_handle *condvar,
 	struct condvar_priv *priv = condvar->priv;
 	struct mutex_priv *mpriv = mutex->priv;
 	struct timespec abstime;
-	int ret;
+	int ret, ret2 = 0;
 
 	clock_gettime(CLOCK_REALTIME, &abstime);
 	abstime.tv_nsec += (msec % 1000) * 1000000;
@@ -249,6 +256,14 @@ int condvar_wait_time(struct condvar_handle *condvar,
 	abstime.tv_nsec %= 1000000000;
 
 	ret = pthread_cond_timedwait(&priv->cond, &mpriv->lock, &abstime);
+
+	/* Shared holders may have entered while the lock was given up */
+	while ((ret == 0 || ret == ETIMEDOUT) && ret2 == 0 && mpriv->readers > 0)
+		ret2 = pthread_cond_wait(&mpriv->cond, &mpriv->lock);
+
+	if (ret2 != 0)
+		return -ret2;
+
 	return ret == ETIMEDOUT ? 1 : -ret;
 }
 
-- 
2.43.0


From 03919c486789a12eb123233cd2c1e9d26a29c061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:38 +0000
Subject: [PATCH 26/28] fix: do not give a slot which has not returned to the
 pool to a reconnecting client

---
 src/proxy.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/proxy.c b/src/proxy.c
index 70bbdaa..773c323 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -374,9 +374,12 @@ static void proxy_worker_func(struct worker_handle *wh)
 	}
 
 	pc = priv->clients_by_call[hash];
-	/* First, check for a reconnect */
+	/* First, check for a reconnect (a slot may not be back in the pool yet) */
 	while (pc != NULL) {
-		ret = proxy_conn_accept(pc, pw->conn_client, pw->callsign, 1);
+		ret = -EBUSY;
+		if (pc->prev_ptr != NULL)
+			ret = proxy_conn_accept(pc, pw->conn_client,
+						pw->callsign, 1);
 		if (ret != -EBUSY)
 			break;
 		pc = pc->next_by_call;
@@ -400,6 +403,7 @@ static void proxy_worker_func(struct worker_handle *wh)
 		priv->idle_clients_tail_ptr = pc->prev_ptr;
 	else
 		pc->next->prev_ptr = pc->prev_ptr;
+	pc->prev_ptr = NULL;
 
 	/* Remove the slot from the hash map */
 	if (pc->prev_by_call_ptr != NULL) {
-- 
2.43.0


From dfc123ab7d696fb3943500d3866f2657d9beb927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:17 +0000
Subject: [PATCH 27/28] fix: do not end the service when a client is lost
 before it is accepted

---
 src/proxy.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/proxy.c b/src/proxy.c
index 773c323..983db38 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -1005,8 +1005,14 @@ int proxy_process(struct proxy_handle *ph)
 	proxy_log(ph, LOG_LEVEL_DEBUG, "Waiting for a client...\n");
 
 	ret = conn_accept(&priv->conn_listen, conn);
-	if (ret < 0)
+	if (ret == -ECONNABORTED) {
+		proxy_log(ph, LOG_LEVEL_INFO,
+			  "Client was lost before it could be accepted.\n");
+		ret = 0;
 		goto conn_process_exit;
+	} else if (ret < 0) {
+		goto conn_process_exit;
+	}
 
 	conn_get_remote_addr(conn, remote_addr);
 	proxy_log(ph, LOG_LEVEL_DEBUG, "Incoming connection from %s.\n",
-- 
2.43.0


From b21f7191b9352b415f16255ea39b9be870d505e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:43 +0000
Subject: [PATCH 28/28] fix: apply the receive timeout to the socket the
 connection receives from

An accepted connection receives from conn_fd; conn_set_timeout used the
(closed) listening descriptor of the handle and failed with EBADF.
---
 src/conn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index 9a5aa49..4f90d7a 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -704,7 +704,8 @@ int conn_set_timeout(struct conn_handle *conn, uint32_t msec)
 #endif
 
 	mutex_lock_shared(&priv->mutex);
-	ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_RCVTIMEO,
+	ret = setsockopt(priv->fd != INVALID_SOCKET ? priv->fd : priv->sock_fd,
+			 SOL_SOCKET, SO_RCVTIMEO,
 			 (const void *)&val, sizeof(val));
 	if (ret == SOCKET_ERROR)
 		ret = SOCK_ERRNO;
-- 
2.43.0

