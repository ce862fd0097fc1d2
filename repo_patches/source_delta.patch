From c61294e7ef750aad16150a5d3f4c49368965ef18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:12 +0000
Subject: [PATCH 01/24] fix: string_write advances past the bytes already
 written

---
 src/reactor/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/string.c b/src/reactor/string.c
index 4c09f92..b204333 100644
--- a/src/reactor/string.c
+++ b/src/reactor/string.c
@@ -220,7 +220,7 @@ void string_write(string s, int fd)
   {
     n = write(fd, s + offset, string_size(s) - offset);
     assert(n > 0);
-    offset -= n;
+    offset += n;
   }
 }
 
-- 
2.43.0


From a65b629a58a551c4f7444a107979eece403cc9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:12 +0000
Subject: [PATCH 02/24] fix: string_free releases allocated strings that have
 become empty

---
 src/reactor/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/string.c b/src/reactor/string.c
index b204333..0fb3bea 100644
--- a/src/reactor/string.c
+++ b/src/reactor/string.c
@@ -35,7 +35,7 @@ string string_null(void)
 
 void string_free(string s)
 {
-  if (!string_equal(s, string_null()))
+  if (s != string_null())
     free(string_header(s));
 }
 
-- 
2.43.0


From 48ba2422bee49679470d522b7e9977ab476251ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:12 +0000
Subject: [PATCH 03/24] fix: string_save replaces the previous content of the
 file

---
 src/reactor/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/string.c b/src/reactor/string.c
index 0fb3bea..3a7b579 100644
--- a/src/reactor/string.c
+++ b/src/reactor/string.c
@@ -228,7 +228,7 @@ int string_save(string s, const char *path)
 {
   int fd;
 
-  fd = open(path, O_WRONLY);
+  fd = open(path, O_WRONLY | O_TRUNC);
   if (fd == -1)
     return -1;
 
-- 
2.43.0


From 783214d9624ae3a85069e6c2ea6da08a416cecb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:12 +0000
Subject: [PATCH 04/24] fix: do not read past the end of the input when
 skipping spaces in a request or status line

---
 src/picohttpparser/picohttpparser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/picohttpparser/picohttpparser.c b/src/picohttpparser/picohttpparser.c
index 74ccc3e..77bd596 100644
--- a/src/picohttpparser/picohttpparser.c
+++ b/src/picohttpparser/picohttpparser.c
@@ -355,10 +355,12 @@ static const char *parse_request(const char *buf, const char *buf_end, const cha
     ADVANCE_TOKEN(*method, *method_len);
     do {
         ++buf;
+        CHECK_EOF();
     } while (*buf == ' ');
     ADVANCE_TOKEN(*path, *path_len);
     do {
         ++buf;
+        CHECK_EOF();
     } while (*buf == ' ');
     if (*method_len == 0 || *path_len == 0) {
         *ret = -1;
@@ -422,6 +424,7 @@ static const char *parse_response(const char *buf, const char *buf_end, int *min
     }
     do {
         ++buf;
+        CHECK_EOF();
     } while (*buf == ' ');
     /* parse status code, we want at least [:digit:][:digit:][:digit:]<other char> to try to parse */
     if (buf_end - buf < 4) {
-- 
2.43.0


From 4c0c0d07126daf70163242678de62b7ed610c938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:12 +0000
Subject: [PATCH 05/24] fix: a peer that disconnects during a write does not
 abort the process

---
 src/reactor/stream.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index 48d24bc..e11e714 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -55,10 +55,7 @@ static void stream_socket_write(stream *stream)
   {
     n = write(descriptor_fd(&stream->descriptor), data + total, size - total);
     if (n == -1)
-    {
-      assert(errno == EAGAIN);
       break;
-    }
     total += n;
   }
   buffer_erase(&stream->output, 0, total);
-- 
2.43.0


From f0255dfa1bc7ebe566c4b0e858447f8bfa975f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:12 +0000
Subject: [PATCH 06/24] fix: only report a stream as writable when that was
 asked for and the output is drained

---
 src/reactor/stream.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index e11e714..1f3151e 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -75,7 +75,7 @@ static void stream_socket_callback(reactor_event *event)
     break;
   case DESCRIPTOR_WRITE:
     stream_socket_write(stream);
-    if (buffer_size(&stream->output) == 0 || stream->notify)
+    if (buffer_size(&stream->output) == 0 && stream->notify)
     {
       stream->notify = 0;
       stream_socket_update(stream);
-- 
2.43.0


From 77087d331a0c98092ab21c727511e21232e495d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:12 +0000
Subject: [PATCH 07/24] fix: flush all buffered output over TLS, not only the
 first record

---
 src/reactor/stream.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index 1f3151e..747d42b 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -135,9 +135,12 @@ static void stream_ssl_flush(stream *stream)
   ssize_t n;
 
   assert(stream_ssl_activated);
-  n = SSL_write(stream->ssl, buffer_data(&stream->output), buffer_size(&stream->output));
-  if (n > 0)
-    buffer_erase(&stream->output, 0, n);
+  do
+  {
+    n = SSL_write(stream->ssl, buffer_data(&stream->output), buffer_size(&stream->output));
+    if (n > 0)
+      buffer_erase(&stream->output, 0, n);
+  } while (n > 0 && buffer_size(&stream->output));
   stream->ssl_state = SSL_get_error(stream->ssl, n);
 }
 
-- 
2.43.0


From 7c8583bb5babc3b395239b11c4311bce58df3ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:52 +0000
Subject: [PATCH 08/24] fix: forget the TLS state of a closed stream so that it
 can be opened again

---
 src/reactor/stream.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index 747d42b..d32ce70 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -244,7 +244,11 @@ void stream_close(stream *stream)
     return;
 
   if (stream_ssl_activated)
+  {
     SSL_free(stream->ssl);
+    stream->ssl = NULL;
+    stream->ssl_state = 0;
+  }
 
   stream->notify = 0;
   descriptor_close(&stream->descriptor);
-- 
2.43.0


From b76ee442c2af7c7b1e50e7a7fdbe62d8e20a289f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:52 +0000
Subject: [PATCH 09/24] fix: a timer set again before its pending expiration is
 delivered does not abort

---
 src/reactor/timer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reactor/timer.c b/src/reactor/timer.c
index a141b88..96c9702 100644
--- a/src/reactor/timer.c
+++ b/src/reactor/timer.c
@@ -28,7 +28,8 @@ static void timer_callback(reactor_event *event)
     assert(n == sizeof expirations);
     total += expirations;
   }
-  assert(total);
+  if (!total)
+    return;
   reactor_dispatch(&timer->handler, TIMER_EXPIRATION, total);
 }
 
-- 
2.43.0


From beb9919f08ca6c0368cd990d955caf58a4b250e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:52 +0000
Subject: [PATCH 10/24] fix: notify_clear forgets its watches and may be called
 from the callback

---
 src/reactor/notify.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/reactor/notify.c b/src/reactor/notify.c
index d33feff..a9d0899 100644
--- a/src/reactor/notify.c
+++ b/src/reactor/notify.c
@@ -69,6 +69,12 @@ void notify_construct(notify *notify, reactor_callback *callback, void *state)
 void notify_clear(notify *notify)
 {
   descriptor_close(&notify->descriptor);
+  list_clear(&notify->entries, notify_release_entry);
+  if (notify->cancel)
+  {
+    *(notify->cancel) = 1;
+    notify->cancel = NULL;
+  }
 }
 
 int notify_watch(notify *notify, char *path, uint32_t mask)
@@ -97,9 +103,4 @@ void notify_destruct(notify *notify)
 {
   notify_clear(notify);
   list_destruct(&notify->entries, notify_release_entry);
-  if (notify->cancel)
-  {
-    *(notify->cancel) = 1;
-    notify->cancel = NULL;
-  }
 }
-- 
2.43.0


From 9e30d15e4ff3382fcd29d187c65c8bc1ae89cc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:52 +0000
Subject: [PATCH 11/24] fix: an inotify queue overflow does not abort the
 process

---
 src/reactor/notify.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/reactor/notify.c b/src/reactor/notify.c
index a9d0899..7c955b9 100644
--- a/src/reactor/notify.c
+++ b/src/reactor/notify.c
@@ -41,12 +41,11 @@ static void notify_callback(reactor_event *event)
     for (p = buf; p < buf + n; p += sizeof(struct inotify_event) + inotify_event->len)
     {
       inotify_event = (struct inotify_event *) p;
-      e = list_front(&notify->entries);
-      while (e->id != inotify_event->wd)
-      {
-        e = list_next(e);
-        assert(e != list_end(&notify->entries));
-      }
+      list_foreach(&notify->entries, e)
+        if (e->id == inotify_event->wd)
+          break;
+      if (e == list_end(&notify->entries))
+        continue;
       notify_event = (struct notify_event) {.mask = inotify_event->mask, .id = e->id,
         .name = inotify_event->len ? inotify_event->name : "", .path = e->path};
       reactor_dispatch(&notify->handler, NOTIFY_EVENT, (uintptr_t) &notify_event);
-- 
2.43.0


From 4384583d9006a55229fc8557e1992b40faa78e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:52 +0000
Subject: [PATCH 12/24] fix: server_shutdown closes its connections instead of
 dropping references it does not own

---
 src/reactor/server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index c185fd3..64c86a5 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -223,7 +223,7 @@ void server_shutdown(server *server)
   while (request != list_end(&server->requests))
   {
     next = list_next(request);
-    server_release(request);
+    server_close(request);
     request = next;
   }
 
-- 
2.43.0


From 6f0bd4eae0a348c927ecc0a7f5168e1b4aa251de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:52 +0000
Subject: [PATCH 13/24] fix: reserve space for dates of any size in a response

---
 src/reactor/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/http.c b/src/reactor/http.c
index 1fb7124..7a8cab7 100644
--- a/src/reactor/http.c
+++ b/src/reactor/http.c
@@ -111,7 +111,7 @@ void http_write_response(stream *stream, data status, data date, data type, data
   utility_u32_sprint(data_size(body), storage + size);
   length = data_construct(storage, size);
 
-  p = stream_allocate(stream, 9 + data_size(status) + 2 + 17 + 37 +
+  p = stream_allocate(stream, 9 + data_size(status) + 2 + 17 + 8 + data_size(date) +
                       (data_empty(type) ? 0 : 16 + data_size(type)) +
                       (18 + data_size(length)) + 2 + data_size(body));
   pointer_push(&p, data_string("HTTP/1.1 "));
-- 
2.43.0


From 1dc27b2edb5a7c751728e645ddc339ad74579dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:52 +0000
Subject: [PATCH 14/24] fix: a server that only accepts given connections sends
 a valid date

---
 src/reactor/server.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index 64c86a5..e0b56a0 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -198,6 +198,7 @@ void server_construct(server *server, reactor_callback *callback, void *state)
   reactor_handler_construct(&server->handler, callback, state);
   timer_construct(&server->timer, server_timer_callback, server);
   list_construct(&server->requests);
+  server_date_update();
 }
 
 void server_destruct(server *server)
-- 
2.43.0


From 991222139529a0ffdc15fedf4fc120beda2f0893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:52 +0000
Subject: [PATCH 15/24] fix: net_socket reports failures to create or listen on
 a socket

---
 src/reactor/net.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/reactor/net.c b/src/reactor/net.c
index 4849c5d..3339903 100644
--- a/src/reactor/net.c
+++ b/src/reactor/net.c
@@ -27,22 +27,24 @@ int net_socket(struct addrinfo *addrinfo)
   if (!addrinfo)
     return -1;
   fd = socket(addrinfo->ai_family, addrinfo->ai_socktype | SOCK_NONBLOCK, addrinfo->ai_protocol);
+  if (fd == -1)
+  {
+    freeaddrinfo(addrinfo);
+    return -1;
+  }
   if (addrinfo->ai_flags & AI_PASSIVE)
   {
     (void) setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, (int[]) {1}, sizeof(int));
     (void) setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, (int[]) {1}, sizeof(int));
     e = bind(fd, addrinfo->ai_addr, addrinfo->ai_addrlen);
+    if (e == 0)
+      e = listen(fd, INT_MAX);
     if (e == -1)
     {
       e = close(fd);
       assert(e == 0);
       fd = -1;
     }
-    else
-    {
-      e = listen(fd, INT_MAX);
-      assert(e == 0);
-    }
   }
   else
     (void) connect(fd, addrinfo->ai_addr, addrinfo->ai_addrlen);
-- 
2.43.0


From 31f57bff49f513858774ae3ff5158d2ee7c6458b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:34 +0000
Subject: [PATCH 16/24] fix: async_cancel waits for its thread, which would go
 on to use released memory

---
 src/reactor/async.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/reactor/async.c b/src/reactor/async.c
index 0ee4cb7..0c0f152 100644
--- a/src/reactor/async.c
+++ b/src/reactor/async.c
@@ -18,6 +18,7 @@ static void async_callback(reactor_event *event)
   async *async = event->state;
 
   assert(event->type == EVENT_SIGNAL);
+  (void) pthread_join(async->thread, NULL);
   async->thread = 0;
   async_cancel(async);
   reactor_dispatch(&async->handler, ASYNC_DONE, 0);
@@ -39,12 +40,9 @@ void async_destruct(async *async)
 void async_call(async *async)
 {
   int e;
-  pthread_attr_t attr;
 
   event_open(&async->event);
-  pthread_attr_init(&attr);
-  pthread_attr_setdetachstate(&attr, PTHREAD_CREATE_DETACHED);
-  e = pthread_create(&async->thread, &attr, async_thread, async);
+  e = pthread_create(&async->thread, NULL, async_thread, async);
   assert(e == 0);
 }
 
@@ -52,11 +50,12 @@ void async_cancel(async *async)
 {
   if (event_is_open(&async->event))
   {
-    event_close(&async->event);
     if (async->thread)
     {
       (void) pthread_cancel(async->thread);
+      (void) pthread_join(async->thread, NULL);
       async->thread = 0;
     }
+    event_close(&async->event);
   }
 }
-- 
2.43.0


From 1727ed799d860c28ef1721936e16403d6ab9187f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:49 +0000
Subject: [PATCH 17/24] fix: resolver_lookup honours the protocol it is given

---
 src/reactor/resolver.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reactor/resolver.c b/src/reactor/resolver.c
index 131b4cd..8b8670b 100644
--- a/src/reactor/resolver.c
+++ b/src/reactor/resolver.c
@@ -6,11 +6,14 @@
 static void resolver_callback(reactor_event *event)
 {
   resolver *resolver = event->state;
+  struct addrinfo hints = {.ai_family = resolver->family, .ai_socktype = resolver->type,
+    .ai_protocol = resolver->protocol, .ai_flags = resolver->flags};
 
   switch (event->type)
   {
   case ASYNC_CALL:
-    resolver->addrinfo = net_resolve(resolver->host, resolver->service, resolver->family, resolver->type, resolver->flags);
+    if (getaddrinfo(resolver->host, resolver->service, &hints, &resolver->addrinfo) != 0)
+      resolver->addrinfo = NULL;
     break;
   default:
   case ASYNC_DONE:
-- 
2.43.0


From 72757161850a233e52577cb4ed4b7bcbbc143bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:09 +0000
Subject: [PATCH 18/24] fix: an empty header block is complete, also when told
 how much was seen before

---
 src/picohttpparser/picohttpparser.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/picohttpparser/picohttpparser.c b/src/picohttpparser/picohttpparser.c
index 77bd596..4dfdc26 100644
--- a/src/picohttpparser/picohttpparser.c
+++ b/src/picohttpparser/picohttpparser.c
@@ -194,9 +194,10 @@ FOUND_CTL:
     return buf;
 }
 
-static const char *is_complete(const char *buf, const char *buf_end, size_t last_len, int *ret)
+static const char *is_complete(const char *buf, const char *buf_end, size_t last_len, int line_head, int *ret)
 {
-    int ret_cnt = 0;
+    /* the start of a block of headers follows a line ending, an empty block is complete with one more */
+    int ret_cnt = line_head && last_len <= 3 ? 1 : 0;
     buf = last_len < 3 ? buf : buf + last_len - 3;
 
     while (1) {
@@ -398,7 +399,7 @@ int phr_parse_request(const char *buf_start, size_t len, const char **method, si
 
     /* if last_len != 0, check if the request is complete (a fast countermeasure
        againt slowloris */
-    if (last_len != 0 && is_complete(buf, buf_end, last_len, &r) == NULL) {
+    if (last_len != 0 && is_complete(buf, buf_end, last_len, 0, &r) == NULL) {
         return r;
     }
 
@@ -469,7 +470,7 @@ int phr_parse_response(const char *buf_start, size_t len, int *minor_version, in
 
     /* if last_len != 0, check if the response is complete (a fast countermeasure
        against slowloris */
-    if (last_len != 0 && is_complete(buf, buf_end, last_len, &r) == NULL) {
+    if (last_len != 0 && is_complete(buf, buf_end, last_len, 0, &r) == NULL) {
         return r;
     }
 
@@ -490,7 +491,7 @@ int phr_parse_headers(const char *buf_start, size_t len, struct phr_header *head
 
     /* if last_len != 0, check if the response is complete (a fast countermeasure
        against slowloris */
-    if (last_len != 0 && is_complete(buf, buf_end, last_len, &r) == NULL) {
+    if (last_len != 0 && is_complete(buf, buf_end, last_len, 1, &r) == NULL) {
         return r;
     }
 
-- 
2.43.0


From e97320de2af658562fa629a5271f0d21ef901fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:47 +0000
Subject: [PATCH 19/24] fix: a timer with a very short interval does not block
 the loop

---
 src/reactor/timer.c | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/reactor/timer.c b/src/reactor/timer.c
index 96c9702..5c45430 100644
--- a/src/reactor/timer.c
+++ b/src/reactor/timer.c
@@ -13,24 +13,18 @@
 static void timer_callback(reactor_event *event)
 {
   timer *timer = event->state;
-  uint64_t expirations, total;
+  uint64_t expirations;
   ssize_t n;
 
-  total = 0;
-  while (1)
+  /* one read returns all expirations, reading on would never end for very short intervals */
+  n = read(descriptor_fd(&timer->descriptor), &expirations, sizeof expirations);
+  if (n == -1)
   {
-    n = read(descriptor_fd(&timer->descriptor), &expirations, sizeof expirations);
-    if (n == -1)
-    {
-      assert(errno == EAGAIN);
-      break;
-    }
-    assert(n == sizeof expirations);
-    total += expirations;
-  }
-  if (!total)
+    assert(errno == EAGAIN);
     return;
-  reactor_dispatch(&timer->handler, TIMER_EXPIRATION, total);
+  }
+  assert(n == sizeof expirations);
+  reactor_dispatch(&timer->handler, TIMER_EXPIRATION, expirations);
 }
 
 void timer_construct(timer *timer, reactor_callback *callback, void *state)
-- 
2.43.0


From dc58113ab364df123b6e54afa3280414cef9495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:38 +0000
Subject: [PATCH 20/24] fix: a private key of another type than the certificate
 is refused

---
 src/reactor/net.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/reactor/net.c b/src/reactor/net.c
index 3339903..95df7f3 100644
--- a/src/reactor/net.c
+++ b/src/reactor/net.c
@@ -72,5 +72,12 @@ SSL_CTX *net_ssl_server_context(char *certificate, char *private_key)
     SSL_CTX_free(ctx);
     return NULL;
   }
+  /* the key may be of another type than the certificate */
+  e = SSL_CTX_check_private_key(ctx);
+  if (e != 1)
+  {
+    SSL_CTX_free(ctx);
+    return NULL;
+  }
   return ctx;
 }
-- 
2.43.0


From ac926e1e84fbe6c1ce36efc5e83b5f18a13603d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:18 +0000
Subject: [PATCH 21/24] fix: a TLS handshake that waits to write is not
 corrupted by writing output

---
 src/reactor/stream.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index d32ce70..46b62e2 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -135,6 +135,14 @@ static void stream_ssl_flush(stream *stream)
   ssize_t n;
 
   assert(stream_ssl_activated);
+  /* a handshake that waits to write is to be continued, and not mixed up with the output */
+  n = SSL_do_handshake(stream->ssl);
+  if (n != 1)
+  {
+    stream->ssl_state = SSL_get_error(stream->ssl, n);
+    return;
+  }
+
   do
   {
     n = SSL_write(stream->ssl, buffer_data(&stream->output), buffer_size(&stream->output));
-- 
2.43.0


From 4547c905a98f681a19cafe6cc25fb49372fdb010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:25 +0000
Subject: [PATCH 22/24] fix: a rejected request does not cut off the responses
 a slow client has not received yet

---
 src/reactor/server.c | 14 +++++++++++---
 src/reactor/server.h |  1 +
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index e0b56a0..9b0805e 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -108,6 +108,7 @@ static void server_request_callback(reactor_event *event)
     server_request_update(request);
     break;
   default:
+  case STREAM_WRITE: /* the last response of a closing connection has been sent */
   case STREAM_CLOSE:
     server_close(request);
     break;
@@ -271,7 +272,7 @@ void server_release(server_request *request)
 
 void server_respond(server_request *request, data status, data type, data body)
 {
-  if (request->state != SERVER_REQUEST_CLOSED)
+  if (request->state != SERVER_REQUEST_CLOSED && request->state != SERVER_REQUEST_CLOSING)
   {
     http_write_response(&request->stream, status, server_date(), type, body);
     if (request->event_triggered)
@@ -298,11 +299,18 @@ void server_not_found(server_request *request)
 
 void server_bad_request(server_request *request)
 {
-  if (request->state != SERVER_REQUEST_CLOSED)
+  if (request->state != SERVER_REQUEST_CLOSED && request->state != SERVER_REQUEST_CLOSING)
   {
     http_write_response(&request->stream, data_string("400 Bad Request"), server_date(), data_null(), data_null());
     stream_flush(&request->stream);
-    server_close(request);
+    if (buffer_size(&request->stream.output))
+    {
+      /* close when the client has been given this and all earlier responses */
+      request->state = SERVER_REQUEST_CLOSING;
+      stream_notify(&request->stream);
+    }
+    else
+      server_close(request);
   }
   server_release(request);
 }
diff --git a/src/reactor/server.h b/src/reactor/server.h
index 68d11ed..098bab3 100644
--- a/src/reactor/server.h
+++ b/src/reactor/server.h
@@ -15,6 +15,7 @@ enum server_state
   SERVER_REQUEST_NEED_MORE_DATA,
   SERVER_REQUEST_READ,
   SERVER_REQUEST_HANDLING,
+  SERVER_REQUEST_CLOSING,
   SERVER_REQUEST_CLOSED
 };
 
-- 
2.43.0


From c2a638952dfff231e86e9f639400149847b37842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:25 +0000
Subject: [PATCH 23/24] fix: a server opened again without TLS does not use the
 previous context

---
 src/reactor/server.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index 9b0805e..76288c7 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -150,6 +150,7 @@ static void server_socket_descriptor_callback(reactor_event *event)
 
 static void server_socket_open(server *server, int fd)
 {
+  server->ssl_ctx = NULL;
   timer_set(&server->timer, 0, 1000000000);
   descriptor_construct(&server->descriptor, server_socket_descriptor_callback, server);
   descriptor_open(&server->descriptor, fd, DESCRIPTOR_READ);
-- 
2.43.0


From 87f0fb2836441a1c29674be1005610c7f80ee4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:54 +0000
Subject: [PATCH 24/24] fix: a server that only accepts given connections sends
 a current date

---
 src/reactor/server.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index 76288c7..08344ea 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -23,11 +23,7 @@ static __thread int server_ssl_activated = 0;
 /* server date */
 
 static __thread char server_date_string[30];
-
-static data server_date(void)
-{
-  return data_construct(server_date_string, 29);
-}
+static __thread size_t server_date_timers = 0;
 
 static void server_date_update(void)
 {
@@ -43,6 +39,14 @@ static void server_date_update(void)
   memcpy(server_date_string + 8, months[tm.tm_mon], 3);
 }
 
+static data server_date(void)
+{
+  /* without an open server there is no timer that refreshes the date */
+  if (!server_date_timers)
+    server_date_update();
+  return data_construct(server_date_string, 29);
+}
+
 /* common routines */
 
 static void server_request_read(server_request *request)
@@ -215,6 +219,8 @@ void server_open(server *server, int fd, SSL_CTX *ssl_ctx)
     server_ssl_open(server, fd, ssl_ctx);
   else
     server_socket_open(server, fd);
+  server_date_update();
+  server_date_timers++;
   server->is_open = 1;
 }
 
@@ -234,6 +240,7 @@ void server_shutdown(server *server)
   if (server->is_open)
   {
     server->is_open = 0;
+    server_date_timers--;
     descriptor_destruct(&server->descriptor);
   }
 }
-- 
2.43.0

