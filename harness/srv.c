#include <stdlib.h>
#include <string.h>
#include "srv.h"

void *srv_new(void (*callback)(reactor_event *), void *state)
{
  server *s = malloc(sizeof *s);
  memset(s, 0xdd, sizeof *s);
  server_construct(s, callback, state);
  return s;
}
void srv_destruct(void *s) { server_destruct(s); }
void srv_free(void *s) { memset(s, 0xee, sizeof(server)); free(s); }
void srv_open(void *s, int fd, SSL_CTX *c) { server_open(s, fd, c); }
void srv_shutdown(void *s) { server_shutdown(s); }
void srv_accept(void *s, int fd) { server_accept(s, fd); }
void srv_close(void *r) { server_close(r); }
void srv_hold(void *r) { server_hold(r); }
void srv_release(void *r) { server_release(r); }
void srv_respond(void *r, data s, data t, data b) { server_respond(r, s, t, b); }
void srv_ok(void *r, data t, data b) { server_ok(r, t, b); }
void srv_not_found(void *r) { server_not_found(r); }
void srv_bad_request(void *r) { server_bad_request(r); }
data srv_method(void *r) { return ((server_request *) r)->method; }
data srv_target(void *r) { return ((server_request *) r)->target; }
http_field *srv_fields(void *r, size_t *n) { *n = ((server_request *) r)->fields_count; return ((server_request *) r)->fields; }
