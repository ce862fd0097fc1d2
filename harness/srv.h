// The server, for harnesses in C++ (server.h is not valid C++).
#ifndef SRV_H
#define SRV_H
#ifdef __cplusplus
#include "common.h"
extern "C" {
#else
#include "reactor.h"
#endif
void *srv_new(void (*)(reactor_event *), void *);
void  srv_destruct(void *);        // leaves the memory
void  srv_free(void *);
void  srv_open(void *, int, SSL_CTX *);
void  srv_shutdown(void *);
void  srv_accept(void *, int);
void  srv_close(void *);           // on a request from here on
void  srv_hold(void *);
void  srv_release(void *);
void  srv_respond(void *, data, data, data);
void  srv_ok(void *, data, data);
void  srv_not_found(void *);
void  srv_bad_request(void *);
data  srv_method(void *);
data  srv_target(void *);
http_field *srv_fields(void *, size_t *);
#ifdef __cplusplus
}
#endif
#endif
