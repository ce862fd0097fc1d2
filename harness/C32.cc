// C32: the server over TLS.  VX_SERVER
#include "server_model.h"
const vx::Spec vx_spec = {
  "C32", "over TLS the server behaves exactly as over a plain connection", 15000, 400000,
  "the histories of C30 with a server over TLS 1.2 or 1.3 (sometimes reopened without TLS): the clients are OpenSSL connections over memory buffers whose encrypted bytes are moved in pieces of generated size; "
  "an eighth of the clients send garbage instead, some disconnect during the handshake; "
  "non-trivial: several requests of one TLS connection were delivered and one of them was pipelined, deferred or invalid, or a handshake was disturbed while another connection got answers"};
const svm::Cfg svm::cfg = {true, true, true, true};
extern "C" void vx_worker_init(void) { svm::init(); }
void vx_case()
{
  svm::run_case(6, 250, 500000);
  auto &s = svm::seen;
  if ((s.tls_many && (s.pipelined || s.deferred || s.bad_after_good)) || (s.handshake_harm && s.answered)) vx::nontrivial();
}
