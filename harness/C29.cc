// C29: invalid requests get one 400 and a close.  VX_SERVER
#include "server_model.h"
const vx::Spec vx_spec = {
  "C29", "malformed requests get one 400 and a close, and nothing else suffers", 30000, 600000,
  "as C28, and a fifth of what clients send is damaged: generated edits of requests, too many fields, wrong versions, arbitrary bytes, heads broken off and followed by others, with further requests behind; "
  "a reference parser says from which byte on the input is invalid; the application also rejects requests itself; "
  "non-trivial: a connection became invalid after a valid request, or while another connection was open"};
const svm::Cfg svm::cfg = {false, true, true, false};
extern "C" void vx_worker_init(void) { svm::init(); }
void vx_case()
{
  svm::run_case(8, 250, 1000000);
  if (svm::seen.bad_after_good || svm::seen.bad_beside) vx::nontrivial();
}
