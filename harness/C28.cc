// C28: every request is delivered and answered once, in order.  VX_SERVER
#include "server_model.h"
const vx::Spec vx_spec = {
  "C28", "the server answers every request once, in order, however bytes arrive", 20000, 600000,
  "a case is a server with up to eight clients (connections accepted from a listening socket or handed over, some with send buffers of a few kilobytes) that send generated valid requests (heads up to 120 kilobytes, 0 to 16 fields, continuation lines) "
  "split and pipelined at generated places, while the application answers in the callback or later in any order with bodies up to 400 kilobytes, and clients read at their own pace; "
  "non-trivial: requests were pipelined and split, and at least one was answered after the callback"};
const svm::Cfg svm::cfg = {false, true, false, false};
extern "C" void vx_worker_init(void) { svm::init(); }
void vx_case()
{
  svm::run_case(8, 250, 1500000);
  if (svm::seen.pipelined && svm::seen.split && svm::seen.deferred && svm::seen.answered > 2) vx::nontrivial();
}
