// C30: lifetimes of connections and held requests.  VX_SERVER
#include "server_model.h"
const vx::Spec vx_spec = {
  "C30", "server connections and held requests have memory-safe lifetimes", 40000, 1200000,
  "as C29, and clients disconnect, reset and shut down, the application closes connections, holds and releases requests, answers after the connection is gone, and shuts the server down and opens it again, inside callbacks and outside; "
  "under ASan, with every descriptor number the server closes taken at once, and memory and descriptors compared with the start whenever all connections are closed; "
  "non-trivial: a request was answered after its connection was closed, or held past it, or a client was lost or the server shut down with a request outstanding"};
const svm::Cfg svm::cfg = {false, true, true, true};
extern "C" void vx_worker_init(void) { svm::init(); }
void vx_case()
{
  svm::run_case(10, 250, 600000);
  if (svm::seen.dead_answer || svm::seen.held_past_close || svm::seen.shutdown_busy || svm::seen.dropped_busy) vx::nontrivial();
}
