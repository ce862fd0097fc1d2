// C27: stream notifications and closing are exact, and disconnects are harmless.
#include "stream_model.h"
const vx::Spec vx_spec = {
  "C27", "stream notifications and closing are exact, disconnects are harmless", 24000, 1000000,
  "as C25 and C26 (plain and TLS streams), with more notification requests, closes, reopens and destructions between iterations and inside callbacks, and more peers that close, shut down or reset, also while output is outstanding; "
  "every notification is judged when it is reported: requested, all output handed to the system (the bytes received and queued at the peer are counted), data before a disconnect available; "
  "non-trivial: a stream was closed or destroyed inside a callback, or a peer disconnected with output outstanding"};
const sm::Cfg sm::cfg = {true, true, false, true};
extern "C" void vx_worker_init(void) { sm::init(); }
void vx_case()
{
  sm::run_case(3, 300, 1000000);
  if (sm::closed_in_callback || sm::disconnected_with_output) vx::nontrivial();
}
