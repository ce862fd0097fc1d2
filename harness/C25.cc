// C25: a plain stream delivers every byte exactly once and in order, both ways.
#include "stream_model.h"
const vx::Spec vx_spec = {
  "C25", "a plain stream delivers every byte exactly once and in order", 80000, 2500000,
  "one case is up to 30 loop iterations over one to three streams on Unix and TCP sockets and pipes, some written to before they are opened, with a generated program of writes, allocations, flushes, consumes, notifications, closes and reopens, between iterations "
  "and inside callbacks, and of peers that write, read, shut down and close; sizes 0 to 400000, small socket buffers; both byte sequences are functions of the position; at the end the peers read everything; "
  "non-trivial: the system took only a part of a flush and input was left unconsumed"};
const sm::Cfg sm::cfg = {false, true, true, false};
void vx_case()
{
  sm::run_case(3, 300, 3000000);
  if (sm::partial_seen && sm::backlog_seen) vx::nontrivial();
}
