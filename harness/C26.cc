// C26: a TLS stream delivers every byte exactly once and in order, both ways.
#include "stream_model.h"
const vx::Spec vx_spec = {
  "C26", "a TLS stream delivers every byte exactly once and in order", 20000, 600000,
  "as C25, over TLS 1.2 and 1.3: the stream is the server (with certificates of half a kilobyte or 60 kilobytes) or the client, the peer is an OpenSSL connection over memory buffers whose encrypted bytes the harness moves in pieces of "
  "generated size; a sixth of the peers send garbage instead of TLS, some switch to garbage later; plain streams run beside; "
  "non-trivial: bytes arrived in both directions over one TLS stream, after some were written before its handshake was done, or garbage was sent while another TLS stream transferred bytes"};
const sm::Cfg sm::cfg = {true, true, true, false};
extern "C" void vx_worker_init(void) { sm::init(); }
void vx_case()
{
  sm::run_case(3, 300, 2000000);
  bool both = false, garbage = false, some = false;
  for (auto &c : sm::chs)
  {
    if (!c->tls) continue;
    if (c->visible && c->out_got) both = true;
    if (c->visible || c->out_got) some = true;
    if (c->spoiled) garbage = true;
  }
  if (both) vx::count("case with bytes both ways over TLS");
  if (both || (garbage && some)) vx::nontrivial();
}
