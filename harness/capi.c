// Uses of the library's C-only macros on behalf of the C++ harnesses.
#include "reactor.h"

void c_mapi_each(mapi *m, void (*f)(void *, uintptr_t, uintptr_t), void *arg)
{
  mapi_entry *e;
  mapi_foreach(m, e)
    f(arg, e->key, e->value);
}

void c_maps_each(maps *m, void (*f)(void *, const char *, uintptr_t), void *arg)
{
  maps_entry *e;
  maps_foreach(m, e)
    f(arg, e->key, e->value);
}
