#pragma once
#include "../standin.hpp"
#define DISPATCH_QUEUE_PRIORITY_HIGH 2
#define DISPATCH_QUEUE_PRIORITY_DEFAULT 0
#define DISPATCH_QUEUE_PRIORITY_LOW (-2)
typedef struct dispatch_queue_s { long priority; }* dispatch_queue_t;
inline dispatch_queue_t dispatch_get_global_queue(long priority, unsigned long flags)
{
  static dispatch_queue_s q[3] = {{-2}, {0}, {2}};
  if (flags) return nullptr;
  for (auto& x : q) if (x.priority == priority) return &x;
  return nullptr;
}
inline void dispatch_async_f(dispatch_queue_t q, void* ctx, void (*f)(void*))
{
  if (!q) mc::fail("a task was submitted to a null dispatch queue");
  standin::submit([=] { f(ctx); });
}
