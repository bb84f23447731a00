/* A cancelled thread unwinds without telling the address sanitizer, which then trips over its own poisoned stack at the next
   rethrow (asan_thread.cpp:369). Clear what lies below the current frame first, then let the sanitizer do its own part. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stddef.h>
void __asan_unpoison_memory_region(void const volatile *, size_t);
void __asan_handle_no_return(void)
{
  static void (*real)(void);
  char *sp = (char *)__builtin_frame_address(0);
  __asan_unpoison_memory_region(sp - 32768,32768 + 256);
  if( !real ) real = (void (*)(void))dlsym(RTLD_NEXT,"__asan_handle_no_return");
  if( real ) real();
}
