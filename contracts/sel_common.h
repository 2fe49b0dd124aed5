/* the real selector core with its environment (thread identity, clock, socket layer, tree) observed */
#include "v.h"
#include <pthread.h>
#include <sys/time.h>
struct kselector_s;
static struct kselector_s *v_tls; static int v_other_thread; static struct timeval v_now;
static pthread_t v_self(void) { return (pthread_t)(v_other_thread ? 2 : 1); }
static void *v_tls_get(pthread_key_t k) { return v_tls; }
static int v_gettimeofday(struct timeval *t, void *z) { *t = v_now; return 0; }
#define pthread_self v_self
#define pthread_getspecific v_tls_get
#define gettimeofday v_gettimeofday
#include "kselector.h"
#include "kselectable.h"
#include "kmalloc.h"
#include "kfiber.h"
#undef xfree
#define xfree v_free
