/* Asynchronous file I/O of the epoll back end, on the real kepoll_selector.c and kasync_file.c. */
//@assume alignment is a power of two from 512 to 4096; offsets below 2^60, lengths below 2^28; the kernel meets the io_submit/io_getevents/eventfd specification
//@ob H_submit split="RW:0,1" kind=proof unwind=3 hunwind=18 fn=epoll_selector_aio_read,epoll_selector_aio_write,_kasync_file_get_adjust_offset
//@ob H_adjust kind=proof unwind=3 hunwind=18 fn=kasync_file_adjust_result,aio_result
//@ob S_collect defs=-DCUT kind=proof unwind=3 hunwind=18 replayable=0 hook=aio_collect,aio_dispatch calls=aio_result:c_result fallback=H_collect fn=result_aio_event
//@ob H_collect kind=bounded bound="<=2 completions" unwind=4 hunwind=18 tier=thorough calls=aio_result:c_result fn=result_aio_event
//@ob H_direct kind=proof unwind=3 hunwind=18 fn=kasync_file_direct,aio_alloc_buffer,aio_free_buffer
#ifndef RW
#define RW 0
#endif
static int hd_collect(unsigned long *left), hd_disp(int *j, int r, void *ev);
#ifdef CUT
#define KGL_LOOP_CONTRACT_aio_collect if (hd_collect(&finished_aio)) break; else
#define KGL_LOOP_CONTRACT_aio_dispatch if (hd_disp(&j, r, events)) break; else
#endif
#include "v.h"
#include <pthread.h>
struct kselector_s;
static struct kselector_s *v_tls; static void *v_tls_get(pthread_key_t k) { return v_tls; }
#define pthread_getspecific v_tls_get
#include <sys/syscall.h>
#include <sys/eventfd.h>
#include <sys/epoll.h>
#include <fcntl.h>
#include <mntent.h>
#include <unistd.h>
#include "kselector.h"
#include "kselectable.h"
#include "kserver.h"
#include "kasync_file.h"
#include "kepoll_selector.h"
#include "kfiber.h"
#include "klog.h"
#include "v_memset.h"
#define syscall(n, ...) v_sys_##n(__VA_ARGS__)
static int v_sys_SYS_io_setup(unsigned n, aio_context_t *c) { return 0; }
static int v_sys_SYS_io_destroy(aio_context_t c) { return 0; }
static int v_sys_SYS_io_submit(aio_context_t c, long n, struct iocb **pp);
static int v_sys_SYS_io_getevents(aio_context_t c, long mn, long n, struct io_event *ev, struct timespec *t);
static ssize_t v_read(int fd, void *p, size_t n);
#define read v_read
static int v_fcntl(int fd, int cmd, int arg, ...);
#define fcntl(...) v_fcntl(__VA_ARGS__, 0)
#define V_KEEP_READ
#undef read
/* the member called read of the back end table must keep its name: only the call in this file is redirected */
#define read(a, b, c) v_read(a, b, c)
#include "src/kepoll_selector.c"
#undef read
#include "src/kasync_file.c"
pthread_key_t kgl_selector_key; kselector_module kgl_selector_module; size_t kgl_aio_align_size;
static kselector SEL; static kepoll_selector ES; static kasync_file F; static char buf_[8], arg_[2];
static int nsub, subret; static struct iocb sub; 
static int v_sys_SYS_io_submit(aio_context_t c, long n, struct iocb **pp) { V_CHECK(c == ES.aio_st.aio_ctx && n == 1, "one request on this back end's context"); nsub++; sub = **pp; subret = V_IN(int, -1, 1); return subret; }
static kev_result done(KOPAQUE d, void *a, int got);
static int ndone, dg; static KOPAQUE dd; static void *da; static long long o; static int A, fd;
static void base(void) {
	kselector zs = {0}; SEL = zs; kepoll_selector ze = {0}; ES = ze; kasync_file zf = {0}; F = zf; v_tls = &SEL; SEL.ctx = &ES; F.st.base.selector = &SEL; ES.aio_st.aio_ctx = 99; ES.aio_st.st.fd = 5;
	A = 512 << V_IN(int, 0, 3); kgl_aio_align_size = A; o = V_IN(long long, 0, 1LL << 60); F.st.offset = o; F.st.fd = fd = V_IN(int, 0, 9999); F.st.direct_io = V_BOOL(); F.st.direct_io_offset = V_IN(int, 0, 511); nsub = 0; F.st.data = &arg_[1];
}
void H_submit(void) {
	base(); int n = V_IN(int, 0, 1 << 28); bool direct = F.st.direct_io;
#if RW
	if (direct) V_ASSUME((o & (A - 1)) == 0 && (n & (A - 1)) == 0);
	bool r = epoll_selector_aio_write(&F, done, buf_, n, &arg_[0]);
#else
	bool r = epoll_selector_aio_read(&F, done, buf_, n, &arg_[0]);
#endif
	V_REACH("submitted"); V_CHECK(nsub == 1 && r == (subret == 1), "one request, and success exactly if it was accepted");
	V_CHECK(sub.aio_fildes == (unsigned)fd && sub.aio_lio_opcode == (RW ? IOCB_CMD_PWRITE : IOCB_CMD_PREAD) && sub.aio_buf == (unsigned long long)(uintptr_t)buf_ && (sub.aio_flags & IOCB_FLAG_RESFD) && sub.aio_resfd == 5 && sub.aio_data == (unsigned long long)(uintptr_t)&F, "it is for this file, buffer and operation and completes through this back end");
	V_CHECK(F.st.offset == o && F.st.e[OP_READ].result == done && F.st.e[OP_READ].arg == &arg_[0] && F.st.data == (void *)&arg_[1], "the position is not moved yet, the completion is known");
	if (!direct || RW) { V_REACH("plain"); V_CHECK(sub.aio_offset == o && sub.aio_nbytes == (unsigned)n && F.st.direct_io_offset == 0, "exactly the asked bytes at the file position"); }
#if !RW
	if (direct) { V_REACH("direct"); long long fo = o / A * A;
		V_CHECK(sub.aio_offset == fo && sub.aio_nbytes % A == 0 && F.st.direct_io_offset == o - fo && F.st.direct_io_orig_length == n, "direct: the aligned block of the position is read, the offset inside it kept");
		V_CHECK((long long)sub.aio_nbytes >= n && (long long)sub.aio_nbytes < n + 2LL * A && sub.aio_nbytes > F.st.direct_io_offset, "direct: no fewer bytes than asked, rounded to blocks"); }
#else
	if (direct) { V_REACH("direct"); V_CHECK(F.st.direct_io_orig_length == n, "direct: length kept"); }
#endif
}
void H_adjust(void) {
	base(); int got = V_INT(), n = V_IN(int, 0, 1 << 28), k = V_IN(int, 0, 4095); F.st.direct_io_offset = k; F.st.direct_io_orig_length = n; bool d = F.st.direct_io;
	int r = kasync_file_adjust_result(&F, got);
	if (got < 0) { V_REACH("error"); V_CHECK(r == got, "an error is reported as it is"); }
	else if (!d) { V_REACH("plain"); V_CHECK(r == got, "plain: the bytes transferred"); }
	else { V_REACH("direct"); V_CHECK(r == (got <= k ? 0 : got - k < n ? got - k : n), "direct: the bytes transferred from the asked position on, 0 at end of file, at most what was asked"); }
	ndone = 0; F.st.e[OP_READ].result = done; F.st.e[OP_READ].arg = &arg_[0]; struct iocb cb; aio_result(&F, &cb, got, 0);
	V_CHECK(ndone == 1 && dd == (void *)&arg_[1] && da == &arg_[0] && dg == r, "the file's own callback is called once with that result");
}
/* completions */
static unsigned long long cnt; static int rd, ngete, gr, j0; static bool okread; static long long h_left; static int heads, dheads; static struct io_event *EV; static long lastres; 
static kev_result done(KOPAQUE d, void *a, int got) { ndone++; dd = d; da = a; dg = got; return kev_ok; }
static ssize_t v_read(int f, void *p, size_t n) { rd++; V_CHECK(f == 5 && n == sizeof(uint64_t), "the completion counter is read"); if (!okread) return -1; *(uint64_t *)p = cnt; return 8; }
static long long lim;
static int v_sys_SYS_io_getevents(aio_context_t c, long mn, long n, struct io_event *ev, struct timespec *t) {
	V_CHECK(c == ES.aio_st.aio_ctx && mn >= 1 && n >= mn && n <= MAXEVENT && n <= lim && t && t->tv_sec == 0 && t->tv_nsec == 0, "completions counted are fetched, at most as many as fit, without blocking");
	ngete++; EV = ev; gr = V_IN(int, -1, 512); V_ASSUME(gr <= n);
#ifndef CUT
	V_ASSUME(gr >= 1); for (int i = 0; i < 2; i++) if (i < gr) { ev[i].data = (unsigned long long)(uintptr_t)&F; ev[i].res = lastres; } lim -= gr;
#endif
	return gr;
}
static int hd_collect(unsigned long *left) {
	if (++heads == 1) { V_CHECK(okread && *left == cnt && ngete == 0, "collecting starts with the counter"); h_left = V_IN(long long, 1, 1 << 28); V_ASSUME(h_left <= (long long)cnt); *left = h_left; lim = h_left; return 0; }
	V_CHECK(ngete == 1 && *left == (unsigned long)(h_left - (gr > 0 ? gr : 0)), "what was fetched is accounted for");
	if (gr > 0) { V_REACH("fetched"); V_CHECK(dheads == 1 && ndone == 1, "fetched completions are dispatched"); } else { V_REACH("nothing yet"); V_CHECK(dheads == 0 && ndone == 0, "no completion, nothing dispatched"); }
	V_ASSUME(0); return 1;
}
static kasync_file *cf; static long cres;
void c_result(kasync_file *f, struct iocb *i, long r, long r2) { ndone++; cf = f; cres = r; }
static void told(void) { V_CHECK(ndone == 1 && cf == &F && cres == lastres, "the file whose request completed gets its result once"); }
static int hd_disp(int *j, int r, void *ev) {
	if (++dheads == 1) { V_CHECK(*j == 0 && r == gr && ndone == 0, "from the first completion"); j0 = V_IN(int, 0, 511); V_ASSUME(j0 < r); *j = j0; EV[j0].data = (unsigned long long)(uintptr_t)&F; lastres = V_INT(); EV[j0].res = lastres; return 0; }
	V_CHECK(dheads == 2 && *j == j0 + 1, "one after the other"); told(); V_REACH("next"); V_ASSUME(0); return 1;
}
static void start(void) { base(); heads = dheads = ndone = ngete = rd = 0; okread = V_BOOL(); F.st.e[OP_READ].result = done; F.st.e[OP_READ].arg = &arg_[0]; F.st.direct_io_orig_length = 100; ES.aio_st.st.base.selector = &SEL; }
void S_collect(void) {
	start(); cnt = V_IN(long long, 0, 1 << 28); kev_result r = result_aio_event(NULL, &ES.aio_st, 0); V_REACH("returned");
	if (heads == 0) { V_CHECK(ndone == 0 && ngete == 0 && (!okread || cnt == 0), "without completions nothing is dispatched"); return; }
	V_REACH("all"); V_CHECK(gr == h_left && ndone == 1 && j0 == gr - 1, "it returns when all counted completions are dispatched"); told();
}
void H_collect(void) {
	start(); cnt = V_IN(long long, 0, 2); lim = cnt; lastres = V_INT(); result_aio_event(NULL, &ES.aio_st, 0); V_REACH("returned");
	V_CHECK(ndone == (okread ? (int)cnt : 0) && V_IMPLIES(ndone, cf == &F && cres == lastres), "each counted completion is dispatched once");
}
/* mode switch and buffers */
static int nget, nset, flags0, setv; static bool getok, setok;
static int v_fcntl(int f, int cmd, int arg, ...) { V_CHECK(f == fd, "this file"); if (cmd == F_GETFL) { nget++; return getok ? flags0 : -1; } V_CHECK(cmd == F_SETFL, "only flags"); nset++; setv = arg; return setok ? 0 : -1; }
static size_t ma, ms; static void *freed;
void *kgl_memalign(size_t a, size_t n) { ma = a; ms = n; return buf_; }
#undef kgl_align_free
void kgl_align_free(void *p) { freed = p; }
void H_direct(void) {
	base(); nget = nset = 0; getok = V_BOOL(); setok = V_BOOL(); flags0 = V_IN(int, 0, (1 << 24)); bool on = V_BOOL(), was = F.st.direct_io; bool r = kasync_file_direct(&F, on); V_REACH("switched");
	V_CHECK(r == (getok && setok) && F.st.direct_io == (r ? on : was) && V_IMPLIES(nset, setv == (on ? flags0 | O_DIRECT : flags0 & ~O_DIRECT)), "the mode is what the kernel accepted");
	size_t n = V_IN(long long, 0, 1LL << 40); void *p = aio_alloc_buffer(n); V_CHECK(p == buf_ && ma == (size_t)A && ms >= n && ms % A == 0 && ms < n + A, "buffers are aligned and hold whole blocks");
}
