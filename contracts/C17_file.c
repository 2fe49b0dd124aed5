/* Files used by fibers: operations, positions, whole transfers and use from another thread, on the real kfiber.c. */
//@assume an operation started is completed once through its callback (aio contract above), with at most the length asked for; file sizes and offsets below 2^60
//@ob H_op split="RW:0,1" kind=proof unwind=4 hunwind=18 fn=kfiber_file_read,kfiber_file_write,kfiber_file_callback
//@ob S_ffull split="RW:0,1" defs=-DCUT kind=proof unwind=3 hunwind=18 replayable=0 hook=file_write_full calls=kfiber_file_read:c_fread,kfiber_file_write:c_fwrite fallback=H_ffull fn=kfiber_file_write_full,kfiber_file_read_full
//@ob H_ffull split="RW:0,1" kind=bounded bound="<=3 operations" unwind=5 hunwind=18 tier=thorough calls=kfiber_file_read:c_fread,kfiber_file_write:c_fwrite fn=kfiber_file_write_full,kfiber_file_read_full
//@ob H_safe split="RW:0,1" kind=proof unwind=4 hunwind=18 calls=kfiber_create2:c_create,kfiber_join:c_join,kfiber_file_read:c_fread,kfiber_file_write_full:c_fwfull fn=kfiber_file_safe_read,kfiber_file_safe_write_full,kfiber_file_safe_read_func,kfiber_file_safe_write_func
//@ob H_pos kind=proof unwind=3 hunwind=18 fn=kfiber_file_seek,kfiber_file_tell,kfiber_file_bind,kfiber_file_open,kfiber_file_close
#ifndef RW
#define RW 0
#endif
static int hd_len(const char **buf, int *len);
#ifdef CUT
#define KGL_LOOP_CONTRACT_file_write_full if (hd_len(&buf, length)) break; else
#define KGL_LOOP_CONTRACT_file_read_full if (hd_len((const char **)&buf, length)) break; else
#endif
#define V_FREE_TRACK
#include "v.h"
#include <unistd.h>
static int v_close(int fd);
#define close v_close
#include "fibc_common.h"
#define MAXN (1 << 28)
static kasync_file F; static char data_[4]; static bool pend, accept_; static result_callback pcb; static void *parg; static int pgot, nio; static long long o0; static char *e_base; static long long e_len;
static void env_switch(kfiber *to) {
	V_CHECK(to == &MAIN && pend, "a fiber waits only for an operation it has started"); pend = false; SEL.current = &MAIN;
	V_CHECK(pcb == kfiber_file_callback, "its own callback"); kfiber_file_callback(F.st.data, parg, pgot);
}
static bool start_io(int rw, kasync_file *f, result_callback cb, const char *b, int n, void *arg) {
	V_CHECK(rw == RW && f == &F && b == e_base && n == e_len && arg == (void *)&F && F.st.data == (void *)&SELF, "the operation asked for, on this file, region and fiber"); nio++;
	if (!accept_) return false; pend = true; pcb = cb; parg = arg; pgot = V_INT(); V_ASSUME(pgot <= n); return true;
}
static bool v_aioread(kasync_file *f, result_callback cb, char *b, int n, void *arg) { return start_io(0, f, cb, b, n, arg); }
static bool v_aiowrite(kasync_file *f, result_callback cb, const char *b, int n, void *arg) { return start_io(1, f, cb, b, n, arg); }
static kasync_file *opened; static int openfd; static void v_aioopen(kselector *s, kasync_file *f, FILE_HANDLE fd) { V_CHECK(s == &SEL, "on this thread"); opened = f; openfd = fd; f->st.fd = fd; f->st.base.selector = s; }
static void base(void) { fibc_base(false); kasync_file zf = {0}; F = zf; F.st.base.selector = &SEL; kgl_selector_module.aio_read = v_aioread; kgl_selector_module.aio_write = v_aiowrite; kgl_selector_module.aio_open = v_aioopen; o0 = V_IN(long long, 0, 1LL << 60); F.st.offset = o0; nio = 0; pend = false; accept_ = V_BOOL(); }
void H_op(void) {
	base(); int n = V_IN(int, 0, MAXN); e_base = data_; e_len = n;
#if RW
	int r = kfiber_file_write(&F, data_, n);
#else
	int r = kfiber_file_read(&F, data_, n);
#endif
	V_CHECK(nio == 1 && !pend && SEL.current == &SELF && SELF.wait_notice_flag == 0, "one operation");
	if (!accept_) { V_REACH("refused"); V_CHECK(r == -1 && F.st.offset == o0 && nsw == 0, "an operation that cannot be started fails without waiting"); }
	else { V_REACH("done"); V_CHECK(r == pgot && F.st.offset == o0 + (pgot > 0 ? pgot : 0), "its result is returned and the position moves by the bytes transferred"); }
}
static bool safe_; static int N, LEFT, heads, ilen, lastgot; static char *B0;
static int op1(kasync_file *f, const char *b, int n) {
	V_CHECK(f == &F && b == e_base && n == e_len, "exactly what is left is asked for"); nio++; lastgot = V_INT(); V_ASSUME(lastgot <= n);
	if (lastgot > 0 && !safe_) { F.st.offset += lastgot; e_base += lastgot; e_len -= lastgot; } return lastgot;
}
int c_fread(kasync_file *f, char *b, int n) { V_CHECK(RW == 0, "reads"); return op1(f, b, n); }
int c_fwrite(kasync_file *f, const char *b, int n) { V_CHECK(RW == 1, "writes"); return op1(f, b, n); }
static int hd_len(const char **buf, int *len) {
	if (++heads == 1) { V_CHECK(*len == N && *buf == B0 && nio == 0, "before the first operation everything is left"); *len = V_IN(int, 1, MAXN); V_ASSUME(*len <= N); *buf = B0 + (N - *len); ilen = *len; e_base = (char *)*buf; e_len = *len; return 0; }
	V_REACH("continues"); V_CHECK(heads == 2 && nio == 1 && lastgot > 0 && *len == ilen - lastgot && *buf == B0 + (N - *len) && *len < ilen, "after an operation exactly what is left remains, at its place"); V_ASSUME(0); return 1;
}
static bool run(void) {
#if RW
	return kfiber_file_write_full(&F, B0, &LEFT);
#else
	return kfiber_file_read_full(&F, B0, &LEFT);
#endif
}
#ifdef CUT
void S_ffull(void) {
	base(); N = LEFT = V_IN(int, 0, MAXN); B0 = v_alloc(N); heads = 0; bool r = run();
	if (!heads) { V_REACH("nothing"); V_CHECK(r && N == 0 && nio == 0, "an empty region needs no operation"); }
	else if (r) { V_REACH("complete"); V_CHECK(LEFT == 0 && lastgot == ilen, "success means everything was transferred"); }
	else { V_REACH("stopped"); V_CHECK(lastgot <= 0 && LEFT == ilen && nio == 1, "at an error or end of file it stops and tells what is left"); }
}
#endif
void H_ffull(void) {
	base(); static char small[4]; N = LEFT = V_IN(int, 0, 3); B0 = e_base = small; e_len = N; bool r = run(); V_REACH("returned");
	V_CHECK(LEFT == e_len && r == (LEFT == 0) && F.st.offset == o0 + N - LEFT && V_IMPLIES(!r, lastgot <= 0), "it transfers until everything is done or an operation fails, and tells what is left");
}
/* from another thread: a helper fiber on the file's own thread does the work */
static kfiber HELP; static int ncreate, njoin, created_ok, hret; static kfiber_start_func sf; static void *sarg; static int slen; static bool fullret; static int nfull;
int c_create(kselector *s, kfiber_start_func f, void *a, int len, int stk, kfiber **ret) { V_CHECK(s == &SEL2 && ret != NULL, "on the file's own thread"); ncreate++; if (!created_ok) return -1; sf = f; sarg = a; slen = len; *ret = &HELP; return 0; }
bool c_fwfull(kasync_file *f, const char *b, int *len) { V_CHECK(f == &F && b == data_ && *len == N, "the region asked for"); nfull++; fullret = V_BOOL(); *len = fullret ? 0 : V_IN(int, 0, MAXN); LEFT = *len; return fullret; }
int c_join(kfiber *f, int *retval) { V_CHECK(f == &HELP && ncreate == 1, "the helper is joined"); njoin++;
	V_CHECK(sf == (RW ? kfiber_file_safe_write_func : kfiber_file_safe_read_func), "the helper does the operation"); hret = RW ? kfiber_file_safe_write_func(sarg, slen) : kfiber_file_safe_read_func(sarg, slen); if (retval) *retval = hret; return 0; }
void H_safe(void) {
	base(); safe_ = true; bool other = V_BOOL(); if (other) F.st.base.selector = &SEL2; created_ok = V_BOOL(); ncreate = njoin = nfull = 0; N = V_IN(int, 0, MAXN); e_base = data_; e_len = N; int len = N;
#if RW
	bool r = kfiber_file_safe_write_full(&F, data_, &len);
	bool failed = !r && nfull == 0;
	if (!failed) V_CHECK(r == fullret && len == LEFT && nfull == 1, "the outcome and what is left are the operation's");
#else
	int r = kfiber_file_safe_read(&F, data_, N);
	bool failed = nio == 0; if (failed) V_CHECK(r < 0, "a read that could not be done is an error, not end of file"); else V_CHECK(r == lastgot && nio == 1, "the outcome is the operation's");
#endif
	V_REACH("returned"); V_CHECK(failed == (other && !created_ok), "it fails only if the helper cannot be created");
	V_CHECK(ncreate == (other ? 1 : 0) && njoin == (other && created_ok ? 1 : 0), "a helper is used exactly when the file belongs to another thread, and joined");
}
static int kf_fd, kf_flag, kf_model, nclosed, closedfd; static const char *kf_path; static int v_close(int fd) { nclosed++; closedfd = fd; return 0; }
FILE_HANDLE kfopen(const char *path, fileModel model, int flag) { kf_path = path; kf_model = model; kf_flag = flag; return kf_fd; }
void H_pos(void) {
	base(); long long d = V_IN(long long, -(1LL << 60), 1LL << 60); int how = V_IN(int, 0, 2); int r = kfiber_file_seek(&F, how == 0 ? seekBegin : how == 1 ? seekCur : seekEnd, d);
	V_CHECK(how == 2 ? r == -1 && F.st.offset == o0 : r == 0 && F.st.offset == (how == 0 ? d : o0 + d), "seeking sets the position or changes nothing"); V_CHECK(kfiber_file_tell(&F) == F.st.offset, "tell reports the position");
	kf_fd = V_IN(int, -1, 9999); bool sel = V_BOOL(); if (!sel) v_tls = NULL; nclosed = 0; opened = NULL; int fl = V_IN(int, 0, 255), m = V_IN(int, 0, 5);
	kfiber_file *f = kfiber_file_open(data_, (fileModel)m, fl); V_REACH("opened");
	V_CHECK(kf_path == data_ && kf_model == m && (kf_flag & ~KFILE_ASYNC) == (fl & ~KFILE_ASYNC), "the file asked for is opened");
	V_CHECK((f != NULL) == (kf_fd >= 0 && sel) && nclosed == (kf_fd >= 0 && !sel ? 1 : 0), "without a selector thread the handle is closed again");
	if (f) { V_REACH("file"); V_CHECK(f == opened && openfd == kf_fd && f->st.offset == 0 && !f->st.direct_io && (f->st.base.st_flags & STF_AIO_FILE), "it starts at position 0 in plain mode");
		kfiber_file_close(f); V_CHECK(nclosed == 1 && closedfd == kf_fd && v_times_freed(f) == 1 && v_nfreed == 1, "closing closes the handle and frees the file once"); }
}
