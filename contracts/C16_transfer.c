/* Transfer helpers of fibers: one operation and the "until everything is done" loops, on the real kfiber.c / kfiber.h. */
//@assume an operation reports at most the size asked for (C22, C26); its result arrives through the callback it was given, at once or after the fiber has waited
//@assume region sizes below 2^28 bytes, segment counts below 2^28
//@ob H_write split="ONE:0,1" kind=proof unwind=4 hunwind=18 fn=kfiber_net_writev,kfiber_net_write,kfiber_wait_result,__kfiber_wait,kfiber_result_callback,kfiber_wakeup
//@ob H_read split="ONE:0,1" kind=proof unwind=4 hunwind=18 fn=kfiber_net_readv,kfiber_net_read
//@ob H_sendfile kind=proof unwind=4 hunwind=18 fn=kfiber_sendfile,kfiber_result_sendfile
//@ob S_writev_full defs=-DCUTV kind=proof unwind=3 hunwind=18 replayable=0 hook=writev_full,writev_full_skip fallback=H_writev_full fn=kfiber_net_writev_full
//@ob H_writev_full kind=bounded bound="<=3 segments" unwind=8 hunwind=18 tier=thorough fn=kfiber_net_writev_full
//@ob S_full split="W:0,1,2" defs=-DCUT kind=proof unwind=3 hunwind=18 replayable=0 hook=net_write_full fallback=H_full fn=kfiber_net_write_full,kfiber_net_read_full,kfiber_sendfile_full
//@ob H_full split="W:0,1,2" kind=bounded bound="<=3 operations" unwind=5 hunwind=18 tier=thorough fn=kfiber_net_write_full,kfiber_net_read_full,kfiber_sendfile_full
#ifndef ONE
#define ONE 0
#endif
#ifndef W
#define W 0
#endif
static int hd_len(const char **buf, int *len); static int hd_v(void *bufp, int *bc, unsigned long *total), hd_skip(void *bufp, int *bc, int *got);
static const char *nobuf;
#ifdef CUT
#define KGL_LOOP_CONTRACT_net_write_full if (hd_len(&buf, len)) break; else
#define KGL_LOOP_CONTRACT_net_read_full if (hd_len((const char **)&buf, len)) break; else
#define KGL_LOOP_CONTRACT_sendfile_full if (hd_len(&nobuf, len)) break; else
#endif
#ifdef CUTV
#define KGL_LOOP_CONTRACT_writev_full if (hd_v(&buf, bc, &total_length)) break; else
#define KGL_LOOP_CONTRACT_writev_full_skip if (hd_skip(&buf, bc, &got)) break; else
#endif
#include "fibc_common.h"
#define MAXN (1 << 28)
static kconnection CN; static kasync_file FILE_; static kgl_iovec SEG[5]; static char data_[2];
static int op; static bool pend; static result_callback pcb; static void *parg; static KOPAQUE pdata; static int pgot;
static char small[16], *B0; static bool track, e_stream; static int e_n, e_l[3], e_pos; static int nio, lastgot; static kgl_iovec *e_seg; static int e_bc; static long long e_max; static char *e_base; static long long e_len; static kgl_iovec *holder;
static void env_switch(kfiber *to) {
	V_CHECK(to == &MAIN && pend, "a fiber waits only for an operation it has started"); pend = false; SEL.current = &MAIN;
	if (pcb == kfiber_result_callback) kfiber_result_callback(pdata, parg, pgot); else { V_CHECK(pcb == kfiber_result_sendfile, "its own callback"); kfiber_result_sendfile(pdata, parg, pgot); }
}
static kev_result start_io(int o, kselectable *st, result_callback cb, kgl_iovec *b, void *arg) {
	V_CHECK(o == op && st == &CN.st && !pend, "one operation of the right kind on this connection"); nio++; holder = b;
	if (o < 2) { kgl_iovec *s = (kgl_iovec *)b->iov_base;
		if (e_stream) { int i = 0, p = e_pos; for (int k = 0; k < 3; k++) if (i == k && i < e_n && p >= e_l[i]) { p -= e_l[i]; i++; }
			V_CHECK(i < e_n && s == &SEG[i] && b->iov_len == (size_t)(e_n - i) && (char *)s->iov_base == (char *)B0 + 4 * i + p && (int)s->iov_len == e_l[i] - p, "with exactly the bytes that are left");
		} else if (e_seg) V_CHECK(s == e_seg && b->iov_len == (size_t)e_bc, "with exactly the segments that are left");
		else V_CHECK(b->iov_len == 1 && (char *)s->iov_base == e_base && (long long)s->iov_len == e_len, "with exactly the region that is left");
		V_CHECK(cb == kfiber_result_callback && arg == &SELF, "the result wakes this fiber");
	} else V_CHECK((void *)b->iov_base == (void *)&FILE_ && (long long)b->iov_len == e_len && arg == &FILE_ && FILE_.st.data == &SELF, "with the file and the length that is left");
	lastgot = V_INT(); V_ASSUME(lastgot >= -2 && lastgot <= e_max);
	if (lastgot > 0 && track) { e_base += lastgot; e_len -= lastgot; e_max = e_len; } if (lastgot > 0 && e_stream) { e_pos += lastgot; e_max -= lastgot; }
	if (track || e_stream || V_BOOL()) { if (cb == kfiber_result_callback) return kfiber_result_callback(st->data, arg, lastgot); return kfiber_result_sendfile(st->data, arg, lastgot); }
	pend = true; pcb = cb; parg = arg; pdata = st->data; if (o == 2) pdata = &FILE_; pgot = lastgot; return kev_ok;
}
kev_result selectable_write(kselectable *st, result_callback cb, kgl_iovec *b, void *arg) { return start_io(0, st, cb, b, arg); }
kev_result selectable_read(kselectable *st, result_callback cb, kgl_iovec *b, void *arg) { return start_io(1, st, cb, b, arg); }
static kev_result v_sendfile(kselectable *st, result_callback cb, kgl_iovec *b, void *arg) { return start_io(2, st, cb, b, arg); }
static void base(int o) {
	fibc_base(false); op = o; kconnection z = {0}; CN = z; kasync_file zf = {0}; FILE_ = zf; CN.st.base.selector = &SEL; CN.st.data = &data_[0]; FILE_.st.base.selector = &SEL;
	kgl_selector_module.sendfile = v_sendfile; nio = 0; pend = false; e_seg = NULL; e_base = NULL; e_max = 0; e_len = 0; track = e_stream = false;
}
#define CALM (SEL.current == &SELF && !pend && SELF.wait_notice_flag == 0)
void H_write(void) {
	base(0); bool one = ONE; int n = V_IN(int, 1, MAXN), bc = V_IN(int, 1, MAXN); e_max = one ? n : INT_MAX;
	if (one) { e_base = &data_[1]; e_len = n; V_CHECK(kfiber_net_write(&CN, &data_[1], n) == lastgot, "the result of the operation is returned"); }
	else { e_seg = SEG; e_bc = bc; V_CHECK(kfiber_net_writev(&CN, SEG, bc) == lastgot, "the result of the operation is returned"); }
	V_REACH("written"); V_CHECK(nio == 1 && CALM, "one operation");
}
void H_read(void) {
	base(1); bool one = ONE; int n = V_IN(int, 1, MAXN), bc = V_IN(int, 1, MAXN); e_max = one ? n : INT_MAX; kgl_iovec old; bool again = V_BOOL();
	if (again) { /* an earlier read timed out and is still pending, its caller and its buffer are gone */
		CN.st.base.st_flags = STF_READ | STF_RTIME_OUT; CN.st.e[OP_READ].result = kfiber_result_callback; CN.st.e[OP_READ].arg = &SELF; CN.st.e[OP_READ].buffer = &old;
		pend = true; pcb = kfiber_result_callback; parg = &SELF; pdata = CN.st.data; pgot = lastgot = V_INT();
	}
	int r;
	if (one) { e_base = &data_[1]; e_len = n; r = kfiber_net_read(&CN, &data_[1], n); } else { e_seg = SEG; e_bc = bc; r = kfiber_net_readv(&CN, SEG, bc); }
	V_REACH("read"); V_CHECK(r == lastgot && CALM, "the result of the operation is returned");
	if (again) { V_REACH("pending"); V_CHECK(nio == 0, "a pending read is not started twice"); V_CHECK(CN.st.e[OP_READ].buffer != &old, "a pending read fills the new caller's buffer, not the one that is gone"); }
	else V_CHECK(nio == 1, "one operation");
}
void H_sendfile(void) {
	base(2); int n = V_IN(int, 1, MAXN); e_len = e_max = n; long long o = V_IN(long long, 0, 1LL << 60); FILE_.st.offset = o;
	int r = kfiber_sendfile(&CN, &FILE_, n); V_REACH("sent"); V_CHECK(r == lastgot && nio == 1 && CALM, "the result of the operation is returned"); V_CHECK(FILE_.st.offset == o + (r > 0 ? r : 0), "the file position moves by what was sent");
}
/* whole-region loops */
static int N, heads, ilen; static long long O0;
static int hd_len(const char **buf, int *len) {
	if (++heads == 1) {
		V_CHECK(*len == N && (W == 2 || *buf == B0) && nio == 0, "before the first operation everything is left");
		*len = V_IN(int, 1, MAXN); V_ASSUME(*len <= N); *buf = B0 + (N - *len); FILE_.st.offset = O0 + (N - *len);
		ilen = *len; e_base = (char *)*buf; e_len = e_max = *len; return 0;
	}
	V_CHECK(heads == 2 && nio == 1 && lastgot > 0 && *len == ilen - lastgot && (W == 2 || *buf == B0 + (N - *len)) && FILE_.st.offset == (W == 2 ? O0 + (N - *len) : O0 + (N - ilen)), "after an operation exactly what is left remains, at its place");
	V_CHECK(*len < ilen, "every operation makes progress"); V_REACH("continues"); V_ASSUME(0); return 1;
}
static int LEFT;
void S_full(void) {
	base(W); N = V_IN(int, 0, MAXN); B0 = v_alloc(N); nobuf = B0; O0 = V_IN(long long, 0, 1LL << 60); FILE_.st.offset = O0; heads = 0; LEFT = N; int *len = &LEFT;
#if W == 0
	bool r = kfiber_net_write_full(&CN, B0, len);
#elif W == 1
	bool r = kfiber_net_read_full(&CN, B0, len);
#else
	bool r = kfiber_sendfile_full(&CN, &FILE_, len);
#endif
	if (heads == 0) { V_REACH("nothing to do"); V_CHECK(r && N == 0 && nio == 0, "an empty region needs no operation"); }
	else if (r) { V_REACH("complete"); V_CHECK(*len == 0 && lastgot == ilen, "success means everything was transferred"); }
	else { V_REACH("stopped"); V_CHECK(lastgot <= 0 && *len == ilen && nio == 1, "at an error or end of stream it stops and tells what is left"); }
}
void H_full(void) {
	base(W); LEFT = N = V_IN(int, 0, 3); B0 = small; e_base = B0; e_len = e_max = N; track = true; FILE_.st.offset = 100;
#if W == 0
	bool r = kfiber_net_write_full(&CN, B0, &LEFT);
#elif W == 1
	bool r = kfiber_net_read_full(&CN, B0, &LEFT);
#else
	bool r = kfiber_sendfile_full(&CN, &FILE_, &LEFT);
#endif
	V_REACH("returned"); V_CHECK(LEFT == e_len && r == (LEFT == 0) && V_IMPLIES(!r, lastgot <= 0) && V_IMPLIES(W == 2, FILE_.st.offset == 100 + N - LEFT), "it transfers until everything is done or an operation fails, and tells what is left");
}
/* scatter loop: segment at the head of the list {b,l}, what follows it sums up to T */
static long long T, R0, h_tot; static char *sb; static long long sl; static int sn, vheads, sheads, sgot; static kgl_iovec *cur; static bool skipping;
static void any_seg(kgl_iovec **buf, int *bc) {
	cur = SEG; *buf = cur; sb = (char *)(uintptr_t)0; sl = V_IN(long long, 0, MAXN); sb = B0; sn = V_IN(int, 1, MAXN); T = V_IN(long long, 0, MAXN); V_ASSUME(sn > 1 || T == 0);
	SEG[0].iov_base = sb; SEG[0].iov_len = sl; SEG[1].iov_base = sb; SEG[1].iov_len = 7; *bc = sn;
}
/* the list head after a step: either the same segment with k bytes gone or the next one */
static bool at_next(kgl_iovec *b, int bc) { return b == &SEG[1] && bc == sn - 1 && SEG[1].iov_base == sb && SEG[1].iov_len == 7; }
static int hd_v(void *bp, int *bc, unsigned long *total) {
	kgl_iovec **buf = (kgl_iovec **)bp;
	if (++vheads == 1) { V_CHECK(*total == 0 && nio == 0 && *buf == SEG, "starts at the first segment"); any_seg(buf, bc); *total = h_tot = V_IN(long long, 0, 1LL << 40); e_seg = SEG; e_bc = sn; e_max = sl + T; return 0; }
	if (!nio) { V_REACH("empty segment"); V_CHECK(sl == 0 && at_next(*buf, *bc) && *total == h_tot, "an empty segment is passed without an operation"); }
	else if (*buf == SEG) { V_REACH("partial"); V_CHECK(sheads == 1 && *bc == sn && SEG[0].iov_base == sb + sgot && (long long)SEG[0].iov_len == sl - sgot && SEG[0].iov_len > 0 && *total == h_tot + lastgot, "a partly written segment keeps exactly its unwritten rest"); }
	else { V_REACH("next"); V_CHECK(sheads == 1 && at_next(*buf, *bc) && sgot == sl && *total == h_tot + lastgot, "a written segment is passed, the following ones are untouched"); }
	V_ASSUME(0); return 1;
}
static int hd_skip(void *bp, int *bc, int *got) {
	kgl_iovec **buf = (kgl_iovec **)bp;
	if (++sheads == 1) { V_CHECK(nio == 1 && *got == lastgot && *buf == SEG && *bc == sn && *got <= sl + T, "skipping starts with what was written");
		any_seg(buf, bc); sgot = V_IN(int, 1, MAXN); V_ASSUME(sgot <= sl + T); *got = sgot; return 0; }
	V_REACH("skip on"); V_CHECK(sheads == 2 && at_next(*buf, *bc) && *got == sgot - sl && *got <= T && *bc >= 1, "a fully written segment is passed and its length accounted for"); V_ASSUME(0); return 1;
}
void S_writev_full(void) {
	base(0); N = V_IN(int, 0, MAXN); B0 = v_alloc(MAXN); int bc = N; vheads = sheads = 0;
	size_t r = kfiber_net_writev_full(&CN, SEG, &bc);
	if (vheads == 0) { V_REACH("no segments"); V_CHECK(r == 0 && N == 0 && bc == 0 && nio == 0, "no segments, nothing written"); return; }
	if (bc == 0) { V_REACH("complete"); V_CHECK(sn == 1 && T == 0, "the count reaches zero only behind the last segment");
		if (nio) V_CHECK(sheads == 1 && sgot == sl && r == (size_t)(h_tot + lastgot), "complete: all bytes are counted"); else V_CHECK(sl == 0 && r == (size_t)h_tot, "complete: all bytes are counted"); }
	else { V_REACH("stopped"); V_CHECK(nio == 1 && lastgot <= 0 && r == (size_t)h_tot && bc == sn && SEG[0].iov_base == sb && (long long)SEG[0].iov_len == sl, "at an error it reports what was written and leaves the rest as it is"); }
}
/* whole calls on three segments: what reaches the connection is the concatenation */
void H_writev_full(void) {
	base(0); B0 = small; int l[3], n = V_IN(int, 0, 3), bc = n, sum = 0; 
	for (int i = 0; i < 3; i++) { l[i] = V_IN(int, 0, 2); SEG[i].iov_base = B0 + 4 * i; SEG[i].iov_len = l[i]; if (i < n) sum += l[i]; }
	e_stream = true; e_n = n; e_l[0] = l[0]; e_l[1] = l[1]; e_l[2] = l[2]; e_max = sum; e_pos = 0;
	size_t r = kfiber_net_writev_full(&CN, SEG, &bc); V_REACH("returned");
	V_CHECK(r == (size_t)e_pos && (bc == 0) == (e_pos == sum && !(nio && lastgot <= 0)), "everything is written, or it stops at the failed operation"); 
}
