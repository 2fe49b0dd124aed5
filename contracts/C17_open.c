/* Opening, seeking and sizing plain file handles, on the real kfile.c. */
//@assume open, lseek and fstat meet their specification
//@ob H_open kind=proof unwind=3 hunwind=18 fn=kfopen
//@ob H_seek kind=proof unwind=3 hunwind=18 fn=kfseek,kfsize
#include "v.h"
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
static int nopen, of, om, oret; static const char *op;
static int v_open(const char *p, int f, int m) { nopen++; op = p; of = f; om = m; oret = V_IN(int, -1, 9999); return oret; }
static long v_lseek(int fd, long off, int wh); static int v_fstat(int fd, struct stat *b);
#define open v_open
#define lseek64 v_lseek
#define lseek v_lseek
#define fstat v_fstat
#include "kfile.h"
#include "src/kfile.c"
static char path[2];
void H_open(void) {
	nopen = 0; int m = V_IN(int, 0, 5); int fl = V_IN(int, 0, 255); fileModel mm = m == 0 ? fileRead : m == 1 ? fileWrite : m == 2 ? fileAppend : m == 3 ? fileModify : m == 4 ? fileReadWrite : fileWriteRead;
	int r = kfopen(path, mm, fl); V_REACH("opened"); V_CHECK(nopen == 1 && r == oret && op == path && om == 0644, "the file is opened once and the handle returned");
	int acc = of & O_ACCMODE, opt = of & (O_CREAT | O_TRUNC | O_APPEND | O_EXCL);
	V_CHECK(acc == (m == 0 ? O_RDONLY : m < 4 ? O_WRONLY : O_RDWR), "with the access the mode promises");
	V_CHECK(opt == (m == 0 || m == 4 ? 0 : m == 1 || m == 5 ? O_CREAT | O_TRUNC : m == 2 ? O_CREAT | O_APPEND : O_CREAT), "created, truncated or appended to exactly as the mode promises");
	V_CHECK((of & O_CLOEXEC) && V_IMPLIES(fl & KFILE_NOFOLLOW, of & O_NOFOLLOW) && V_IMPLIES(!(fl & KFILE_NOFOLLOW), !(of & O_NOFOLLOW)) && V_IMPLIES(fl & KFILE_DSYNC, (of & O_DSYNC) == O_DSYNC), "not inherited, links and durability as asked");
}
static int sfd, nseek, nstat; static long soff, sres; static int swh; static long sz; static bool stok;
static long v_lseek(int fd, long off, int wh) { nseek++; sfd = fd; soff = off; swh = wh; sres = V_BOOL() ? -1 : 5; return sres; }
static int v_fstat(int fd, struct stat *b) { nstat++; sfd = fd; b->st_size = sz; return stok ? 0 : -1; }
void H_seek(void) {
	nseek = nstat = 0; int w = V_IN(int, 0, 2); long long d = V_I64(); int fd = V_IN(int, 0, 9999); bool r = kfseek(fd, d, w == 0 ? seekBegin : w == 1 ? seekEnd : seekCur); V_REACH("seeked");
	V_CHECK(nseek == 1 && sfd == fd && soff == d && swh == (w == 0 ? SEEK_SET : w == 1 ? SEEK_END : SEEK_CUR) && r == (sres != -1), "the position is set relative to what was asked");
	sz = V_I64(); stok = V_BOOL(); V_CHECK(kfsize(fd) == (stok ? sz : 0), "the size is the file's");
}
