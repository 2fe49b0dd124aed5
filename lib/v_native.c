/* Native driver for a harness: replays recorded choices, or searches for a failing choice sequence at random. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdint.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/mman.h>
#define MAXC 100000
void V_ENTRY(void);
struct shared { int n; char what[512]; long long v[MAXC]; };
static struct shared *sh;
static long long *rec; static int nrec, prec, mode; static uint64_t rs;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
void v_native_reject(const char *what) { if (mode == 0) fprintf(stderr, "REJECT %s\n", what); _exit(77); }
void v_native_fail(const char *l, const char *c) {
	if (mode) snprintf(sh->what, sizeof sh->what, "%s", l);
	fprintf(stderr, "CHECK FAILED: %s  [%s]\n", l, c); fflush(stderr); _exit(1);
}
long long v_native_in(long long lo, long long hi) {
	long long v;
	if (lo > hi) v_native_reject("empty range");
	if (mode == 0) {
		if (prec < nrec) v = rec[prec++]; else v = (lo <= 0 && hi >= 0) ? 0 : lo;
		if (v < lo || v > hi) v_native_reject("choice out of range");
		return v;
	}
	unsigned long long span = (unsigned long long)hi - (unsigned long long)lo;
	int k = rnd() % 8;
	if (span == ~0ULL) { int b = rnd() % 64; v = (long long)(rnd() >> b); if (rnd() & 1) v = -v; }
	else if (span < 16) v = lo + (long long)(rnd() % (span + 1));
	else if (k == 0) v = lo;
	else if (k == 1) v = hi;
	else if (k == 2) v = lo + (long long)(rnd() % 16);
	else if (k == 3) v = hi - (long long)(rnd() % 16);
	else if (k <= 5 && lo <= 0 && hi >= 16) v = (long long)(rnd() % 16);
	else v = lo + (long long)(rnd() % (span + 1));
	if (sh->n < MAXC) sh->v[sh->n++] = v;
	return v;
}
int main(int argc, char **argv) {
	sh = (struct shared *)mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (argc >= 3 && !strcmp(argv[1], "replay")) {
		FILE *f = fopen(argv[2], "r"); char line[256];
		rec = (long long *)malloc(sizeof(long long) * MAXC);
		while (f && fgets(line, sizeof line, f)) {
			if (line[0] == '#' || line[0] == '\n') continue;
			if (nrec < MAXC) rec[nrec++] = atoll(line);
		}
		alarm(10); V_ENTRY(); return 0;
	}
	if (argc >= 5 && !strcmp(argv[1], "search")) { /* search SEED COUNT OUT */
		uint64_t seed = strtoull(argv[2], 0, 10); long n = atol(argv[3]), ok = 0, rej = 0;
		for (long i = 0; i < n; i++) {
			sh->n = 0; sh->what[0] = 0;
			pid_t p = fork();
			if (p == 0) {
				mode = 1; rs = (seed * 1000003ULL + i + 1) * 0x9E3779B97F4A7C15ULL + 1;
				for (int k = 0; k < 10; k++) rnd();
				alarm(5);
				if (n > 1) { if (!freopen("/dev/null", "w", stdout) || !freopen("/dev/null", "w", stderr)) _exit(3); }
				V_ENTRY(); _exit(0);
			}
			int st; waitpid(p, &st, 0);
			int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
			if (rc == 0) ok++;
			else if (rc == 77) rej++;
			else {
				printf("FAIL rc=%d case=%ld ok=%ld rej=%ld %s\n", rc, i, ok, rej, sh->what);
				FILE *f = fopen(argv[4], "w");
				if (f) { for (int k = 0; k < sh->n; k++) fprintf(f, "%lld\n", sh->v[k]); fclose(f); }
				return 1;
			}
		}
		printf("OK ok=%ld rej=%ld\n", ok, rej); return 0;
	}
	return 2;
}
