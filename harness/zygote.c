/* A fork server around the real command line program and the public API.
 *
 * The parent links every object of the project, warms the parser up once and
 * then runs each request in a forked child:
 *
 *   request  : netstrings on stdin: mode, cwd, stdin, stdout, stderr,
 *              timeout in ms, rlimit of file size (-1: none), argc,
 *              argv[0] .. argv[argc-1]
 *   response : one line "exit <code> sig <n> timeout <0|1> us <n>"
 *
 * mode "cli" calls the program's own main; mode "api" calls api_main.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <grp.h>
#include <sys/ioctl.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "fql.h"

/* bytes of a file, more than any case writes */
#define MOST (64L << 20)

__attribute__((weak)) void __lsan_disable(void);
__attribute__((weak)) void __lsan_enable(void);

/* runs before the leak check, which does not return */
static void flush_all(void) { fflush(NULL); }

int fql_main(int argc, char** argv);
int api_main(int argc, char** argv);

static char* netstr(FILE* in)
{
	size_t n = 0;
	int c;
	int digits = 0;
	while ((c = fgetc(in)) != ':') {
		if (c == EOF || c < '0' || c > '9') {
			if (c == EOF && digits == 0) {
				exit(0);
			}
			exit(98);
		}
		n = n * 10 + (c - '0');
		++digits;
	}
	char* s = malloc(n + 1);
	if (fread(s, 1, n, in) != n || fgetc(in) != ',') {
		exit(98);
	}
	s[n] = 0;
	return s;
}

static long netint(FILE* in)
{
	char* s = netstr(in);
	long n = atol(s);
	free(s);
	return n;
}

static long now_us(void)
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec * 1000000L + t.tv_nsec / 1000;
}

static void chld(int s) { (void)s; }

/* Teach the parser's caches the grammar before anything is forked.  Nothing
 * is executed: plans are made and thrown away. */
static void warm_up(void)
{
	static const char* q[] = {
		"select 1",
		"select 'a' x, 2*3-4/5%6, cast('1' as int), len('a'), left('a',1),"
		" right('a',1), substring('a',1,1), replace('a','b','c'),"
		" isnull(null,1), case when 1=1 then 2 else 3 end, -1, ~1, 1.5"
		" where 1=1 and 2<>3 or not 'a' like 'b' and 1 in (1,2) and 'a' is null",
		"declare @i int = 0; set @i += 1; while @i < 3 begin set @i = @i + 1 end",
		"if 1=1 select 1 else select 2",
		"select top 1 x.a b, count(*), sum(a+0), min(a), max(a), avg(a+0)"
		" from (select 1 a) x group by x.a having count(*) > 0"
		" order by 1 desc, x.a union all select 1,2,3,4,5,6",
		"select distinct a from (select 1 a union all select 2) x where a in"
		" (select 1) and a = (select top 1 1)",
		"select * from nosuch a join nosuch2 b on a.x = b.y left join c on 1=1"
		" where a.[x y] like '%'",
		"delete t from nosuch t where a = 1",
		"update t set a = 1, b = 'x' from nosuch t where a = 1",
		"select a into [nosuch/out] from nosuch",
	};
	int e = dup(2);
	int o = dup(1);
	int nul = open("/dev/null", O_RDWR);
	dup2(nul, 2);
	dup2(nul, 1);
	if (__lsan_disable) {
		__lsan_disable();
	}
	for (unsigned i = 0; i < sizeof(q) / sizeof(*q); ++i) {
		struct fqlhandle* h = fql_new();
		fql_make_plans(h, q[i]);
		fql_free(h);
	}
	if (__lsan_enable) {
		__lsan_enable();
	}
	fflush(stdout);
	dup2(e, 2);
	dup2(o, 1);
	close(e);
	close(o);
	close(nul);
}

void interrupt_arm(int sig, long n);

int main(void)
{
	/* The code under test deletes and overwrites files by design.  It runs
	 * as a user that owns nothing but the scratch directory of its case. */
	if (getuid() == 0 && getenv("ZYGOTE_UID")) {
		int id = atoi(getenv("ZYGOTE_UID"));
		if (setgroups(0, NULL) || setgid(id) || setuid(id)) {
			exit(95);
		}
		prctl(PR_SET_DUMPABLE, 1);
	}
	setvbuf(stdin, NULL, _IONBF, 0);
	int ctl = dup(0);
	int rep = dup(1);
	fcntl(ctl, F_SETFD, FD_CLOEXEC);
	FILE* in = fdopen(ctl, "r");
	FILE* out = fdopen(rep, "w");
	signal(SIGCHLD, chld);
	signal(SIGPIPE, SIG_IGN);
	if (!getenv("ZYGOTE_COLD")) {
		warm_up();
	}
	fprintf(out, "ready\n");
	fflush(out);
	for (;;) {
		char* mode = netstr(in);
		char* cwd = netstr(in);
		char* fin = netstr(in);
		char* fout = netstr(in);
		char* ferr = netstr(in);
		long timeout = netint(in);
		long fsize = netint(in);
		int argc = netint(in);
		char** argv = calloc(argc + 1, sizeof(char*));
		for (int i = 0; i < argc; ++i) {
			argv[i] = netstr(in);
		}
		long t0 = now_us();
		sigset_t block, old;
		sigemptyset(&block);
		sigaddset(&block, SIGCHLD);
		sigprocmask(SIG_BLOCK, &block, &old);
		pid_t pid = fork();
		if (pid == 0) {
			sigprocmask(SIG_SETMASK, &old, NULL);
			signal(SIGCHLD, SIG_DFL);
			signal(SIGPIPE, SIG_DFL);
			bool tty = strncmp(fin, "/dev/pts/", 9) == 0;
			if (tty) {
				setsid();
			} else {
				setpgid(0, 0);
			}
			if (chdir(cwd)) {
				_exit(97);
			}
			int i = open(fin, tty ? O_RDWR | O_NOCTTY : O_RDONLY);
			if (tty && ioctl(i, TIOCSCTTY, 0)) {
				_exit(96);
			}
			int o = open(fout, O_WRONLY | O_CREAT | O_TRUNC, 0644);
			int e = open(ferr, O_WRONLY | O_CREAT | O_TRUNC, 0644);
			if (i < 0 || o < 0 || e < 0) {
				_exit(97);
			}
			dup2(i, 0);
			dup2(o, 1);
			dup2(e, 2);
			close(i);
			close(o);
			close(e);
			close(ctl);
			close(rep);
			if (fsize >= 0) {
				struct rlimit rl = {fsize, fsize};
				signal(SIGXFSZ, SIG_IGN);
				setrlimit(RLIMIT_FSIZE, &rl);
			} else {
				/* output without end is a crash (SIGXFSZ) */
				struct rlimit rl = {MOST, MOST};
				setrlimit(RLIMIT_FSIZE, &rl);
			}
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__) \
	&& !defined(__clang__)
			/* and so is memory without end */
			struct rlimit most = {3L << 30, 3L << 30};
			setrlimit(RLIMIT_DATA, &most);
#endif
			/* stdin was read above: start clean */
			clearerr(stdin);
			setvbuf(stdin, NULL, _IOFBF, BUFSIZ);
			atexit(flush_all);
			/* "k15,7:cli": SIGTERM at the 7th point */
			int sig;
			long nth;
			if (sscanf(mode, "k%d,%ld:", &sig, &nth) == 2) {
				mode = strchr(mode, ':') + 1;
				interrupt_arm(sig, nth);
			}
			if (*mode == 'a') {
				exit(api_main(argc, argv));
			}
			exit(fql_main(argc, argv));
		}
		if (pid < 0) {
			fprintf(out, "fork failed\n");
			fflush(out);
			continue;
		}
		int timed_out = 0;
		int st = 0;
		for (;;) {
			pid_t w = waitpid(pid, &st, WNOHANG);
			if (w == pid) {
				break;
			}
			long left = timeout * 1000 - (now_us() - t0);
			if (left <= 0) {
				timed_out = 1;
				kill(-pid, SIGKILL);
				kill(pid, SIGKILL);
				waitpid(pid, &st, 0);
				break;
			}
			struct timespec ts = {left / 1000000, (left % 1000000) * 1000};
			sigtimedwait(&block, NULL, &ts);
		}
		sigprocmask(SIG_SETMASK, &old, NULL);
		fprintf(out, "exit %d sig %d timeout %d us %ld\n",
		        WIFEXITED(st) ? WEXITSTATUS(st) : -1,
		        WIFSIGNALED(st) ? WTERMSIG(st) : 0,
		        timed_out, now_us() - t0);
		fflush(out);
		free(mode); free(cwd); free(fin); free(fout); free(ferr);
		for (int i = 0; i < argc; ++i) {
			free(argv[i]);
		}
		free(argv);
	}
}
