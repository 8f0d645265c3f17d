/* Monitors the list of temporary files: whatever order files are registered,
 * dropped from the list or removed in, an exit by signal or by cleaning up
 * removes exactly the ones still registered. */
#include "mon.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include "fqlsig.h"

static void touch(const char* f)
{
	int fd = open(f, O_CREAT | O_WRONLY, 0600);
	if (fd < 0) {
		perror(f);
		_exit(99);
	}
	close(fd);
}

static char called[300];

/* what was there for SIGINT: told that it must not end the process */
static void others(int sig)
{
	if (sig == -1) {
		touch(called);
	}
}

static void round_(void)
{
	char dir[] = "sig-XXXXXX";
	if (!mkdtemp(dir)) {
		perror("mkdtemp");
		exit(99);
	}
	unsigned n = rnd(9);
	char name[9][64];
	bool gone[9] = {0}; /* registered or removed: not there afterwards */
	static const int sigs[] = {SIGINT, SIGTERM, SIGHUP, SIGQUIT};
	unsigned how = rnd(6);
	unsigned fate[9], order[9];
	char desc[100] = "";
	for (unsigned i = 0; i < n; ++i) {
		sprintf(name[i], "%s/f%u.tmp", dir, i);
		touch(name[i]);
		fate[i] = rnd(6);
		/* 0 never registered 1,4 left registered 2 node dropped
		 * 3 node and file removed 5 left registered, and removed
		 * by someone else */
		gone[i] = fate[i] == 1 || fate[i] >= 3;
		order[i] = i;
		sprintf(desc + strlen(desc), "%u", fate[i]);
	}
	for (unsigned i = n; i > 1; --i) {
		unsigned j = rnd(i), t = order[i - 1];
		order[i - 1] = order[j];
		order[j] = t;
	}
	strcat(desc, " in order ");
	for (unsigned i = 0; i < n; ++i) {
		sprintf(desc + strlen(desc), "%u", order[i]);
	}
	unsigned before = rnd(3);
	sprintf(called, "%s/called", dir);
	trace("files %s, end %u, SIGINT was %u", desc, how, before);
	fflush(stdout);
	pid_t pid = fork();
	if (pid == 0) {
		node* reg[9] = {NULL};
		/* as whoever started it left SIGINT, or libcsv's handler */
		signal(SIGINT, before == 0   ? SIG_DFL
		               : before == 1 ? SIG_IGN
		                             : others);
		fqlsig_init_sig();
		for (unsigned i = 0; i < n; ++i) {
			if (fate[i]) {
				char* tmp = strdup(name[i]);
				reg[i] = fqlsig_tmp_push(tmp);
				memset(tmp, 'x', strlen(tmp));
				free(tmp);
				if (reg[i] == NULL) {
					_exit(98);
				}
			}
		}
		for (unsigned k = 0; k < n; ++k) {
			unsigned i = order[k];
			if (fate[i] == 2) {
				fqlsig_tmp_remove_node(reg[i]);
			} else if (fate[i] == 3) {
				fqlsig_tmp_remove_node_and_file(reg[i]);
			} else if (fate[i] == 5) {
				unlink(name[i]);
			}
		}
		switch (how) {
		case 4:
			fqlsig_cleanexit();
			_exit(97);
		case 5:
			fqlsig_tmp_removeall();
			exit(0);
		default:
			raise(sigs[how]);
			_exit(96);
		}
	}
	int st = 0;
	waitpid(pid, &st, 0);
	expect(WIFEXITED(st), "died", "by signal %d", WTERMSIG(st));
	expect(WEXITSTATUS(st) == (how == 5 ? 0 : 1), "status", "%d",
	       WEXITSTATUS(st));
	if (before == 2 && how != 5) {
		expect(unlink(called) == 0, "other handler", "not called, or not with -1");
	}
	for (unsigned i = 0; i < n; ++i) {
		bool there = access(name[i], F_OK) == 0;
		expect(there == !gone[i], there ? "left" : "removed",
		       "file %u of fate %u", i, fate[i]);
		if (there) {
			unlink(name[i]);
		}
		seen(gone[i] ? "files_removed" : "files_kept");
	}
	rmdir(dir);
	seen(how < 4 ? "signals" : "exits");
}

MON_MAIN(round_())
