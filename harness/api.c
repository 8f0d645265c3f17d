/* Drives the public API (fql.h) by a list of operations and prints what it
 * observed, unambiguously, one line per observation:
 *
 *   rc <op> <value>
 *   row <field> TAB <field> ...    i<int> f<hex float> s<escaped>; N<t>: null
 */
#include <fcntl.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "fql.h"

static void put_str(const char* s)
{
	for (; *s; ++s) {
		switch (*s) {
		case '\\': fputs("\\\\", stdout); break;
		case '\t': fputs("\\t", stdout); break;
		case '\n': fputs("\\n", stdout); break;
		case '\r': fputs("\\r", stdout); break;
		default: putchar(*s);
		}
	}
}

static void put_row(struct fql_field* f, int n)
{
	fputs("row ", stdout);
	for (int i = 0; i < n; ++i) {
		if (i) {
			putchar('\t');
		}
		char t = f[i].type == FQL_INT     ? 'i'
		         : f[i].type == FQL_FLOAT ? 'f'
		         : f[i].type == FQL_STRING ? 's' : '?';
		if (f[i].is_null) {
			printf("N%c", t);
			continue;
		}
		putchar(t);
		switch (f[i].type) {
		case FQL_INT: printf("%ld", f[i].data.i); break;
		case FQL_FLOAT: printf("%.17g", f[i].data.f); break;
		case FQL_STRING: put_str(f[i].data.s); break;
		default:;
		}
	}
	putchar('\n');
}

static void set(struct fqlhandle* h, char* kv)
{
	char* v = strchr(kv, '=');
	*v++ = 0;
	int n = atoi(v);
#define I(name) if (!strcmp(kv, #name)) { fql_set_##name(h, n); return; }
#define S(name) if (!strcmp(kv, #name)) { fql_set_##name(h, v); return; }
	I(verbose) I(parse_only) I(dry_run) I(overwrite) I(override_warnings)
	I(print_header) I(add_header) I(print_plan) I(threading) I(char_as_byte)
	I(force_cartesian) I(pipe_factor) I(strict_mode) I(loose_groups)
	I(stable) I(crlf_output) I(allow_stdin)
	S(in_delim) S(out_delim) S(record_terminator) S(schema_path) S(schema)
	if (!strcmp(kv, "in_std")) { printf("rc in_std %d\n", fql_set_in_std(h, v)); return; }
	if (!strcmp(kv, "out_std")) { printf("rc out_std %d\n", fql_set_out_std(h, v)); return; }
	printf("unknown option %s\n", kv);
	exit(96);
}

/* Step through the active plan; at most `max' rows. */
static int step(struct fqlhandle* h, long max)
{
	int n = fql_field_count(h);
	printf("rc fields %d\n", n);
	if (n < 0) {
		return n;
	}
	struct fql_field* f = NULL;
	int rc;
	while (max != 0 && (rc = fql_step(h, &f)) == 1) {
		put_row(f, n);
		if (max > 0) {
			--max;
		}
	}
	if (max == 0) {
		printf("rc stepping 1\n");
		return 1;
	}
	printf("rc stepped %d\n", rc);
	return rc;
}

static int open_fds(void)
{
	int n = 0;
	for (int i = 0; i < 1024; ++i) {
		n += (fcntl(i, F_GETFD) != -1);
	}
	return n;
}

int api_main(int argc, char** argv)
{
	struct fqlhandle* h = fql_new();
	for (int i = 1; i < argc; ++i) {
		char* op = argv[i];
		char* arg = strchr(op, ':');
		if (arg) {
			*arg++ = 0;
		}
		if (!strcmp(op, "set")) {
			set(h, arg);
		} else if (!strcmp(op, "import")) {
			printf("rc import %d\n", fql_import_variable(h, arg));
		} else if (!strcmp(op, "make")) {
			printf("rc make %d\n", fql_make_plans(h, arg));
		} else if (!strcmp(op, "exec")) {
			fflush(stdout);
			int rc = fql_exec(h, arg);
			fflush(stdout);
			printf("rc exec %d\n", rc);
		} else if (!strcmp(op, "execall")) {
			fflush(stdout);
			int rc = fql_exec_all_plans(h);
			fflush(stdout);
			printf("rc execall %d\n", rc);
		} else if (!strcmp(op, "execn")) {
			fflush(stdout);
			int rc = fql_exec_plans(h, atoi(arg));
			fflush(stdout);
			printf("rc execn %d\n", rc);
		} else if (!strcmp(op, "until")) {
			fflush(stdout);
			long rc = fql_exec_until_select(h);
			fflush(stdout);
			printf("rc until %ld\n", rc);
		} else if (!strcmp(op, "step")) {
			step(h, arg ? atol(arg) : -1);
		} else if (!strcmp(op, "stepall")) {
			/* everything that is planned: execute up to each select, then
			 * step through it */
			for (;;) {
				fflush(stdout);
				long rc = fql_exec_until_select(h);
				fflush(stdout);
				printf("rc until %ld\n", rc);
				if (rc < 0 || fql_get_operation_type(h) == FQL_NONE) {
					break;
				}
				if (step(h, -1) < 0) {
					break;
				}
			}
		} else if (!strcmp(op, "reset")) {
			printf("rc reset %d\n", fql_reset(h));
		} else if (!strcmp(op, "renew")) {
			fql_free(h);
			h = fql_new();
		} else if (!strcmp(op, "type")) {
			printf("rc type %d\n", fql_get_operation_type(h));
		} else if (!strcmp(op, "text")) {
			fputs("text ", stdout);
			put_str(fql_get_operation_text(h));
			putchar('\n');
		} else if (!strcmp(op, "mark")) {
			fputs("\n== mark\n", stdout);
		} else if (!strcmp(op, "fds")) {
			printf("rc fds %d\n", open_fds());
		} else if (!strcmp(op, "fields")) {
			printf("rc fields %d\n", fql_field_count(h));
		} else {
			printf("unknown op %s\n", op);
			return 96;
		}
		fflush(stdout);
	}
	fql_free(h);
	return 0;
}
