/* Stand-in for jasonKercher/libcsv; see csv.h. */
#define _GNU_SOURCE
#include "csv.h"
#include <errno.h>
#include <fcntl.h>
#include <libgen.h>
#include <pthread.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static __thread char _err[512];

void csv_perror(void)
{
	fprintf(stderr, "csv: %s\n", _err);
}

static int _paranoid(void)
{
	static int v = -1;
	if (v == -1) {
		const char* e = getenv("CSV_STANDIN_PARANOID");
		v = (e && *e == '1');
	}
	return v;
}

/** temp file list and signal handling **/
struct tmpnode {
	char* name;
	struct tmpnode* next;
};
static struct tmpnode* _tmps;
static pthread_mutex_t _tmps_lock = PTHREAD_MUTEX_INITIALIZER;

static void _cleanexit(int sig)
{
	struct tmpnode* t = _tmps;
	for (; t; t = t->next) {
		unlink(t->name);
	}
	if (sig != -1) {
		_exit(EXIT_FAILURE);
	}
}

__attribute__((constructor)) static void _init_sig(void)
{
	struct sigaction act;
	memset(&act, 0, sizeof(act));
	act.sa_handler = _cleanexit;
	sigaction(SIGINT, &act, NULL);
	sigaction(SIGQUIT, &act, NULL);
	sigaction(SIGTERM, &act, NULL);
	sigaction(SIGHUP, &act, NULL);
}

static struct tmpnode* _tmp_push(const char* name)
{
	struct tmpnode* t = malloc(sizeof(*t));
	t->name = strdup(name);
	pthread_mutex_lock(&_tmps_lock);
	t->next = _tmps;
	_tmps = t;
	pthread_mutex_unlock(&_tmps_lock);
	return t;
}

static void _tmp_forget(struct tmpnode* t)
{
	pthread_mutex_lock(&_tmps_lock);
	struct tmpnode** it = &_tmps;
	while (*it && *it != t) {
		it = &(*it)->next;
	}
	if (*it) {
		*it = t->next;
	}
	pthread_mutex_unlock(&_tmps_lock);
	free(t->name);
	free(t);
}

/** records **/
struct csv_record* csv_record_new(void)
{
	return calloc(1, sizeof(struct csv_record));
}

static void _rec_drop(struct csv_record* r)
{
	for (int i = 0; i < r->owned_n; ++i) {
		free(r->owned[i]);
	}
	r->owned_n = 0;
	r->size = 0;
}

static char* _rec_own(struct csv_record* r, size_t n)
{
	if (r->owned_n == r->owned_cap) {
		r->owned_cap = r->owned_cap ? r->owned_cap * 2 : 8;
		r->owned = realloc(r->owned, r->owned_cap * sizeof(char*));
	}
	char* p = malloc(n ? n : 1);
	r->owned[r->owned_n++] = p;
	return p;
}

void csv_record_free(struct csv_record* r)
{
	if (r == NULL) {
		return;
	}
	_rec_drop(r);
	free(r->owned);
	free(r->fields);
	free(r);
}

static void _rec_add(struct csv_record* r, const char* data, size_t len)
{
	if (r->size == r->cap) {
		r->cap = r->cap ? r->cap * 2 : 8;
		r->fields = realloc(r->fields, r->cap * sizeof(*r->fields));
	}
	if (_paranoid()) {
		char* p = _rec_own(r, len);
		memcpy(p, data, len);
		data = p;
	}
	r->fields[r->size].data = data;
	r->fields[r->size].len = len;
	++r->size;
}

/** reader **/
struct csv_reader* csv_reader_new(void)
{
	struct csv_reader* self = calloc(1, sizeof(*self));
	self->quotes = QUOTE_RFC4180;
	return self;
}

int csv_reader_close(struct csv_reader* self)
{
	free(self->buf);
	self->buf = NULL;
	self->len = 0;
	self->offset = 0;
	self->open = false;
	return CSV_GOOD;
}

void csv_reader_free(struct csv_reader* self)
{
	if (self == NULL) {
		return;
	}
	csv_reader_close(self);
	free(self->line);
	free(self);
}

static int _slurp(struct csv_reader* self, const char* name)
{
	csv_reader_close(self);
	int fd = open(name, O_RDONLY);
	struct stat sb;
	if (fd == -1 || fstat(fd, &sb) == -1) {
		snprintf(_err, sizeof(_err), "%s: %s", name, strerror(errno));
		if (fd != -1) {
			close(fd);
		}
		return CSV_FAIL;
	}
	if (S_ISDIR(sb.st_mode)) {
		snprintf(_err, sizeof(_err), "%s: is a directory", name);
		close(fd);
		return CSV_FAIL;
	}
	self->buf = malloc(sb.st_size ? sb.st_size : 1);
	size_t got = 0;
	while (got < (size_t)sb.st_size) {
		ssize_t n = read(fd, self->buf + got, sb.st_size - got);
		if (n <= 0) {
			break;
		}
		got += n;
	}
	close(fd);
	self->len = got;
	self->offset = 0;
	self->open = true;
	return CSV_GOOD;
}

int csv_reader_open(struct csv_reader* self, const char* name)
{
	return _slurp(self, name);
}

int csv_reader_open_mmap(struct csv_reader* self, const char* name)
{
	return _slurp(self, name);
}

int csv_reader_reset(struct csv_reader* self)
{
	self->offset = 0;
	return CSV_GOOD;
}

int csv_reader_seek(struct csv_reader* self, size_t off)
{
	if (!self->open || off > self->len) {
		snprintf(_err, sizeof(_err), "seek out of range");
		return CSV_FAIL;
	}
	self->offset = off;
	return CSV_GOOD;
}

size_t csv_reader_get_file_size(struct csv_reader* self)
{
	return self->len;
}

void csv_reader_set_delim(struct csv_reader* self, const char* delim)
{
	strncpy(self->delim, delim, sizeof(self->delim) - 1);
	self->delim_len = strlen(self->delim);
	self->delim_set = self->delim_len != 0;
}

const char* csv_reader_get_delim(struct csv_reader* self)
{
	return self->delim;
}

/* the most frequent of these in the first record; comma when none is there */
static void _find_delim(struct csv_reader* self, const char* s, size_t n)
{
	static const char cand[] = ",|\t;";
	unsigned best = 0;
	char c = ',';
	for (int i = 0; cand[i]; ++i) {
		unsigned count = 0;
		bool in_quote = false;
		for (size_t j = 0; j < n && (in_quote || s[j] != '\n'); ++j) {
			if (s[j] == '"' && self->quotes != QUOTE_NONE) {
				in_quote = !in_quote;
			}
			count += (!in_quote && s[j] == cand[i]);
		}
		if (count > best) {
			best = count;
			c = cand[i];
		}
	}
	char d[2] = {c, 0};
	csv_reader_set_delim(self, d);
}

static bool _at_delim(struct csv_reader* self, const char* s, const char* end)
{
	return self->delim_len && (size_t)(end - s) >= self->delim_len
	       && memcmp(s, self->delim, self->delim_len) == 0;
}

/* Parse one record from [s, end).  Returns the number of bytes consumed
 * including the line ending.  *open_quote is set when a quote is not closed.
 */
static size_t _parse(struct csv_reader* self,
                     struct csv_record* r,
                     const char* s,
                     const char* end,
                     size_t limit,
                     bool* open_quote)
{
	const char* p = s;
	*open_quote = false;
	r->size = 0;

	for (;;) {
		const char* begin = p;
		if (self->trim) {
			while (p < end && (*p == ' ' || *p == '\t')) {
				++p;
			}
			begin = p;
		}
		if (p < end && *p == '"' && self->quotes != QUOTE_NONE) {
			++p;
			size_t n = 0;
			char* out = _rec_own(r, end - p + 1);
			bool closed = false;
			while (p < end) {
				if (self->quotes == QUOTE_WEAK) {
					if (*p == '"'
					    && (p + 1 == end || p[1] == '\n'
					        || p[1] == '\r'
					        || _at_delim(self, p + 1, end))) {
						closed = true;
						++p;
						break;
					}
					out[n++] = *p++;
					continue;
				}
				if (*p == '"') {
					if (p + 1 < end && p[1] == '"') {
						out[n++] = '"';
						p += 2;
						continue;
					}
					closed = true;
					++p;
					break;
				}
				out[n++] = *p++;
			}
			if (!closed) {
				*open_quote = true;
			}
			/* anything up to the delimiter is kept as is */
			while (p < end && *p != '\n' && !_at_delim(self, p, end)) {
				if (*p == '\r' && (p + 1 == end || p[1] == '\n')) {
					break;
				}
				out[n++] = *p++;
			}
			if ((size_t)r->size < limit) {
				_rec_add(r, out, n);
			}
		} else {
			while (p < end && *p != '\n' && !_at_delim(self, p, end)) {
				++p;
			}
			const char* fend = p;
			if ((p == end || *p == '\n') && fend > begin
			    && fend[-1] == '\r') {
				--fend;
			}
			if (self->trim) {
				while (fend > begin
				       && (fend[-1] == ' ' || fend[-1] == '\t')) {
					--fend;
				}
			}
			if ((size_t)r->size < limit) {
				_rec_add(r, begin, fend - begin);
			}
		}
		if (_at_delim(self, p, end)) {
			p += self->delim_len;
			continue;
		}
		break;
	}

	/* line ending */
	const char* rend = p;
	if (p < end && *p == '\r') {
		++p;
	} else if (rend > s && rend[-1] == '\r' && (p == end || *p == '\n')) {
		--rend;
	}
	if (p < end && *p == '\n') {
		++p;
	}
	r->rec = s;
	r->reclen = rend - s;
	return p - s;
}

static int _get_stdin(struct csv_reader* self, struct csv_record* r, size_t limit)
{
	size_t len = 0;
	for (;;) {
		char* line = NULL;
		size_t cap = 0;
		ssize_t n = getline(&line, &cap, stdin);
		if (n <= 0) {
			free(line);
			if (len == 0) {
				return EOF;
			}
			break;
		}
		self->line = realloc(self->line, len + n + 1);
		memcpy(self->line + len, line, n);
		len += n;
		free(line);
		if (!self->delim_set) {
			_find_delim(self, self->line, len);
		}
		bool open = false;
		_rec_drop(r);
		_parse(self, r, self->line, self->line + len, limit, &open);
		if (!open) {
			break;
		}
	}
	/* the record owns its data: the line buffer is used again */
	_rec_drop(r);
	char* own = _rec_own(r, len);
	memcpy(own, self->line, len);
	bool open = false;
	_parse(self, r, own, own + len, limit, &open);
	self->offset += len;
	return CSV_GOOD;
}

int csv_get_record_to(struct csv_reader* self, struct csv_record* r, size_t limit)
{
	_rec_drop(r);
	if (!self->open) {
		return _get_stdin(self, r, limit);
	}
	if (self->offset >= self->len) {
		return EOF;
	}
	const char* s = self->buf + self->offset;
	const char* end = self->buf + self->len;
	if (!self->delim_set) {
		_find_delim(self, s, end - s);
	}
	bool open = false;
	self->offset += _parse(self, r, s, end, limit, &open);
	if (_paranoid()) {
		char* own = _rec_own(r, r->reclen);
		memcpy(own, r->rec, r->reclen);
		r->rec = own;
	}
	return CSV_GOOD;
}

int csv_get_record(struct csv_reader* self, struct csv_record* r)
{
	return csv_get_record_to(self, r, 0x7fffffff);
}

int csv_nparse(struct csv_reader* self, struct csv_record* r, const char* s, size_t n)
{
	bool open = false;
	_rec_drop(r);
	if (!self->delim_set) {
		_find_delim(self, s, n);
	}
	_parse(self, r, s, s + n, 0x7fffffff, &open);
	return CSV_GOOD;
}

/** writer **/
struct csv_writer* csv_writer_new(void)
{
	struct csv_writer* self = calloc(1, sizeof(*self));
	self->quotes = QUOTE_RFC4180;
	self->file = stdout;
	strcpy(self->delim, ",");
	strcpy(self->term, "\n");
	return self;
}

static void _discard_tmp(struct csv_writer* self)
{
	if (self->tmpnode) {
		unlink(self->tmpname);
		_tmp_forget(self->tmpnode);
		self->tmpnode = NULL;
	}
	free(self->tmpname);
	self->tmpname = NULL;
}

void csv_writer_free(struct csv_writer* self)
{
	if (self == NULL) {
		return;
	}
	if (self->file != NULL && self->file != stdout && self->file != stderr) {
		fclose(self->file);
	}
	_discard_tmp(self);
	free(self->filename);
	free(self);
}

bool csv_writer_isopen(struct csv_writer* self)
{
	return self->file != NULL && self->file != stdout;
}

int csv_writer_mktmp(struct csv_writer* self)
{
	char* cp = self->filename ? strdup(self->filename) : NULL;
	const char* dir = cp ? dirname(cp) : ".";
	_discard_tmp(self);
	self->tmpname = malloc(strlen(dir) + 16);
	sprintf(self->tmpname, "%s/csv_XXXXXX", dir);
	free(cp);
	int fd = mkstemp(self->tmpname);
	if (fd == -1) {
		snprintf(_err, sizeof(_err), "%s: %s", self->tmpname, strerror(errno));
		free(self->tmpname);
		self->tmpname = NULL;
		return CSV_FAIL;
	}
	self->file = fdopen(fd, "w");
	self->tmpnode = _tmp_push(self->tmpname);
	return CSV_GOOD;
}

int csv_writer_open(struct csv_writer* self, const char* filename)
{
	if (csv_writer_isopen(self)) {
		snprintf(_err, sizeof(_err), "writer already open");
		return CSV_FAIL;
	}
	free(self->filename);
	self->filename = strdup(filename);
	self->detached = false;
	return csv_writer_mktmp(self);
}

int csv_writer_close(struct csv_writer* self)
{
	if (self->file == stdout || self->file == NULL) {
		return CSV_GOOD;
	}
	int bad = ferror(self->file);
	bad |= fclose(self->file);
	self->file = NULL;
	if (self->detached) {
		self->detached = false;
		free(self->tmpname);
		self->tmpname = NULL;
		self->file = NULL;
		if (bad) {
			snprintf(_err, sizeof(_err), "write failed");
			csv_perror();
			return CSV_FAIL;
		}
		return CSV_GOOD;
	}
	if (bad || self->filename == NULL) {
		snprintf(_err, sizeof(_err), "write failed");
		csv_perror();
		_discard_tmp(self);
		return CSV_FAIL;
	}
	if (rename(self->tmpname, self->filename)) {
		perror(self->filename);
		_discard_tmp(self);
		return CSV_FAIL;
	}
	chmod(self->filename, 0666);
	_tmp_forget(self->tmpnode);
	self->tmpnode = NULL;
	free(self->tmpname);
	self->tmpname = NULL;
	return CSV_GOOD;
}

/* ownership of the temp file goes to the caller */
char* csv_writer_export_tmp(struct csv_writer* self)
{
	if (self->tmpname == NULL) {
		return NULL;
	}
	self->detached = true;
	if (self->tmpnode) {
		_tmp_forget(self->tmpnode);
		self->tmpnode = NULL;
	}
	return strdup(self->tmpname);
}

char* csv_writer_detach_filename(struct csv_writer* self)
{
	char* ret = self->filename;
	self->filename = NULL;
	self->detached = true;
	return ret;
}

FILE* csv_writer_get_file(struct csv_writer* self)
{
	return self->file;
}

void csv_writer_set_file(struct csv_writer* self, FILE* file)
{
	self->file = file;
}

void csv_writer_set_delim(struct csv_writer* self, const char* delim)
{
	strncpy(self->delim, delim, sizeof(self->delim) - 1);
}

void csv_writer_set_line_ending(struct csv_writer* self, const char* term)
{
	strncpy(self->term, term, sizeof(self->term) - 1);
}

struct csv_field csv_writer_get_delim_field(struct csv_writer* self)
{
	return (struct csv_field) {self->delim, strlen(self->delim)};
}

struct csv_field csv_writer_get_terminator_field(struct csv_writer* self)
{
	return (struct csv_field) {self->term, strlen(self->term)};
}

int csv_write_field(struct csv_writer* self, const struct csv_field* f)
{
	bool quote = false;
	size_t dl = strlen(self->delim);
	switch (self->quotes) {
	case QUOTE_ALL:
		quote = true;
		break;
	case QUOTE_NONE:
		break;
	default:
		for (unsigned i = 0; !quote && i < f->len; ++i) {
			quote = f->data[i] == '"' || f->data[i] == '\n'
			        || f->data[i] == '\r'
			        || (dl && f->len - i >= dl
			            && memcmp(&f->data[i], self->delim, dl) == 0);
		}
	}
	if (!quote) {
		if (f->len) {
			fwrite(f->data, 1, f->len, self->file);
		}
		return f->len;
	}
	int n = 2;
	fputc('"', self->file);
	for (unsigned i = 0; i < f->len; ++i) {
		if (f->data[i] == '"' && self->quotes != QUOTE_WEAK) {
			fputc('"', self->file);
			++n;
		}
		fputc(f->data[i], self->file);
		++n;
	}
	fputc('"', self->file);
	return n;
}
