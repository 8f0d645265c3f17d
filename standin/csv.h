/* Stand-in for jasonKercher/libcsv, which /repo needs but which is not
 * installed here.  Written from /repo's own uses of the API.  It is part of
 * the test environment, never of the code under test.
 *
 * Choices that matter for checking:
 *  - files are read into exact-size heap buffers instead of an mmap, so a
 *    sanitizer sees reads past the end;
 *  - with CSV_STANDIN_PARANOID=1 every record and every field handed out is
 *    its own exact-size heap block, so that a read past a *field* is seen.
 */
#ifndef CSV_STANDIN_H
#define CSV_STANDIN_H

#include <stdio.h>
#include <stddef.h>
#include <stdbool.h>
#include <unistd.h>
#include <sys/types.h>

#ifdef __cplusplus
extern "C" {
#endif

#define CSV_GOOD 0
#define CSV_RESET 1
#define CSV_FAIL -2

enum {
	QUOTE_ALL = 0,
	QUOTE_RFC4180,
	QUOTE_WEAK,
	QUOTE_NONE,
};

struct csv_field {
	const char* data;
	unsigned len;
};

struct csv_record {
	struct csv_field* fields;
	const char* rec;
	size_t reclen;
	int size;
	/* private */
	int cap;
	char** owned;
	int owned_n;
	int owned_cap;
};

struct csv_reader {
	int quotes;
	int trim;
	size_t offset;
	/* private */
	char delim[64];
	unsigned delim_len;
	bool delim_set;
	char* buf;
	size_t len;
	bool open;
	bool from_stdin;
	FILE* in;
	char* line;
	size_t line_cap;
};

struct csv_writer {
	int quotes;
	/* private */
	FILE* file;
	bool own_file;
	char* tmpname;
	char* filename;
	void* tmpnode;
	char delim[64];
	char term[32];
	bool detached;
};

struct csv_reader* csv_reader_new(void);
void csv_reader_free(struct csv_reader*);
int csv_reader_open(struct csv_reader*, const char*);
int csv_reader_open_mmap(struct csv_reader*, const char*);
int csv_reader_close(struct csv_reader*);
int csv_reader_reset(struct csv_reader*);
int csv_reader_seek(struct csv_reader*, size_t);
size_t csv_reader_get_file_size(struct csv_reader*);
void csv_reader_set_delim(struct csv_reader*, const char*);
const char* csv_reader_get_delim(struct csv_reader*);

struct csv_record* csv_record_new(void);
void csv_record_free(struct csv_record*);
int csv_get_record(struct csv_reader*, struct csv_record*);
int csv_get_record_to(struct csv_reader*, struct csv_record*, size_t limit);
int csv_nparse(struct csv_reader*, struct csv_record*, const char*, size_t);

struct csv_writer* csv_writer_new(void);
void csv_writer_free(struct csv_writer*);
int csv_writer_open(struct csv_writer*, const char*);
int csv_writer_close(struct csv_writer*);
bool csv_writer_isopen(struct csv_writer*);
int csv_writer_mktmp(struct csv_writer*);
char* csv_writer_export_tmp(struct csv_writer*);
char* csv_writer_detach_filename(struct csv_writer*);
FILE* csv_writer_get_file(struct csv_writer*);
void csv_writer_set_file(struct csv_writer*, FILE*);
void csv_writer_set_delim(struct csv_writer*, const char*);
void csv_writer_set_line_ending(struct csv_writer*, const char*);
struct csv_field csv_writer_get_delim_field(struct csv_writer*);
struct csv_field csv_writer_get_terminator_field(struct csv_writer*);
int csv_write_field(struct csv_writer*, const struct csv_field*);

void csv_perror(void);

#ifdef __cplusplus
}
#endif
#endif
