/* Linked into the MemorySanitizer build, whose runtime does not know that these
 * functions fill the structure. */
#define _GNU_SOURCE
#define _LARGEFILE64_SOURCE
#include <fcntl.h>
#include <string.h>
#include <sys/stat.h>
int stat64(const char *p, struct stat64 *b) { memset(b, 0, sizeof *b); return fstatat64(AT_FDCWD, p, b, 0); }
int lstat64(const char *p, struct stat64 *b) { memset(b, 0, sizeof *b); return fstatat64(AT_FDCWD, p, b, AT_SYMLINK_NOFOLLOW); }
int fstat64(int f, struct stat64 *b) { memset(b, 0, sizeof *b); return fstatat64(f, "", b, AT_EMPTY_PATH); }
