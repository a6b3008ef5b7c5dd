// File system steps of the program while iow::left >= 0: the program crashes before step number left
// (in the middle of it, if it writes).
#include <cstdlib>
#include <cstdio>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/uio.h>

namespace iow {
int left = -1;
int done = 0;
static void crash() {
    static const char m[] = "\nCRASHED AS TOLD\n";
    if (::syscall(1, 2, m, sizeof(m) - 1) < 0) {
    }
    _exit(77);
}
static bool regular(int fd) {
    struct stat s;
    return fstat(fd, &s) == 0 && S_ISREG(s.st_mode);
}
// true: this is the last step
static bool step() {
    if (left < 0)
        return false;
    done++;
    return left-- == 0;
}
} // namespace iow

#define NEXT(name) static auto next = (decltype(&name))dlsym(RTLD_NEXT, #name)

extern "C" {
ssize_t write(int fd, const void *b, size_t n) {
    NEXT(write);
    if (iow::left >= 0 && iow::regular(fd) && iow::step()) {
        if (next(fd, b, n / 2) < 0) {
        }
        iow::crash();
    }
    return next(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    NEXT(writev);
    if (iow::left >= 0 && iow::regular(fd) && iow::step()) {
        if (next(fd, v, 1) < 0) {
        }
        iow::crash();
    }
    return next(fd, v, n);
}
int rename(const char *a, const char *b) {
    NEXT(rename);
    if (iow::step())
        iow::crash();
    return next(a, b);
}
FILE *fopen64(const char *f, const char *m) {
    NEXT(fopen64);
    if (iow::step())
        iow::crash();
    return next(f, m);
}
FILE *fopen(const char *f, const char *m) {
    NEXT(fopen);
    if (iow::step())
        iow::crash();
    return next(f, m);
}
int fclose(FILE *f) {
    NEXT(fclose);
    if (iow::step())
        iow::crash();
    return next(f);
}
int unlink(const char *f) {
    NEXT(unlink);
    if (iow::step())
        iow::crash();
    return next(f);
}
int truncate(const char *f, off_t n) {
    NEXT(truncate);
    if (iow::step())
        iow::crash();
    return next(f, n);
}
}
