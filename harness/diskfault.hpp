// A disk that is full after a number of bytes: files below the scratch directory of the case cannot grow any further.
#pragma once
#include "harness.hpp"
#include <cerrno>
#include <sys/sendfile.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <vector>
#include <unistd.h>

static bool diskActive = false, diskLimited = false, diskFull = false, diskFreed = false;
static double diskLeft = 0;     // bytes left, may be symbolic: every write that may or may not fit is decided by the solver
static long diskWritten = 0;    // bytes written to scratch files

static bool scratchFile(int fd) {
    char link[64], name[4096];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, name, sizeof name - 1);
    static const std::string dir = tmpdir(); // first call comes from the case itself, see Disk
    return n > 0 && size_t(n) > dir.size() && dir.compare(0, dir.size(), name, dir.size()) == 0;
}
static ssize_t noSpace() {
    if (diskFreed) diskLimited = diskFull = false;
    errno = ENOSPC;
    return -1;
}
extern "C" ssize_t write(int fd, const void* p, size_t n) {
    if (!diskActive || !n || !scratchFile(fd)) return syscall(SYS_write, fd, p, n);
    if (diskFull) return noSpace();
    if (diskLimited) {
        if (decide(lt(diskLeft, double(n)))) { // the first half still fits, then nothing does
            diskFull = true;
            n /= 2;
            if (!n) return noSpace();
        } else
            diskLeft -= double(n);
    }
    ssize_t r = syscall(SYS_write, fd, p, n);
    if (r > 0) diskWritten += r;
    return r;
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int n) {
    if (!diskActive || !scratchFile(fd)) return syscall(SYS_writev, fd, v, n);
    ssize_t total = 0;
    for (int i = 0; i < n; i++) {
        if (!v[i].iov_len) continue;
        ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return total ? total : r;
        total += r;
        if (size_t(r) < v[i].iov_len) break;
    }
    return total;
}
// copies made inside the kernel take their bytes from the same disk
static ssize_t diskCopy(int out, int in, off_t* at, size_t n) {
    std::vector<char> b(n < 65536 ? n : 65536);
    ssize_t got = at ? pread(in, b.data(), b.size(), *at) : read(in, b.data(), b.size());
    if (got <= 0) return got;
    ssize_t r = write(out, b.data(), size_t(got));
    if (!at) lseek(in, r < 0 ? -got : r - got, SEEK_CUR);
    else if (r > 0) *at += r;
    return r;
}
extern "C" ssize_t sendfile(int out, int in, off_t* at, size_t n) noexcept {
    if (!diskActive || !scratchFile(out)) return syscall(SYS_sendfile, out, in, at, n);
    return diskCopy(out, in, at, n);
}
extern "C" ssize_t copy_file_range(int in, off_t* ai, int out, off_t* ao, size_t n, unsigned f) {
    if (!diskActive || ao || !scratchFile(out)) return syscall(SYS_copy_file_range, in, ai, out, ao, n, f);
    return diskCopy(out, in, ai, n);
}
// a program may ask how much room is left: less than a block counts as none
extern "C" int statvfs(const char* path, struct statvfs* v) noexcept {
    memset(v, 0, sizeof *v);
    v->f_bsize = v->f_frsize = 4096;
    v->f_blocks = v->f_files = v->f_ffree = v->f_favail = 1 << 28;
    v->f_bfree = v->f_bavail = !diskActive || !diskLimited || (!diskFull && !decide(lt(diskLeft, 4096.0))) ? 1 << 24 : 0;
    v->f_namemax = 255;
    return access(path, F_OK);
}
/// while it lives, scratch files can take `bytes` more bytes
struct Disk {
    Disk() { start(); }
    /// `freed`: somebody makes room right after the first write that failed
    explicit Disk(double bytes, bool freed = false) { start(); diskLimited = true; diskLeft = bytes; diskFreed = freed; }
    ~Disk() { diskActive = false; }
private:
    void start() { (void) scratchFile(0); diskLimited = diskFull = diskFreed = false; diskWritten = 0; diskActive = true; }
};
