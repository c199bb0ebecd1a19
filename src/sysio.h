// Stand-ins for read, write, writev and fclose.  While a plan is armed, calls on files other than the
// standard ones ask it what happens; otherwise they go straight to the system.
#pragma once
#include <cerrno>
#include <cstdio>
#include <functional>
#include <string>
#include <cstdlib>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <dlfcn.h>
#include <unistd.h>
#include <vector>

namespace sysio {
struct Plan {
    // amount to transfer (<= n), or -errno
    std::function<long(int fd, size_t n)> on_write, on_read;
    std::function<int(int fd)> on_close;  // 0 or errno
    size_t writes = 0, reads = 0, closes = 0;
};
inline Plan* armed = nullptr;
struct Arm { explicit Arm(Plan& p) { armed = &p; } ~Arm() { armed = nullptr; } };
}  // namespace sysio

extern "C" {
ssize_t write(int fd, const void* b, size_t n) {
    auto* p = sysio::armed;
    if (!p || fd <= 2 || n == 0) return syscall(SYS_write, fd, b, n);
    p->writes++;
    const long k = p->on_write ? p->on_write(fd, n) : static_cast<long>(n);
    if (k < 0) { errno = static_cast<int>(-k); return -1; }
    return syscall(SYS_write, fd, b, static_cast<size_t>(k));
}
ssize_t writev(int fd, const struct iovec* v, int c) {
    auto* p = sysio::armed;
    if (!p || fd <= 2) return syscall(SYS_writev, fd, v, c);
    p->writes++;
    size_t n = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    long k = n && p->on_write ? p->on_write(fd, n) : static_cast<long>(n);
    if (k < 0) { errno = static_cast<int>(-k); return -1; }
    std::vector<struct iovec> w;
    size_t left = static_cast<size_t>(k);
    for (int i = 0; i < c && left; i++) { struct iovec x = v[i]; if (x.iov_len > left) x.iov_len = left; left -= x.iov_len; w.push_back(x); }
    return syscall(SYS_writev, fd, w.data(), static_cast<int>(w.size()));
}
ssize_t read(int fd, void* b, size_t n) {
    auto* p = sysio::armed;
    if (!p || fd <= 2 || n == 0) return syscall(SYS_read, fd, b, n);
    p->reads++;
    const long k = p->on_read ? p->on_read(fd, n) : static_cast<long>(n);
    if (k < 0) { errno = static_cast<int>(-k); return -1; }
    return syscall(SYS_read, fd, b, static_cast<size_t>(k));
}
int fclose(FILE* f) {
    static int (*real)(FILE*) = reinterpret_cast<int (*)(FILE*)>(dlsym(RTLD_NEXT, "fclose"));
    auto* p = sysio::armed;
    const int fd = fileno(f);
    const int r = real(f);
    if (!p || fd <= 2) return r;
    p->closes++;
    const int e = p->on_close ? p->on_close(fd) : 0;
    if (e) { errno = e; return EOF; }
    return r;
}
}

namespace sysio {
// A scratch directory of this process, removed at exit.  Workers use it through their own file names.
struct Scratch {
    std::string dir;
    pid_t owner = getpid();
    Scratch() { char t[] = "/tmp/mshio-mc-XXXXXX"; if (!mkdtemp(t)) abort(); dir = t; }
    ~Scratch() { if (getpid() == owner) { const std::string c = "rm -rf '" + dir + "'"; if (system(c.c_str())) {} } }
    std::string file(const std::string& n = "f.msh") const { return dir + "/" + std::to_string(getpid()) + "-" + n; }
};
}  // namespace sysio
