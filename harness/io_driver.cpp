// Writes and reads files while the system calls misbehave according to a plan.
// The library objects are linked with --wrap, so that only their calls are affected; every call is recorded.
#include "common.h"
#include <cerrno>
#include <cstdarg>
#include <fcntl.h>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
using namespace vh;

struct Plan
{
    bool active = false, open = true, stat = true, close = true;
    std::set<long> cuts;
    long cap = 1 << 30, err = -1, eof = -1;
    int fd = -1;
    long pos = 0;
    std::string calls;
} P;

static void rec(const char* n, long off, long want, long ret)
{
    P.calls += std::string(P.calls.empty() ? "" : ";") + n + "," + std::to_string(off) + "," + std::to_string(want) + "," + std::to_string(ret);
}
static long transfer(long want)
{
    if (P.err == P.pos) return -1;
    if (P.eof == P.pos) return 0;
    long t = std::min(want, P.cap);
    auto it = P.cuts.upper_bound(P.pos);
    if (it != P.cuts.end()) t = std::min(t, *it - P.pos);
    if (P.err > P.pos) t = std::min(t, P.err - P.pos);
    if (P.eof > P.pos) t = std::min(t, P.eof - P.pos);
    return t;
}

extern "C"
{
    int __real_open(const char*, int, ...);
    int __real_close(int);
    ssize_t __real_read(int, void*, size_t);
    ssize_t __real_write(int, const void*, size_t);
    int __real_fstat(int, struct stat*);

    int __wrap_open(const char* path, int flags, ...)
    {
        va_list a; va_start(a, flags); int mode = (flags & O_CREAT) ? va_arg(a, int) : 0; va_end(a);
        if (!P.active) return __real_open(path, flags, mode);
        if (!P.open) { rec("open", 0, 0, -1); errno = EACCES; return -1; }
        P.fd = __real_open(path, flags, mode);
        P.pos = 0;
        rec("open", 0, 0, P.fd);
        return P.fd;
    }
    int __wrap_open64(const char* path, int flags, ...)
    {
        va_list a; va_start(a, flags); int mode = (flags & O_CREAT) ? va_arg(a, int) : 0; va_end(a);
        return __wrap_open(path, flags, mode);
    }
    int __wrap_close(int fd)
    {
        if (!P.active) return __real_close(fd);
        int r = __real_close(fd);
        if (fd == P.fd && !P.close) { r = -1; errno = EIO; }
        rec("close", 0, 0, r);
        return r;
    }
    ssize_t __wrap_read(int fd, void* b, size_t n)
    {
        if (!P.active) return __real_read(fd, b, n);
        long off = P.pos;
        ssize_t r = transfer((long)n);
        if (r > 0) { r = __real_read(fd, b, (size_t)r); if (r > 0) P.pos += r; }
        else if (r < 0) errno = EIO;
        rec("read", off, (long)n, r);
        return r;
    }
    ssize_t __wrap_write(int fd, const void* b, size_t n)
    {
        if (!P.active) return __real_write(fd, b, n);
        long off = P.pos;
        if (n == 0) return 0;
        ssize_t r = transfer((long)n);
        if (r > 0) { r = __real_write(fd, b, (size_t)r); if (r > 0) P.pos += r; }
        else if (r < 0) errno = ENOSPC;
        rec("write", off, (long)n, r);
        return r;
    }
    int __wrap_fstat(int fd, struct stat* s)
    {
        if (!P.active) return __real_fstat(fd, s);
        if (!P.stat) { rec("stat", 0, 0, -1); errno = EIO; return -1; }
        int r = __real_fstat(fd, s);
        rec("stat", 0, 0, r);
        return r;
    }
    int __wrap_fstat64(int fd, struct stat* s) { return __wrap_fstat(fd, s); }
}

static int openFds()
{
    int n = 0;
    for (int f = 0; f < 160; f++) n += fcntl(f, F_GETFD) != -1;     // a descriptor left open is the lowest that was free
    return n;
}
// A thread of the sanitizer opens files for moments, so that only what stays open counts.
static bool leftOpen(int before)
{
    for (int k = 0; k < 100; k++) { if (openFds() <= before) return false; usleep(2000); }
    return true;
}
static std::string slurp(const std::string& path)
{
    std::string r;
    FILE* f = fopen(path.c_str(), "rb");
    if (!f) return "";
    char b[4096]; size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
    fclose(f);
    return r;
}
static void spit(const std::string& path, const std::string& s)
{
    FILE* f = fopen(path.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f);
}
// plan: open,stat,close,cap,err,eof,cut:cut:...
static void setPlan(const std::string& s)
{
    auto f = split(s, ',');
    P = Plan();
    P.open = f[0] == "1"; P.stat = f[1] == "1"; P.close = f[2] == "1";
    P.cap = std::stol(f[3]); P.err = std::stol(f[4]); P.eof = std::stol(f[5]);
    if (!f[6].empty()) for (auto& c : split(f[6], ':')) P.cuts.insert(std::stol(c));
}

int main(int argc, char** argv)
{
    std::string path = std::string(argc > 1 ? argv[1] : ".") + "/f";
    serve([&](const std::string& line) -> std::string {
        auto w = split(line);
        if (w[0] == "WF")   // WF plan hexdoc oldcontent|- : write over old contents
        {
            Json::StructuredData d;
            if (w[2] != "-") { Buffer b(unhex(w[2]) + std::string(1, '\0')); if (d.Parse(b.a).status != Json::Status::kOk) return "reject"; }
            unlink(path.c_str());
            if (w[3] != "-") spit(path, unhex(w[3]));
            std::string before = dump(d.GetRootJsonValue());
            setPlan(w[1]);
            int fds = openFds();
            P.active = true;
            Json::Status s = d.Write(path.c_str());
            P.active = false;
            bool leak = leftOpen(fds);
            bool there = access(path.c_str(), F_OK) == 0;
            return st(s) + " " + (there ? "x" + hex(slurp(path)) : "-") + " " + (leak ? "leak" : "ok") + " " + (before == dump(d.GetRootJsonValue()) ? "same" : "changed") + " " + P.calls;
        }
        if (w[0] == "RF")   // RF plan hexcontent [size] : read a file (extended by a hole to size) into a document that holds the number 7
        {
            unlink(path.c_str());
            spit(path, unhex(w[2]));
            if (w.size() > 3 && truncate(path.c_str(), (off_t)std::stoll(w[3])) != 0) { unlink(path.c_str()); return "nohole"; }
            Json::StructuredData d;
            { Buffer b(std::string("7\0", 2)); d.Parse(b.a); }
            setPlan(w[1]);
            int fds = openFds();
            P.active = true;
            auto r = d.Parse(path.c_str());
            P.active = false;
            bool leak = leftOpen(fds);
            unlink(path.c_str());
            return parseReport(r) + " " + dump(d.GetRootJsonValue()) + " " + (leak ? "leak" : "ok") + " " + P.calls;
        }
        return "?";
    });
}
