// Serves programs of threads under a schedule:
// "<t:q,...|free:n> <hex of the shared buffer> <hex of a buffer>;<op>|<op>... <...>" - one "<buffer>;<ops>" per thread.
// A schedule entry t:q lets thread t enter its next operation, or go on with it, until it has passed q more points;
// t:0 lets it finish the operation.  Points are requests for memory, releases and system calls made by the library.
// The hand-over uses relaxed atomics only, so that the thread sanitizer sees no order between the threads.
// Answer: per thread "<op outcome>|...;", then the number of abandoned schedules.
#include "bind.h"
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <fcntl.h>
#include <memory>
#include <new>
#include <sched.h>
#include <sys/stat.h>
#include <thread>
namespace vh
{
const char* scratchFile;
std::map<int, Entry>& entries() { static std::map<int, Entry> m; return m; }
std::map<int, DocOps>& docOps() { static std::map<int, DocOps> m; return m; }
}
using namespace vh;

static std::vector<std::pair<int, int>> sched;
static std::atomic<size_t> now { 0 };
static std::atomic<bool> freely { false };
static std::atomic<int> ready { 0 };
static std::atomic<int> abandoned { 0 };
static thread_local int me = -1;
static thread_local bool inside = false;
static thread_local long count = 0, target = 0;

static long long ms() { return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
// waits for an entry of this thread; false if the schedule is over or was given up
static bool mine()
{
    size_t seen = now.load(std::memory_order_relaxed);
    long long since = 0;
    for (unsigned spins = 0;; spins++)
    {
        if (freely.load(std::memory_order_relaxed)) return false;
        size_t n = now.load(std::memory_order_relaxed);
        if (n >= sched.size()) return false;
        if (sched[n].first == me) return true;
        if (n != seen) { seen = n; since = 0; }
        if (spins % 64 == 63)
        {
            sched_yield();
            long long t = ms();
            if (!since) since = t;
            // the thread whose turn it is may be waiting for something that this one holds: every schedule is as good
            else if (t - since > 1500) { freely.store(true, std::memory_order_relaxed); abandoned.fetch_add(1, std::memory_order_relaxed); return false; }
        }
    }
}
static void next() { now.store(now.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed); }
static void segment()
{
    if (!mine()) { target = -1; return; }
    int q = sched[now.load(std::memory_order_relaxed)].second;
    target = q ? count + q : -1;
}
static void point()
{
    if (me < 0 || !inside) return;
    count++;
    if (count != target) return;
    inside = false;
    next();
    segment();
    inside = true;
}
static void enter(bool on)
{
    if (me < 0) return;
    if (on) { count = 0; segment(); inside = true; return; }
    inside = false;
    while (target != -1) { next(); count = target; segment(); }     // segments that the operation was too short for
    if (!freely.load(std::memory_order_relaxed) && now.load(std::memory_order_relaxed) < sched.size()) next();
}

void* operator new(size_t n) { point(); void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[](size_t n) { point(); void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void operator delete(void* p) noexcept { point(); free(p); }
void operator delete[](void* p) noexcept { point(); free(p); }
void operator delete(void* p, size_t) noexcept { point(); free(p); }
void operator delete[](void* p, size_t) noexcept { point(); free(p); }

extern "C"
{
    int __real_open(const char*, int, ...);
    int __real_close(int);
    ssize_t __real_read(int, void*, size_t);
    ssize_t __real_write(int, const void*, size_t);
    int __real_fstat(int, struct stat*);
    int __wrap_open(const char* path, int flags, ...)
    {
        va_list a; va_start(a, flags); int mode = (flags & O_CREAT) ? va_arg(a, int) : 0; va_end(a);
        point();
        return __real_open(path, flags, mode);
    }
    int __wrap_open64(const char* path, int flags, ...)
    {
        va_list a; va_start(a, flags); int mode = (flags & O_CREAT) ? va_arg(a, int) : 0; va_end(a);
        point();
        return __real_open(path, flags, mode);
    }
    int __wrap_close(int fd) { point(); return __real_close(fd); }
    ssize_t __wrap_read(int fd, void* b, size_t n) { point(); return __real_read(fd, b, n); }
    ssize_t __wrap_write(int fd, const void* b, size_t n) { point(); return __real_write(fd, b, n); }
    int __wrap_fstat(int fd, struct stat* s) { point(); return __real_fstat(fd, s); }
}

struct Worker
{
    Json::StructuredData sd;
    std::vector<std::vector<std::string>> ops;
    std::vector<std::unique_ptr<Buffer>> buffers;
    std::vector<std::string> files;
    std::string file, missing, out;
};

static std::string message(const Json::ParseResult& pr) { auto s = Json::ParseResultToString(pr); const char* c = s; return "m" + hex(std::string(c)); }

static void work(Worker& w, Json::StructuredData& shared, int id, int n)
{
    me = id;
    ready.fetch_add(1, std::memory_order_relaxed);
    while (ready.load(std::memory_order_relaxed) < n) sched_yield();
    for (size_t i = 0; i < w.ops.size(); i++)
    {
        auto& a = w.ops[i];
        std::string s, extra = "-";
        auto parsed = [&](const Json::ParseResult& pr) { s = parseReport(pr); };
        auto plain = [&](Json::Status x) { s = st(x) + " 0 0"; };
        if (a[0] == "pb") { Json::ParseResult pr; { Watch x; pr = w.sd.Parse(w.buffers[i]->a); } parsed(pr); extra = message(pr); }
        else if (a[0] == "pf") { Json::ParseResult pr; { Watch x; pr = w.sd.Parse(w.files[i].c_str()); } parsed(pr); extra = message(pr); }
        else if (a[0] == "missing") { Json::ParseResult pr; { Watch x; pr = w.sd.Parse(w.missing.c_str()); } parsed(pr); extra = message(pr); }
        else if (a[0] == "s") plain(docOps().at(atoi(a[1].c_str())).ser(w.sd, a[2]));
        else if (a[0] == "v") plain(docOps().at(atoi(a[1].c_str())).val(w.sd));
        else if (a[0] == "d") plain(docOps().at(atoi(a[1].c_str())).des(w.sd, extra, nullptr));
        else if (a[0] == "V") plain(docOps().at(atoi(a[1].c_str())).val(shared));
        else if (a[0] == "R") plain(docOps().at(atoi(a[1].c_str())).des(shared, extra, nullptr));
        else if (a[0] == "L") { { Watch x; extra = dump(const_cast<const Json::StructuredData&>(shared).GetRootJsonValue()); } s = "kOk 0 0"; }
        else if (a[0] == "w") { ::unlink(w.file.c_str()); Json::Status x; { Watch y; x = w.sd.Write(w.file.c_str(), 0); } plain(x); extra = "x" + hex(slurp(w.file.c_str())); }
        w.out += s + " " + dump(const_cast<const Json::StructuredData&>(w.sd).GetRootJsonValue()) + " " + extra + "|";
    }
    me = -1;
}

int main(int argc, char** argv)
{
    std::string dir = argc > 1 ? argv[1] : ".";
    scratchFile = "";
    onWatch = enter;
    docOps();
    statuses();
    serve([&](const std::string& line) {
        auto parts = split(line, ' ');
        int repeat = 1;
        bool freeRun = parts[0].compare(0, 5, "free:") == 0;
        if (freeRun) repeat = atoi(parts[0].c_str() + 5);
        std::string answer;
        for (int k = 0; k < repeat; k++)
        {
            sched.clear();
            if (!freeRun && !parts[0].empty())
                for (auto& e : split(parts[0], ',')) { auto x = split(e, ':'); sched.push_back({ atoi(x[0].c_str()) - 1, atoi(x[1].c_str()) }); }
            now = 0;
            freely = freeRun;
            ready = 0;
            abandoned = 0;
            Json::StructuredData shared;
            { Buffer b(unhex(parts[1])); shared.Parse(b.a); }
            std::vector<std::unique_ptr<Worker>> ws;
            for (size_t i = 2; i < parts.size(); i++)
            {
                auto w = std::make_unique<Worker>();
                auto p = split(parts[i], ';');
                { Buffer b(unhex(p[0])); w->sd.Parse(b.a); }
                w->file = dir + "/doc" + std::to_string(i) + ".json";
                w->missing = dir + "/none/in.json";
                for (auto& op : split(p[1], '|'))
                {
                    w->ops.push_back(split(op, ':'));
                    auto& a = w->ops.back();
                    w->buffers.push_back(a[0] == "pb" ? std::make_unique<Buffer>(unhex(a[1])) : nullptr);
                    w->files.push_back(dir + "/in" + std::to_string(i) + "_" + std::to_string(w->ops.size()) + ".json");
                    if (a[0] == "pf") { std::ofstream o(w->files.back(), std::ios::binary | std::ios::trunc); std::string c = unhex(a[1]); o.write(c.data(), (std::streamsize)c.size()); }
                }
                ws.push_back(std::move(w));
            }
            std::vector<std::thread> ts;
            for (size_t i = 0; i < ws.size(); i++) ts.emplace_back([&, i] { work(*ws[i], shared, (int)i, (int)ws.size()); });
            for (auto& t : ts) t.join();
            std::string out;
            for (auto& w : ws) out += w->out + ";";
            if (k && out != answer.substr(0, out.size())) return "runs differ: " + out + " and " + answer;
            answer = out + std::to_string(abandoned.load());
        }
        return answer;
    });
}
