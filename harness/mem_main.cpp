// Serves histories of operations on one document object, one of which runs out of memory:
// "<number of the failing operation> <op>|<op>|..." with operations as in doc_main.cpp, and D:<type>:<data> for
// deserialising into an object that holds data.  The history is run once with all the memory it needs, and once for each
// request for memory in the failing operation with that request refused.  Answer: runs separated by ';', each
// "<op outcome>|...#<heap events>", an outcome being "<status> <line> <column> <root> <extra>" and events 8*block+form.
#include "bind.h"
#include <memory>
#include <new>
#include <sys/stat.h>
namespace vh
{
const char* scratchFile;
std::map<int, Entry>& entries() { static std::map<int, Entry> m; return m; }
std::map<int, DocOps>& docOps() { static std::map<int, DocOps> m; return m; }
}
using namespace vh;

// Each block is preceded by its number (0 if it is none of the library's) and form.
struct Head { uint64_t id; uint64_t form; };
static bool recording = false, counting = false;
static uint64_t blocks = 0, requests = 0, refuse = 0;
static uint32_t events[1 << 20];
static size_t nevents = 0;
static void event(uint64_t id, unsigned form) { if (nevents < sizeof events / sizeof *events) events[nevents++] = (uint32_t)(id * 8 + form); }
static void* take(size_t n, unsigned form)
{
    uint64_t id = 0;
    if (counting)
    {
        requests++;
        if (requests == refuse) { event(0, 4); return nullptr; }
    }
    if (recording) id = ++blocks;
    Head* h = (Head*)malloc(sizeof(Head) + n);
    if (!h) abort();
    *h = { id, form };
    if (id) event(id, form);
    return h + 1;
}
static void give(void* p, unsigned form)
{
    if (!p) return;
    Head* h = (Head*)p - 1;
    if (h->id || h->form + 2 != form) event(h->id, form);
    free(h);
}
void* operator new(size_t n) { void* p = take(n, 0); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = take(n, 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n, 1); }
void operator delete(void* p) noexcept { give(p, 2); }
void operator delete[](void* p) noexcept { give(p, 3); }
void operator delete(void* p, size_t) noexcept { give(p, 2); }
void operator delete[](void* p, size_t) noexcept { give(p, 3); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p, 2); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give(p, 3); }

static bool failing = false;
static void watch(bool on) { counting = on && failing; }

int main(int argc, char** argv)
{
    std::string dir = argc > 1 ? argv[1] : ".";
    std::string f = dir + "/doc.json", in = dir + "/in.json", sub = dir + "/sub", missing = dir + "/none/in.json", badout = dir + "/none/out.json";
    mkdir(sub.c_str(), 0700);
    scratchFile = f.c_str();
    onWatch = watch;
    serve([&](const std::string& line) {
        auto first = split(line, ' ');
        size_t bad = strtoul(first[0].c_str(), nullptr, 10);
        std::vector<std::vector<std::string>> ops;
        for (auto& op : split(first[1], '|')) ops.push_back(split(op, ':'));
        std::string out;
        uint64_t all = 0;
        for (uint64_t k = 0; k <= all; k++)
        {
            nevents = 0;
            blocks = 0;
            std::string run;
            {
                std::unique_ptr<Json::StructuredData> sd = std::make_unique<Json::StructuredData>();
                for (size_t n = 0; n < ops.size(); n++)
                {
                    auto& a = ops[n];
                    std::string s, extra = "-";
                    std::string bytes = a.size() > 1 && a[0][0] == 'p' ? unhex(a[1]) : "";
                    std::unique_ptr<Buffer> b;
                    if (a[0] == "pb") b = std::make_unique<Buffer>(bytes);
                    if (a[0] == "pf") { std::ofstream o(in, std::ios::binary | std::ios::trunc); o.write(bytes.data(), (std::streamsize)bytes.size()); }
                    failing = n + 1 == bad;
                    requests = 0;
                    refuse = k;
                    Json::ParseResult pr;
                    Json::Status w = Json::Status::kOk;
                    bool isParse = true;
                    recording = true;
                    if (a[0] == "pb") { Watch x; pr = sd->Parse(b->a); }
                    else if (a[0] == "pf") { Watch x; pr = sd->Parse(in.c_str()); }
                    else if (a[0] == "missing") { Watch x; pr = sd->Parse(missing.c_str()); }
                    else if (a[0] == "directory") { Watch x; pr = sd->Parse(sub.c_str()); }
                    else
                    {
                        isParse = false;
                        if (a[0] == "s") w = docOps().at(atoi(a[1].c_str())).ser(*sd, a[2]);
                        else if (a[0] == "v") w = docOps().at(atoi(a[1].c_str())).val(*sd);
                        else if (a[0] == "d") w = docOps().at(atoi(a[1].c_str())).des(*sd, extra, nullptr);
                        else if (a[0] == "D") w = docOps().at(atoi(a[1].c_str())).des(*sd, extra, &a[2]);
                        else if (a[0] == "w") { ::unlink(scratchFile); Watch x; w = sd->Write(scratchFile, 0); }
                        else if (a[0] == "wx") { Watch x; w = sd->Write(badout.c_str()); }
                        else if (a[0] == "new") { recording = false; sd = std::make_unique<Json::StructuredData>(); }
                    }
                    recording = false;
                    if (failing && k == 0) all = requests;
                    failing = false;
                    s = isParse ? parseReport(pr) : st(w) + " 0 0";
                    if (a[0] == "w" && w == Json::Status::kOk) extra = "x" + hex(slurp(scratchFile));
                    run += s + " " + dump(const_cast<const Json::StructuredData&>(*sd).GetRootJsonValue()) + " " + extra + "|";
                }
            }
            run += "#";
            for (size_t e = 0; e < nevents; e++) run += std::to_string(events[e]) + ",";
            out += run + ";";
        }
        return out;
    });
}
