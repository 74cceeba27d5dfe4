// Parses, writes and re-reads documents on behalf of the checks. One command per line, one answer per line.
#include "common.h"
#include <fcntl.h>
#include <sys/stat.h>
using namespace vh;

static std::string scratch;

static std::string slurp(const std::string& path)
{
    std::string r;
    FILE* f = fopen(path.c_str(), "rb");
    if (!f) return "nofile";
    char b[4096]; size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
    fclose(f);
    return r;
}

int main(int argc, char** argv)
{
    if (argc > 1) scratch = argv[1];
    serve([&](const std::string& line) -> std::string {
        auto w = split(line);
        const std::string& c = w[0];
        if (c == "P")       // P <hex buffer>: parse a buffer
        {
            Buffer b(unhex(w[1]));
            Json::StructuredData d;
            auto r = d.Parse(b.a);
            return parseReport(r) + " " + dump(d.GetRootJsonValue());
        }
        if (c == "PP")      // PP <hex1> <hex2>: parse two buffers one after the other into one document
        {
            Json::StructuredData d;
            { Buffer b(unhex(w[1])); d.Parse(b.a); }
            Buffer b(unhex(w[2]));
            auto r = d.Parse(b.a);
            return parseReport(r) + " " + dump(d.GetRootJsonValue());
        }
        if (c == "M")       // M <status> <line> <col>: messages
        {
            Json::ParseResult r; r.status = stByName(w[1]); r.errorLine = std::stoi(w[2]); r.errorColumn = std::stoi(w[3]);
            TS::String<256> a = Json::StatusToString(r.status), b = Json::ParseResultToString(r);
            return hex(std::string((const char*)a)) + " " + hex(std::string((const char*)b));
        }
        if (c == "W")       // W <indent> <char code> <hex text>: parse, write, show the bytes written; then re-read, write again
        {
            Json::StructuredData d;
            Buffer b(unhex(w[3]));
            auto r = d.Parse(b.a);
            if (r.status != Json::Status::kOk) return "reject " + parseReport(r);
            std::string before = dump(d.GetRootJsonValue());
            std::string f1 = scratch + "/w1", f2 = scratch + "/w2";
            unlink(f1.c_str()); unlink(f2.c_str());
            Json::Status s1 = d.Write(f1.c_str(), (TS::uint32)std::stoul(w[1]), (char)std::stoi(w[2]));
            std::string t1 = slurp(f1);
            std::string after = dump(d.GetRootJsonValue());
            Json::StructuredData e;
            std::string rr = "-", again = "-", d2 = "-";
            if (s1 == Json::Status::kOk)
            {
                Buffer b2(t1 + std::string(1, '\0'));
                auto q = e.Parse(b2.a);
                rr = st(q.status);
                d2 = dump(e.GetRootJsonValue());
                if (q.status == Json::Status::kOk)
                {
                    Json::Status s2 = e.Write(f2.c_str(), (TS::uint32)std::stoul(w[1]), (char)std::stoi(w[2]));
                    again = s2 == Json::Status::kOk ? (slurp(f2) == t1 ? "same" : "differs") : st(s2);
                }
            }
            return st(s1) + " " + hex(t1) + " " + before + " " + after + " " + rr + " " + d2 + " " + again;
        }
        return "?";
    });
}
