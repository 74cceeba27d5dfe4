// Number literals and doubles through the reader and the writer.
#include "common.h"
using namespace vh;

static std::string slurp(const std::string& path)
{
    std::string r;
    FILE* f = fopen(path.c_str(), "rb");
    if (!f) return "nofile";
    char b[4096]; size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
    fclose(f);
    return r;
}
static std::string bits(double d) { std::string o; putbits(o, d); return o; }

// reads a literal as a root, in an array, in an object, followed by various bytes; all must agree
static std::string readLiteral(const std::string& lit)
{
    const char* pre[] = { "", "[", "{\"a\":", " ", "[1,", "[\n" };
    const char* post[] = { "", "]", "}", "\n", ",2]", " ]" };
    std::string res;
    for (int k = 0; k < 6; k++)
    {
        Buffer b(pre[k] + lit + post[k] + std::string(1, '\0'));
        Json::StructuredData d;
        auto r = d.Parse(b.a);
        if (r.status != Json::Status::kOk) return "reject" + std::to_string(k) + st(r.status);
        const Json::Value* v = d.GetRootJsonValue();
        if (auto* o = v->AsJsonObjectValue()) { const double* x = o->FindNumber("a"); if (!x) return "nonumber"; std::string s = bits(*x); if (!res.empty() && s != res) return "differs" + std::to_string(k); res = s; continue; }
        if (auto* a = v->GetDataAsPointerTo<TS::Array<Json::Value*>>()) v = (*a)[k == 4 ? 1 : 0];
        const double* x = v->GetDataAsPointerTo<double>();
        if (!x) return "nonumber";
        std::string s = bits(*x);
        if (!res.empty() && s != res) return "differs" + std::to_string(k);
        res = s;
    }
    return res;
}

int main(int argc, char** argv)
{
    std::string scratch = argc > 1 ? argv[1] : ".";
    serve([&](const std::string& line) -> std::string {
        auto w = split(line);
        if (w[0] == "L") return readLiteral(unhex(w[1]));
        if (w[0] == "D")
        {
            uint64_t u = strtoull(w[1].c_str(), nullptr, 16);
            double d; memcpy(&d, &u, 8);
            std::string f = scratch + "/d";
            Json::StructuredData sd;
            if (sd.SerializeFrom(d) != Json::Status::kOk) return "serialize";
            Json::Status s1 = sd.Write(f.c_str());
            std::string text = slurp(f);
            Json::StructuredData e;
            auto r = e.Parse(f.c_str());
            double back = 0;
            Json::Status s2 = r.status == Json::Status::kOk ? e.DeserializeTo(back) : r.status;
            // the same within an array, read from a buffer
            TS::Array<double> a; a.AppendArrayElement(d); a.AppendArrayElement(-d); a.AppendArrayElement(d);
            Json::StructuredData g, h;
            TS::Array<double> c;
            std::string arr = "bad";
            if (g.SerializeFrom(a) == Json::Status::kOk && g.Write(f.c_str(), 0) == Json::Status::kOk)
            {
                Buffer b(slurp(f) + std::string(1, '\0'));
                if (h.Parse(b.a).status == Json::Status::kOk && h.DeserializeTo(c) == Json::Status::kOk && c.GetArrayElementCount() == 3 && bits(c[0]) == w[1] && bits(c[1]) == bits(-d) && bits(c[2]) == w[1]) arr = "ok";
            }
            return st(s1) + " " + hex(text) + " " + st(s2) + " " + bits(back) + " " + arr;
        }
        return "?";
    });
}
