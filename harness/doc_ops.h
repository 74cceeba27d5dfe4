// Histories of operations on one document object: "<op>|<op>|..." (see lib/doc_check.py).
#pragma once
#include "bind.h"
#include <memory>
#include <sys/stat.h>
namespace vh
{
const char* scratchFile;
std::map<int, Entry>& entries() { static std::map<int, Entry> m; return m; }
std::map<int, DocOps>& docOps() { static std::map<int, DocOps> m; return m; }

struct Histories
{
    std::string f, in, sub, missing, badout;
    explicit Histories(const std::string& dir) : f(dir + "/doc.json"), in(dir + "/in.json"), sub(dir + "/sub"), missing(dir + "/none/in.json"), badout(dir + "/none/out.json")
    {
        mkdir(sub.c_str(), 0700);
        scratchFile = f.c_str();
    }
    std::string run(const std::string& line)
    {
        auto sd = std::make_unique<Json::StructuredData>();
        std::string out;
        for (auto& op : split(line, '|'))
        {
            auto a = split(op, ':');
            std::string s, extra = "-";
            if (a[0] == "pb") { Buffer b(unhex(a[1])); s = parseReport(sd->Parse(b.a)); }
            else if (a[0] == "pf") { { std::ofstream o(in, std::ios::binary | std::ios::trunc); std::string c = unhex(a[1]); o.write(c.data(), (std::streamsize)c.size()); } s = parseReport(sd->Parse(in.c_str())); }
            else if (a[0] == "missing") s = parseReport(sd->Parse(missing.c_str()));
            else if (a[0] == "directory") s = parseReport(sd->Parse(sub.c_str()));
            else if (a[0] == "s") s = st(docOps().at(atoi(a[1].c_str())).ser(*sd, a[2])) + " 0 0";
            else if (a[0] == "v") s = st(docOps().at(atoi(a[1].c_str())).val(*sd)) + " 0 0";
            else if (a[0] == "d") s = st(docOps().at(atoi(a[1].c_str())).des(*sd, extra, nullptr)) + " 0 0";
            else if (a[0] == "w") { ::unlink(scratchFile); Json::Status w = sd->Write(scratchFile, 0); s = st(w) + " 0 0"; extra = "x" + hex(slurp(scratchFile)); }
            else if (a[0] == "wi") { ::unlink(scratchFile); Json::Status w = sd->Write(scratchFile, (TS::uint32)atoi(a[1].c_str()), (char)atoi(a[2].c_str())); s = st(w) + " 0 0"; extra = "x" + hex(slurp(scratchFile)); }
            else if (a[0] == "wx") s = st(sd->Write(badout.c_str())) + " 0 0";
            else if (a[0] == "new") { sd = std::make_unique<Json::StructuredData>(); s = "kOk 0 0"; }
            const Json::StructuredData& c = *sd;
            std::string d = dump(c.GetRootJsonValue());
            if (c.GetRootJsonValue() != sd->GetRootJsonValue()) d += "!root";
            out += s + " " + d + " " + extra + "|";
        }
        return out;
    }
};
} // namespace vh
