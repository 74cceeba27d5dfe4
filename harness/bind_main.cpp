// Serves "L <type> <data> <hex of a buffer>" and "S <type> <data> <hex of an earlier document>".
#include "bind.h"
namespace vh
{
const char* scratchFile;
std::map<int, Entry>& entries() { static std::map<int, Entry> m; return m; }
}
int main(int argc, char** argv)
{
    std::string f = std::string(argc > 1 ? argv[1] : ".") + "/bind.json";
    vh::scratchFile = f.c_str();
    vh::serve([](const std::string& line) {
        auto a = vh::split(line);
        auto& e = vh::entries().at(atoi(a[1].c_str()));
        return (a[0] == "L" ? e.load : e.store)(a[2], vh::unhex(a[3]));
    });
}
