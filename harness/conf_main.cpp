// Serves everything that differently built libraries have to answer alike: "H <history>", "L ..." and "S ..." (bind_main.cpp).
#include "doc_ops.h"
int main(int argc, char** argv)
{
    vh::Histories h(argc > 1 ? argv[1] : ".");
    vh::serve([&](const std::string& line) {
        if (line[0] == 'H') return h.run(line.substr(2));
        auto a = vh::split(line);
        auto& e = vh::entries().at(atoi(a[1].c_str()));
        return (a[0] == "L" ? e.load : e.store)(a[2], vh::unhex(a[3]));
    });
}
