// Serves histories of operations on one document object.
#include "doc_ops.h"
int main(int argc, char** argv)
{
    vh::Histories h(argc > 1 ? argv[1] : ".");
    vh::serve([&](const std::string& line) { return h.run(line); });
}
