#include "../matchers/common.hpp"
static const char* const rule = "a case is a series of calls of one generated mock with three expectations; non-trivial if a call was answered with several side effects or a configured outcome";
static pbt::Register r8{"C08", mc::runEntry, rule, 200000, 6000000};
static pbt::Register r9{"C09", mc::runEntry, rule, 200000, 6000000};
int main(int argc, char** argv) { return pbt::main(argc, argv); }
