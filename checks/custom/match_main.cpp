#include "match.hpp"
static pbt::Register r{"C26", mc::runEntry,
	"a case calls a mock whose requirements are matchers or strings of the user, directly, projected and nested, and compares verdict and report with a model; non-trivial if there is a requirement besides wildcards",
	150000, 3000000};
int main(int argc, char** argv) { return pbt::main(argc, argv); }
