#include "../matchers/common.hpp"
static pbt::Register r{"C14", mc::runEntry,
	"a case prints one value of one type directly, nested and in reports; non-trivial if there is any content to print", 150000, 3000000};
int main(int argc, char** argv) { return pbt::main(argc, argv); }
