#include "cprint.hpp"
static pbt::Register r{"C26", mc::runEntry,
	"a case prints one value with parts that only a printer of the user may print, directly, nested and in reports; non-trivial if there is any content to print",
	150000, 3000000};
int main(int argc, char** argv) { return pbt::main(argc, argv); }
