#include "iface.hpp"
static pbt::Register r{"C17", ifc::run,
	"a case is a history of setting up expectations on and calling the methods of one generated interface mock; non-trivial if a call was answered while several expectations were alive",
	200000, 6000000};
int main(int argc, char** argv) { return pbt::main(argc, argv); }
