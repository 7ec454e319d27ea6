#include "report.hpp"

static pbt::Register r{"C27", rp::run,
	"a case is a history of set-ups (by any location form), calls and ends on one generated mock; non-trivial if a call had "
	"several expectations set up before it", 200000, 4000000};

int main(int argc, char** argv) { return pbt::main(argc, argv); }
