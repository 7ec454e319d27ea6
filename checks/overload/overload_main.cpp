#include "overload.hpp"
static pbt::Register r{"C07", ov::run,
	"a case is a history of setting up expectations on and calling one generated overload set; non-trivial if a call was answered while expectations of other overloads were alive",
	200000, 6000000};
int main(int argc, char** argv) { return pbt::main(argc, argv); }
