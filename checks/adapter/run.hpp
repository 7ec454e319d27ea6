#pragma once
#include "adapter.hpp"
#include <memory>

namespace adapter
{
	struct Real;
	// what owns the mocks of a test case
	struct Owner
	{
		Owner();
		~Owner();
		Owner(const Owner&) = delete;
		std::unique_ptr<Real> real;
		void run(int i) const;
		void run(const Program& p) const;
	};
	void note(const std::string& s);
	extern void (*onCaught)(bool rethrows); // called inside of handlers: at the begin, before throwing again
	void nativeCheck(bool b); // by the framework
}
