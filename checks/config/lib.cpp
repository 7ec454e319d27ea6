#include "cfg.hpp"

extern "C" __attribute__((visibility("default"))) std::uint32_t cfg_entries()
{
	static const bool once = []
	{
		std::stable_sort(cfg::entries().begin(), cfg::entries().end(), [](const auto& a, const auto& b) { return a.name < b.name; });
		return true;
	}();
	(void)once;
	return static_cast<std::uint32_t>(cfg::entries().size());
}

extern "C" __attribute__((visibility("default"))) const char* cfg_name(std::uint32_t i)
{
	return cfg::entries().at(i).name.c_str();
}

extern "C" __attribute__((visibility("default"))) int cfg_weight(std::uint32_t i)
{
	return cfg::entries().at(i).weight;
}

extern "C" __attribute__((visibility("default"))) const char* cfg_run(std::uint32_t i, std::uint32_t (*draw)(void*, std::uint32_t), void* ctx, int* content)
{
	static std::string text;
	pbt::Src s{draw, ctx};
	cfg::Trace t;
	mc::reset();
	try
	{
		cfg::entries().at(i).run(s, t);
	}
	catch (const std::exception& e)
	{
		t.put("left by an exception", e.what());
	}
	mimicpp::install_reporter<mc::Reporter>();
	*content = t.content;
	text = std::move(t.text);
	return text.c_str();
}
