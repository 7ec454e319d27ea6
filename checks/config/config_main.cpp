// C25: runs the same entry with the same choices in every configuration's library and compares the traces.
#include "../../lib/pbt.hpp"
#include <dlfcn.h>

namespace
{
	using Draw = std::uint32_t (*)(void*, std::uint32_t);
	struct Lib
	{
		std::string name;
		std::uint32_t (*entries)();
		const char* (*entry)(std::uint32_t);
		int (*weight)(std::uint32_t);
		const char* (*run)(std::uint32_t, Draw, void*, int*);
	};

	std::vector<Lib>& libs()
	{
		static std::vector<Lib> l = []
		{
			std::vector<Lib> r;
			char self[4096]{};
			(void)!::readlink("/proc/self/exe", self, sizeof self - 1);
			std::string dir = self;
			dir.resize(dir.rfind('/'));
			std::ifstream list{dir + "/configs.txt"};
			std::string name;
			while (std::getline(list, name))
			{
				void* h = ::dlopen((dir + "/" + name + ".so").c_str(), RTLD_NOW | RTLD_LOCAL | RTLD_DEEPBIND);
				if (!h)
				{
					std::fprintf(stderr, "%s\n", ::dlerror());
					std::exit(3);
				}
				Lib l{name};
				l.entries = reinterpret_cast<decltype(l.entries)>(::dlsym(h, "cfg_entries"));
				l.entry = reinterpret_cast<decltype(l.entry)>(::dlsym(h, "cfg_name"));
				l.weight = reinterpret_cast<decltype(l.weight)>(::dlsym(h, "cfg_weight"));
				l.run = reinterpret_cast<decltype(l.run)>(::dlsym(h, "cfg_run"));
				r.push_back(l);
			}
			for (const Lib& l : r)
				if (l.entries() != r[0].entries()) std::exit(4);
			return r;
		}();
		return l;
	}

	struct Recorder
	{
		pbt::Src* src{};
		std::vector<std::pair<std::uint32_t, std::uint32_t>> made{};
		static std::uint32_t draw(void* self, std::uint32_t n)
		{
			auto& r = *static_cast<Recorder*>(self);
			const std::uint32_t v = r.src->draw(n);
			r.made.emplace_back(n, v);
			return v;
		}
	};

	struct Player
	{
		const std::vector<std::pair<std::uint32_t, std::uint32_t>>* made{};
		std::size_t pos{};
		bool off{};
		static std::uint32_t draw(void* self, std::uint32_t n)
		{
			auto& p = *static_cast<Player*>(self);
			if (p.pos < p.made->size() && (*p.made)[p.pos].first == n) return (*p.made)[p.pos++].second;
			p.off = true;
			++p.pos;
			return 0;
		}
	};

	std::string firstDifference(const std::string& a, const std::string& b)
	{
		std::istringstream x{a}, y{b};
		std::string l, r;
		for (int n = 1;; ++n)
		{
			const bool hasL = static_cast<bool>(std::getline(x, l)), hasR = static_cast<bool>(std::getline(y, r));
			if (!hasL) l = "(end)";
			if (!hasR) r = "(end)";
			if (l != r || !(hasL && hasR)) return "line " + std::to_string(n) + ": '" + l + "' against '" + r + "'";
		}
	}

	void configCase(pbt::Src& s, pbt::Case& c)
	{
		auto& all = libs();
		std::vector<int> weights;
		for (std::uint32_t i = 0; i < all[0].entries(); ++i) weights.push_back(all[0].weight(i));
		const auto entry = static_cast<std::uint32_t>(s.weighted(weights));
		c.label(all[0].entry(entry));
		c.log(std::string{"entry "} + all[0].entry(entry));
		Recorder rec{&s};
		int content{};
		const std::string want = all[0].run(entry, &Recorder::draw, &rec, &content);
		c.log(all[0].name + ":\n" + want);
		c.nontrivial = content;
		for (std::size_t i = 1; i < all.size(); ++i)
		{
			Player p{&rec.made};
			int ignored{};
			const std::string got = all[i].run(entry, &Player::draw, &p, &ignored);
			pbt::require(got == want && !p.off && p.pos == rec.made.size(),
				std::string{all[0].entry(entry)} + ": " + all[0].name + " and " + all[i].name + " disagree at " + firstDifference(want, got));
		}
	}

	pbt::Register r{"C25", configCase,
		"a case runs one entry (a random history, matchers or values) with the same choices in every build configuration and compares the complete traces; non-trivial if calls were matched, or values printed, at all",
		100000, 2000000};
}

int main(int argc, char** argv) { return pbt::main(argc, argv); }
