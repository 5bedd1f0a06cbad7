// A plan is the complete, explicit description of one simulated run.
#pragma once
#include "rt.h"
#include <map>

struct Line { std::vector<std::string> w;
	std::string const & at(size_t i) const { static std::string const e; return i < w.size() ? w[i] : e; }
	int64_t num(size_t i, int64_t def = 0) const { if (i >= w.size() || w[i].empty()) return def; return strtoll(w[i].c_str(), nullptr, 0); }
	uint64_t u64(size_t i, uint64_t def = 0) const { if (i >= w.size() || w[i].empty()) return def; return strtoull(w[i].c_str(), nullptr, 0); }
};
struct Plan {
	std::string prop;
	std::map<std::string, std::string> cfg;
	std::vector<Line> items;
	int64_t num(char const * k, int64_t def = 0) const { auto i = cfg.find(k); return i == cfg.end() ? def : strtoll(i->second.c_str(), nullptr, 0); }
	std::string str(char const * k, char const * def = "") const { auto i = cfg.find(k); return i == cfg.end() ? std::string(def) : i->second; }
	void set(char const * k, int64_t v) { cfg[k] = std::to_string(v); }
	void set(char const * k, std::string const & v) { cfg[k] = v; }
	void add(std::vector<std::string> w) { items.push_back(Line{std::move(w)}); }
	std::string text() const;
	static Plan parse(std::string const & text);
};
inline std::string S(int64_t v) { return std::to_string(v); }
std::string esc(std::string const & s);      // printable, no spaces
std::string unesc(std::string const & s);
std::string hexd(double d);                  // exact text of a double (bits)
double unhexd(std::string const & s);
