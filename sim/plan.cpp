#include "plan.h"
#include <cmath>
#include <sstream>
std::string esc(std::string const & s) {
	if (s.empty()) return "\\e";
	std::string o; char b[8];
	for (unsigned char c : s) {
		if (c == '\\') o += "\\\\";
		else if (c == '\n') o += "\\n";
		else if (c == ' ') o += "\\s";
		else if (c < 33 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
		else o += (char)c;
	}
	return o;
}
std::string unesc(std::string const & s) {
	std::string o;
	for (size_t i = 0; i < s.size(); ++i) {
		if (s[i] != '\\' || i + 1 >= s.size()) { o += s[i]; continue; }
		char c = s[++i];
		if (c == 'e') continue;
		if (c == 'n') o += '\n';
		else if (c == 's') o += ' ';
		else if (c == 'x' && i + 2 < s.size()) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
		else o += c;
	}
	return o;
}
std::string hexd(double d) {
	// short form for exactly represented short decimals, else bits
	if (std::isfinite(d)) { char b[40]; snprintf(b, sizeof b, "%.6g", d);
		double r = strtod(b, nullptr); uint64_t x, y; memcpy(&x, &d, 8); memcpy(&y, &r, 8); if (x == y) return b; }
	uint64_t x; memcpy(&x, &d, 8); char b[40]; snprintf(b, sizeof b, "#%016llx", (unsigned long long)x); return b;
}
double unhexd(std::string const & s) {
	if (!s.empty() && s[0] == '#') { uint64_t x = strtoull(s.c_str() + 1, nullptr, 16); double d; memcpy(&d, &x, 8); return d; }
	return strtod(s.c_str(), nullptr);
}
std::string Plan::text() const {
	std::string o = "prop " + prop + "\n";
	for (auto & kv : cfg) o += "set " + kv.first + " " + (kv.second.empty() ? "\\e" : kv.second) + "\n";
	for (auto & l : items) { for (size_t i = 0; i < l.w.size(); ++i) { if (i) o += ' '; o += l.w[i].empty() ? "\\e" : l.w[i]; } o += '\n'; }
	return o;
}
Plan Plan::parse(std::string const & text) {
	Plan p; std::istringstream is(text); std::string line;
	while (std::getline(is, line)) {
		if (line.empty() || line[0] == '#') continue;
		std::istringstream ls(line); Line l; std::string t;
		while (ls >> t) l.w.push_back(t == "\\e" ? std::string() : t);
		if (l.w.empty()) continue;
		if (l.w[0] == "prop") p.prop = l.at(1);
		else if (l.w[0] == "set") p.cfg[l.at(1)] = l.at(2);
		else p.items.push_back(l);
	}
	return p;
}
