// Library calls of any kind as plan words.
#pragma once
#include "sc.h"
// words: op NAME val.. val.. | ins loc val | fixed a b val | enote a val | ext kind loc text chunks | ver | idn
struct GCall { std::string what; Op const * op = nullptr; Val v[3]; int a = -1, b = -1; std::string text, loc; std::vector<unsigned> chunks; bool use = false;
	std::string name() const { return op ? opName(*op) : what + (v[0].k == K_NONE ? "" : std::string(" ") + kindNames[v[0].k]); } };
struct Env { std::vector<DevFault> faults; int mask = 0; bool alias = false; int shift = 0; };
GCall parseCall(Line const & l, size_t at);
// Makes the call (operands live at addresses fixed per depth) and returns everything it yielded as text.
std::string perform(GCall const & c, Env const & e, int depth = 0);
std::vector<std::string> opWords(Op const & o, std::vector<Val> const & v);
std::vector<std::string> genCall(rt::Rng & r, int fl, double pOp);          // any call
std::vector<std::string> genIoWords(rt::Rng & r, int fl);                   // formatting, insertion, extraction, identity
std::vector<std::string> perturb(rt::Rng & r, std::vector<std::string> w);  // one argument component changed slightly
std::vector<std::string> otherOperand(rt::Rng & r, std::vector<std::string> const & w, int fl);
std::vector<std::string> related(rt::Rng & r, std::vector<std::string> const & h, int fl);  // same function, other values or types
