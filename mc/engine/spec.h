// Sequential specifications and the (exhaustive) linearizability decision.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
struct SOp { int t; int kind; long arg, ret; uint64_t pred; };
typedef std::vector<long> SState;
struct Spec { virtual ~Spec() {} virtual SState init() = 0; virtual bool step(SState &s, const SOp &o) = 0; };
Spec *makeSpec(const std::string &name, long arg);
bool linearizable(Spec &sp, const std::vector<SOp> &ops, uint64_t &nodes, const SState &s0);
