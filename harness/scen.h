#pragma once
#include "common.h"
#include "gwmodelpp/spatialweight/SpatialWeight.h"
std::unique_ptr<gwm::Distance> makeDistance(const KV& k);
gwm::BandwidthWeight makeWeight(const KV& k, const std::string& bwKey);
gwm::SpatialWeight makeSW(const KV& k, const std::string& bwKey);
extern long gDistCalls;
// several configured uses of one object after each other; the result of the last one
Out runHistory(const std::vector<KV>& h, Env& env, bool controlled);
// the configuration steps of a scenario in another order: i>=0 is step i, -1-i is step i of the configuration `wrong`; an empty sequence is the canonical order
struct Order { std::vector<int> seq; const KV* wrong = nullptr; mutable std::vector<std::string> real, other; /* names of the steps, filled in by the run */ };
Out runOrdered(const KV& k, Env& env, const Order& o, bool controlled);
