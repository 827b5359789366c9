// Reference models the checkers compare the library with.
#ifndef SIM_REF_H
#define SIM_REF_H
#include "core.h"
#include <vector>
namespace ref {
// +1 the node is inside the mask, -1 outside, 0 too close to the mask's edge to say
int maskSide(const sim::Line& op, double x, double y);
// Fast marching reinitialisation; eps > 0 perturbs every stored distance by a relative amount of that size
std::vector<double> reinit(const std::vector<double>& sd, int w, int h, double eps, uint64_t seed);
// Velocity extension: v holds the velocities of the nodes next to the interface
std::vector<double> extend(const std::vector<double>& sd, const std::vector<double>& v, const std::vector<char>& active, int w, int h, double eps, uint64_t seed, bool& divZero, std::vector<char>* frozen = nullptr, std::vector<double>* marched = nullptr);
bool locallyConsistent(const std::vector<double>& in, const std::vector<double>& out, int i, int w, int h);
std::vector<char> frozenNodes(const std::vector<double>& sd, int w, int h);
}
#endif
