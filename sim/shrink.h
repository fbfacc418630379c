// Minimises a failing plan: fewer tasks, operations, faults, switches, nodes, shorter texts, as long as the same
// class of violation is reported.
#pragma once
#include "plan.h"
#include <functional>
struct OutOfTime {}; // thrown by the predicate: what was reached so far counts
typedef std::function<bool(const Plan &)> StillFails;
size_t shrinkPlan(Plan &p, const StillFails &fails); // number of successful steps
