// Executes a plan against the code under test and checks it against the reference model.
#pragma once
#include "model.h"
#include "plan.h"
#include "rt.h"
void execPlan(const Plan &p, rt::Result *r); // in the run's own process
