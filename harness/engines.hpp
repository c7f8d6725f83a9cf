#pragma once
#include "coordinator.hpp"
knor::coordinator::ptr make_engine(const Params& p, const double* centers, i64 iters, i64 init, const char* file);
Out run_made(const Params& p, knor::coordinator::ptr& q, double* x);
Out take(const knor::base::cluster_t& c);
