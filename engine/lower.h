#pragma once
#include "expr.h"
enum { M_BV = 0, M_INT, M_REALZ, M_REL, M_ABS, M_COUNT };
// returns 1 sat (model in out), -1 unsat, 0 unknown, 2 not encodable in this mode
int solveIn(int mode, const std::vector<Expr*>& cs, unsigned timeout_ms, std::map<int, Val>& out, std::string& err, const char* dumpTo = nullptr);
