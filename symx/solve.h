#pragma once
#include "term.h"
#include <map>
extern bool g_nothreads; extern long g_queries; extern double g_solver_s;
// 0 unsat, 1 sat, 2 unknown
int solveSat(const std::vector<Node *> &q, long timeout_ms, std::map<u64, u64> *model);
int shapeLookup(Node *n);           // -1 unknown shape
void shapeStore(Node *n, int r);
u64 evalModel(Node *n, const std::map<u64, u64> &m);
