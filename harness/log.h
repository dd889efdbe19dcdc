// Reads whitespace separated numbers written by the library's loggers.
#pragma once
#include "h.h"
typedef vector<vector<double>> Rows;
inline bool isFile(const string& f) { std::ifstream i(f); return i.good(); }
inline Rows readLog(const string& f) { Rows r; std::ifstream i(f); string l; while (std::getline(i, l)) { std::istringstream s(l); string t; vector<double> v; while (s >> t) v.push_back(sx::parse_real(t)); r.push_back(v); } return r; }
