// Sequential containers: events of spec/OrdSeq.tla and spec/ObjSeq.tla, and a native reference that ranks histories
#pragma once
#include "rt/driver.h"
#include <algorithm>
#include <vector>
#include <string>
namespace sq {
using namespace vd;
typedef std::vector<long> L;
typedef std::pair<long, long> E2;
typedef std::vector<E2> L2;
inline std::string js(const L& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }
inline std::string js(const L2& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? ",[" : "[") + std::to_string(v[i].first) + "," + std::to_string(v[i].second) + "]"; return s + "]"; }
// one completed operation
struct Ev { std::string o; int b = 0; long k = 0, v = 0, j = 0; std::string p = "[]", s = "[]"; L r; };
inline void emit(const Ev& e) { vs::ev("{\"e\":\"o\",\"o\":\"%s\",\"b\":%d,\"k\":%ld,\"v\":%ld,\"j\":%ld,\"p\":%s,\"r\":%s,\"s\":%s}", e.o.c_str(), e.b, e.k, e.v, e.j, e.p.c_str(), js(e.r).c_str(), e.s.c_str()); }
inline void bad(bool ok) { if (!ok) pf.ext_ok = false; }
inline std::string seq_hdr(const std::string& obj, const std::string& more) { pf.on = pf.ext = true; return ",\"obj\":\"" + obj + "\"" + more; }
}
