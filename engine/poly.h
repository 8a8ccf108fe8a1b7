// Exact multivariate polynomials and rational functions over Q, with algebraic
// rewrite rules (sqrt atoms, sine/cosine pairs).
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <cstdlib>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <set>

typedef mpq_class Q;
typedef uint32_t MonoId;
typedef std::vector<std::pair<uint16_t, uint16_t>> MonoV;  // (var, exp), sorted by var

struct MonoTable {
  std::vector<MonoV> v;
  std::vector<uint16_t> deg;
  std::vector<uint8_t> needsRed;
  std::map<MonoV, MonoId> idx;
  std::unordered_map<uint64_t, MonoId> mulc;
  std::vector<uint8_t> ruleVar;  // var has a rewrite rule for exp>=2
  MonoTable() { intern(MonoV()); }
  MonoId intern(const MonoV &m) {
    auto it = idx.find(m);
    if (it != idx.end()) return it->second;
    MonoId id = v.size();
    v.push_back(m);
    unsigned d = 0;
    uint8_t nr = 0;
    for (auto &p : m) {
      d += p.second;
      if (p.second >= 2 && p.first < ruleVar.size() && ruleVar[p.first]) nr = 1;
    }
    deg.push_back(d);
    needsRed.push_back(nr);
    idx[m] = id;
    return id;
  }
  MonoId var(unsigned x) { return intern(MonoV{{(uint16_t)x, 1}}); }
  MonoId mul(MonoId a, MonoId b) {
    if (a == 0) return b;
    if (b == 0) return a;
    if (a > b) std::swap(a, b);
    uint64_t k = ((uint64_t)a << 32) | b;
    auto it = mulc.find(k);
    if (it != mulc.end()) return it->second;
    MonoV r;
    const MonoV &x = v[a], &y = v[b];
    size_t i = 0, j = 0;
    while (i < x.size() || j < y.size()) {
      if (j >= y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
      else if (i >= x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
      else { r.push_back({x[i].first, (uint16_t)(x[i].second + y[j].second)}); i++; j++; }
    }
    MonoId id = intern(r);
    mulc[k] = id;
    return id;
  }
  // graded lex; returns -1,0,1
  int cmp(MonoId a, MonoId b) const {
    if (a == b) return 0;
    if (deg[a] != deg[b]) return deg[a] < deg[b] ? -1 : 1;
    const MonoV &x = v[a], &y = v[b];
    size_t n = std::min(x.size(), y.size());
    for (size_t i = 0; i < n; i++) {
      if (x[i].first != y[i].first) return x[i].first < y[i].first ? 1 : -1;
      if (x[i].second != y[i].second) return x[i].second < y[i].second ? -1 : 1;
    }
    return x.size() < y.size() ? -1 : 1;
  }
  // a / b if divisible
  bool div(MonoId a, MonoId b, MonoId &r) {
    if (b == 0) { r = a; return true; }
    if (deg[a] < deg[b]) return false;
    MonoV o;
    const MonoV &x = v[a], &y = v[b];
    size_t j = 0;
    for (size_t i = 0; i < x.size(); i++) {
      if (j < y.size() && y[j].first < x[i].first) return false;
      if (j < y.size() && y[j].first == x[i].first) {
        if (y[j].second > x[i].second) return false;
        if (x[i].second > y[j].second) o.push_back({x[i].first, (uint16_t)(x[i].second - y[j].second)});
        j++;
      } else o.push_back(x[i]);
    }
    if (j < y.size()) return false;
    r = intern(o);
    return true;
  }
};
extern MonoTable MT;

struct Term { MonoId m; Q c; };
struct Poly {
  std::vector<Term> t;  // descending
  bool zero() const { return t.empty(); }
  bool isConst() const { return t.empty() || (t.size() == 1 && t[0].m == 0); }
  Q constVal() const { return t.empty() ? Q(0) : t[0].c; }
  static Poly constant(const Q &q) { Poly p; if (q != 0) p.t.push_back({0, q}); return p; }
  static Poly var(unsigned v) { Poly p; p.t.push_back({MT.var(v), Q(1)}); return p; }
  unsigned degree() const { unsigned d = 0; for (auto &x : t) d = std::max<unsigned>(d, MT.deg[x.m]); return d; }
};
Poly padd(const Poly &a, const Poly &b, int sgn = 1);
Poly pscale(const Poly &a, const Q &c);
Poly pmul(const Poly &a, const Poly &b);
bool pdivExact(const Poly &a, const Poly &b, Poly &q);
bool psqrtExact(const Poly &a, Poly &r);
std::string pstr(const Poly &p);
bool peq(const Poly &a, const Poly &b);

// variables
struct VarInfo {
  std::string name;
  bool isInt = false;
  int kind = 0;       // 0 input, 1 sqrt atom, 2 sin atom, 3 cos atom
  Poly rule;          // value of var^2
  int link = -1;      // sin <-> cos ; argument var unused
  Q arg;
};
extern std::vector<VarInfo> VARS;
unsigned newVar(const std::string &name, int kind = 0);
void setRule(unsigned v, const Poly &rule);

// interned primitive polynomials (content 1, positive leading coefficient)
struct AtomTable {
  std::vector<Poly> p;
  std::unordered_map<std::string, int> idx;
  int intern(const Poly &prim);
};
extern AtomTable AT;
// poly = c * prim(atom); returns atom id (prim non constant)
int atomize(const Poly &p, Q &c);
Q content(const Poly &p);  // signed content so that p/content primitive with positive lc

typedef std::vector<std::pair<int, int>> Den;  // (atom, exp) sorted
struct RF {
  Poly num;
  Den den;
  bool isConst() const { return den.empty() && num.isConst(); }
};
RF rfConst(const Q &q);
RF rfVar(unsigned v);
RF rfAdd(const RF &a, const RF &b, int sgn = 1);
RF rfMul(const RF &a, const RF &b);
// list of primitive factors of b.num and the constant; the caller decides their signs
void factorNum(const Poly &p, Q &c, Den &fs);
RF rfDiv(const RF &a, const RF &b);  // b.num != 0 identically
std::string rfstr(const RF &r);
extern bool singlePrecision;
Q ratFromDouble(double d);           // simplest rational rounding to d
