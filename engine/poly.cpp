#include "poly.h"
#include <cmath>
#include <cstring>

MonoTable MT;
AtomTable AT;
std::vector<VarInfo> VARS;

unsigned newVar(const std::string &name, int kind) {
  VarInfo vi;
  vi.name = name;
  vi.kind = kind;
  VARS.push_back(vi);
  MT.ruleVar.resize(VARS.size(), 0);
  return VARS.size() - 1;
}
void setRule(unsigned v, const Poly &rule) {
  VARS[v].rule = rule;
  MT.ruleVar[v] = 1;
}

Poly padd(const Poly &a, const Poly &b, int sgn) {
  Poly r;
  r.t.reserve(a.t.size() + b.t.size());
  size_t i = 0, j = 0;
  while (i < a.t.size() && j < b.t.size()) {
    if (a.t[i].m == b.t[j].m) {
      Q c = sgn > 0 ? Q(a.t[i].c + b.t[j].c) : Q(a.t[i].c - b.t[j].c);
      if (c != 0) r.t.push_back({a.t[i].m, c});
      i++; j++;
    } else if (MT.cmp(a.t[i].m, b.t[j].m) > 0) r.t.push_back(a.t[i++]);
    else { r.t.push_back(b.t[j]); if (sgn < 0) r.t.back().c = -r.t.back().c; j++; }
  }
  for (; i < a.t.size(); i++) r.t.push_back(a.t[i]);
  for (; j < b.t.size(); j++) { r.t.push_back(b.t[j]); if (sgn < 0) r.t.back().c = -r.t.back().c; }
  return r;
}
Poly pscale(const Poly &a, const Q &c) {
  Poly r;
  if (c == 0) return r;
  r = a;
  if (c != 1) for (auto &x : r.t) x.c *= c;
  return r;
}
static Poly reduceMono(MonoId m) {
  // rewrite var^2 for rule variables
  const MonoV v = MT.v[m];
  Poly rest = Poly::constant(1);
  MonoV keep;
  for (auto &p : v) {
    if (p.second >= 2 && MT.ruleVar[p.first]) {
      Poly rp = VARS[p.first].rule;
      for (int k = 0; k < p.second / 2; k++) rest = pmul(rest, rp);
      if (p.second % 2) keep.push_back({p.first, 1});
    } else keep.push_back(p);
  }
  Poly k;
  k.t.push_back({MT.intern(keep), Q(1)});
  return pmul(rest, k);
}
Poly pmul(const Poly &a, const Poly &b) {
  Poly r;
  if (a.t.empty() || b.t.empty()) return r;
  if (a.t.size() == 1 && a.t[0].m == 0) return pscale(b, a.t[0].c);
  if (b.t.size() == 1 && b.t[0].m == 0) return pscale(a, b.t[0].c);
  if (a.t.size() * b.t.size() == 1) {
    MonoId m = MT.mul(a.t[0].m, b.t[0].m);
    if (!MT.needsRed[m]) { r.t.push_back({m, Q(a.t[0].c * b.t[0].c)}); return r; }
  }
  std::unordered_map<MonoId, Q> acc;
  acc.reserve(a.t.size() * b.t.size());
  Q tmp;
  bool red = false;
  for (auto &x : a.t)
    for (auto &y : b.t) {
      MonoId m = MT.mul(x.m, y.m);
      if (MT.needsRed[m]) red = true;
      tmp = x.c * y.c;
      auto it = acc.find(m);
      if (it == acc.end()) acc.emplace(m, tmp);
      else it->second += tmp;
    }
  std::vector<std::pair<MonoId, Q>> redl;
  for (auto &kv : acc) {
    if (kv.second == 0) continue;
    if (red && MT.needsRed[kv.first]) redl.push_back({kv.first, kv.second});
    else r.t.push_back({kv.first, kv.second});
  }
  std::sort(r.t.begin(), r.t.end(), [](const Term &p, const Term &q) { return MT.cmp(p.m, q.m) > 0; });
  for (auto &kv : redl) r = padd(r, pscale(reduceMono(kv.first), kv.second));
  return r;
}
bool peq(const Poly &a, const Poly &b) {
  if (a.t.size() != b.t.size()) return false;
  for (size_t i = 0; i < a.t.size(); i++)
    if (a.t[i].m != b.t[i].m || a.t[i].c != b.t[i].c) return false;
  return true;
}
bool pdivExact(const Poly &a, const Poly &b, Poly &q) {
  q.t.clear();
  if (a.t.empty()) return true;
  MonoId qm;
  if (!MT.div(a.t[0].m, b.t[0].m, qm)) return false;
  if (!MT.div(a.t.back().m, b.t.back().m, qm)) return false;
  if (b.t.size() == 1) {
    for (auto &x : a.t) {
      if (!MT.div(x.m, b.t[0].m, qm)) { q.t.clear(); return false; }
      q.t.push_back({qm, Q(x.c / b.t[0].c)});
    }
    return true;
  }
  struct Cmp { bool operator()(MonoId x, MonoId y) const { return MT.cmp(x, y) > 0; } };
  std::map<MonoId, Q, Cmp> rem;
  for (auto &x : a.t) rem.emplace_hint(rem.end(), x.m, x.c);
  while (!rem.empty()) {
    auto it = rem.begin();
    if (!MT.div(it->first, b.t[0].m, qm)) { q.t.clear(); return false; }
    Q c = it->second / b.t[0].c;
    q.t.push_back({qm, c});
    for (auto &y : b.t) {
      MonoId m = MT.mul(qm, y.m);
      if (MT.needsRed[m]) { q.t.clear(); return false; }
      auto f = rem.find(m);
      if (f == rem.end()) rem.emplace(m, Q(-c * y.c));
      else { f->second -= c * y.c; if (f->second == 0) rem.erase(f); }
    }
  }
  return true;
}
static bool qsqrt(const Q &a, Q &r) {
  if (a < 0) return false;
  mpz_class n = a.get_num(), d = a.get_den();
  if (!mpz_perfect_square_p(n.get_mpz_t()) || !mpz_perfect_square_p(d.get_mpz_t())) return false;
  r = Q(sqrt(n), sqrt(d));
  r.canonicalize();
  return true;
}
bool psqrtExact(const Poly &a, Poly &r) {
  // r with r*r == a, leading coefficient positive
  r.t.clear();
  if (a.t.empty()) return true;
  Q c;
  if (!qsqrt(a.t[0].c, c)) return false;
  MonoV lm;
  for (auto &p : MT.v[a.t[0].m]) {
    if (p.second % 2) return false;
    lm.push_back({p.first, (uint16_t)(p.second / 2)});
  }
  MonoId m0 = MT.intern(lm);
  r.t.push_back({m0, c});
  for (int it = 0; it < 400; it++) {
    Poly rem = padd(a, pmul(r, r), -1);
    if (rem.zero()) return true;
    MonoId qm;
    if (!MT.div(rem.t[0].m, m0, qm)) return false;
    if (MT.cmp(qm, r.t.back().m) >= 0) return false;
    r.t.push_back({qm, Q(rem.t[0].c / (2 * c))});
  }
  return false;
}
std::string pstr(const Poly &p) {
  if (p.zero()) return "0";
  std::string s;
  for (auto &x : p.t) {
    if (!s.empty()) s += " + ";
    s += x.c.get_str();
    for (auto &e : MT.v[x.m]) {
      s += "*" + VARS[e.first].name;
      if (e.second > 1) s += "^" + std::to_string(e.second);
    }
    if (s.size() > 400) { s += " ..."; break; }
  }
  return s;
}
std::string rfstr(const RF &r) {
  std::string s = "(" + pstr(r.num) + ")";
  for (auto &d : r.den) s += "/(" + pstr(AT.p[d.first]) + ")^" + std::to_string(d.second);
  return s;
}
Q content(const Poly &p) {
  mpz_class g = 0, l = 1;
  for (auto &x : p.t) {
    mpz_class n = abs(x.c.get_num());
    mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), n.get_mpz_t());
    mpz_class d = x.c.get_den();
    mpz_lcm(l.get_mpz_t(), l.get_mpz_t(), d.get_mpz_t());
  }
  Q c(g, l);
  c.canonicalize();
  if (p.t[0].c < 0) c = -c;
  return c;
}
int AtomTable::intern(const Poly &prim) {
  std::string k;
  for (auto &x : prim.t) {
    k += std::to_string(x.m);
    k += ':';
    k += x.c.get_str(62);
    k += ';';
  }
  auto it = idx.find(k);
  if (it != idx.end()) return it->second;
  int id = p.size();
  p.push_back(prim);
  idx[k] = id;
  return id;
}
int atomize(const Poly &p, Q &c) {
  c = content(p);
  return AT.intern(pscale(p, 1 / c));
}

RF rfConst(const Q &q) { RF r; r.num = Poly::constant(q); return r; }
RF rfVar(unsigned v) { RF r; r.num = Poly::var(v); return r; }
static void cancel(RF &r) {
  if (r.num.zero()) { r.den.clear(); return; }
  if (r.den.empty()) return;
  Den nd;
  for (auto &d : r.den) {
    int e = d.second;
    Poly q;
    while (e > 0 && pdivExact(r.num, AT.p[d.first], q)) { r.num = q; e--; }
    if (e) nd.push_back({d.first, e});
  }
  r.den.swap(nd);
}
static void addFac(Den &d, int a, int e) {
  for (auto it = d.begin(); it != d.end(); ++it) {
    if (it->first == a) { it->second += e; return; }
    if (it->first > a) { d.insert(it, {a, e}); return; }
  }
  d.push_back({a, e});
}
// replace even powers of sqrt-atom denominators by their radicand
static void fixSqrtDen(RF &r) {
  bool again = true;
  while (again) {
    again = false;
    for (size_t i = 0; i < r.den.size(); i++) {
      const Poly &p = AT.p[r.den[i].first];
      if (p.t.size() == 1 && MT.v[p.t[0].m].size() == 1 && r.den[i].second >= 2) {
        unsigned v = MT.v[p.t[0].m][0].first;
        if (MT.ruleVar[v] && VARS[v].kind == 1) {
          int h = r.den[i].second / 2;
          r.den[i].second -= 2 * h;
          if (r.den[i].second == 0) r.den.erase(r.den.begin() + i);
          Poly rad = VARS[v].rule;
          if (rad.isConst()) {
            for (int k = 0; k < h; k++) r.num = pscale(r.num, 1 / rad.constVal());
          } else {
            Q c;
            Den fs;
            factorNum(rad, c, fs);
            for (int k = 0; k < h; k++) r.num = pscale(r.num, 1 / c);
            for (auto &f : fs) addFac(r.den, f.first, f.second * h);
          }
          again = true;
          break;
        }
      }
    }
  }
}
static Poly factorPow(int atom, int e) {
  Poly p = Poly::constant(1);
  for (int i = 0; i < e; i++) p = pmul(p, AT.p[atom]);
  return p;
}
RF rfAdd(const RF &a, const RF &b, int sgn) {
  if (a.num.zero()) {
    if (sgn > 0) return b;
    RF r = b;
    for (auto &x : r.num.t) x.c = -x.c;
    return r;
  }
  if (b.num.zero()) return a;
  RF r;
  if (a.den == b.den) {
    r.num = padd(a.num, b.num, sgn);
    r.den = a.den;
    cancel(r);
    return r;
  }
  Poly ma = Poly::constant(1), mb = Poly::constant(1);
  size_t i = 0, j = 0;
  while (i < a.den.size() || j < b.den.size()) {
    if (j >= b.den.size() || (i < a.den.size() && a.den[i].first < b.den[j].first)) {
      r.den.push_back(a.den[i]);
      mb = pmul(mb, factorPow(a.den[i].first, a.den[i].second));
      i++;
    } else if (i >= a.den.size() || b.den[j].first < a.den[i].first) {
      r.den.push_back(b.den[j]);
      ma = pmul(ma, factorPow(b.den[j].first, b.den[j].second));
      j++;
    } else {
      int ea = a.den[i].second, eb = b.den[j].second, e = std::max(ea, eb);
      r.den.push_back({a.den[i].first, e});
      if (ea < e) ma = pmul(ma, factorPow(a.den[i].first, e - ea));
      if (eb < e) mb = pmul(mb, factorPow(a.den[i].first, e - eb));
      i++; j++;
    }
  }
  r.num = padd(pmul(a.num, ma), pmul(b.num, mb), sgn);
  cancel(r);
  return r;
}
RF rfMul(const RF &a, const RF &b) {
  RF r;
  if (a.num.zero() || b.num.zero()) return r;
  if (a.den.empty() && b.den.empty()) { r.num = pmul(a.num, b.num); return r; }
  Poly an = a.num, bn = b.num, q;
  Den ad = a.den, bd = b.den;
  for (auto &d : bd) while (d.second > 0 && !an.isConst() && pdivExact(an, AT.p[d.first], q)) { an = q; d.second--; }
  for (auto &d : ad) while (d.second > 0 && !bn.isConst() && pdivExact(bn, AT.p[d.first], q)) { bn = q; d.second--; }
  r.num = pmul(an, bn);
  for (auto &d : ad) if (d.second) r.den.push_back(d);
  for (auto &d : bd) if (d.second) addFac(r.den, d.first, d.second);
  fixSqrtDen(r);
  if (!MT.ruleVar.empty()) cancel(r);
  return r;
}
static std::vector<int> knownFactors;
static std::set<int> knownSet;
void factorNum(const Poly &p0, Q &c, Den &fs) {
  Poly p = p0;
  c = content(p);
  p = pscale(p, 1 / c);
  if (p.isConst()) { c *= p.constVal(); return; }
  // monomial content
  std::map<unsigned, unsigned> mc;
  bool first = true;
  for (auto &x : p.t) {
    std::map<unsigned, unsigned> cur;
    for (auto &e : MT.v[x.m]) cur[e.first] = e.second;
    if (first) { mc = cur; first = false; }
    else {
      for (auto it = mc.begin(); it != mc.end();) {
        auto f = cur.find(it->first);
        if (f == cur.end()) it = mc.erase(it);
        else { it->second = std::min(it->second, f->second); ++it; }
      }
    }
    if (mc.empty()) break;
  }
  for (auto &kv : mc) {
    int a = AT.intern(Poly::var(kv.first));
    addFac(fs, a, kv.second);
    Poly q;
    for (unsigned k = 0; k < kv.second; k++) { pdivExact(p, AT.p[a], q); p = q; }
  }
  if (p.isConst()) { c *= p.constVal(); return; }
  if (p.degree() > 1)
    for (size_t i = 0; i < knownFactors.size() && p.degree() > 1; i++) {
      Poly q;
      while (!p.isConst() && pdivExact(p, AT.p[knownFactors[i]], q)) {
        addFac(fs, knownFactors[i], 1);
        p = q;
      }
    }
  if (p.isConst()) { c *= p.constVal(); return; }
  Q c2;
  int a = atomize(p, c2);
  c *= c2;
  addFac(fs, a, 1);
  if (knownSet.insert(a).second && knownFactors.size() < 400) knownFactors.push_back(a);
}
RF rfDiv(const RF &a, const RF &b) {
  Q c;
  Den fs;
  factorNum(b.num, c, fs);
  RF inv;
  inv.num = Poly::constant(1 / c);
  for (auto &d : b.den) inv.num = pmul(inv.num, factorPow(d.first, d.second));
  inv.den = fs;
  fixSqrtDen(inv);
  cancel(inv);
  RF r = rfMul(a, inv);
  return r;
}
bool singlePrecision = false;  // the library's real type is float: constants were rounded to that type
Q ratFromDouble(double d) {
  if (d == 0 || !std::isfinite(d)) return Q(0);
  if (d == std::floor(d) && std::fabs(d) < 1e18) return Q(d);
  Q ex(d);
  bool sg = singlePrecision && d == (double)(float)d;
  if (ex.get_den() <= (sg ? 4096 : 1048576)) return ex;
  // continued fraction convergents
  bool neg = d < 0;
  Q x = abs(ex);
  mpz_class p0 = 0, q0 = 1, p1 = 1, q1 = 0;
  for (int i = 0; i < 40; i++) {
    mpz_class a = x.get_num() / x.get_den();
    mpz_class p2 = a * p1 + p0, q2 = a * q1 + q0;
    Q cv(p2, q2);
    cv.canonicalize();
    // nearest-double test
    if (q2 > (sg ? 4000 : 1000000)) break;
    double dd = p2.get_d() / q2.get_d();  // both exact for < 2^53
    if (p2 < mpz_class("9007199254740992") && (sg ? (float)dd == (float)std::fabs(d) : dd == std::fabs(d))) return neg ? Q(-cv) : cv;
    p0 = p1; q0 = q1; p1 = p2; q1 = q2;
    Q fr = x - Q(a);
    if (fr == 0) break;
    x = 1 / fr;
  }
  return ex;
}
